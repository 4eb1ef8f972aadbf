#!/usr/bin/env python3-vt
"""Entry point of the checks: python3-vt check.py --property P01 [--tier quick|thorough]"""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sx import driver  # noqa: E402

sys.exit(driver.main())
