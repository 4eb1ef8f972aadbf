"""Which harness module decides which property"""
from harness.catalog import PROPS

MODULES = {p: d['module'] for p, d in PROPS.items()}
META = {p: {'bounds': d['bounds'], 'outside': d.get('outside', ''), 'assumptions': d['assumptions']}
        for p, d in PROPS.items()}
