"""Concrete context: the same harness on the real, uninstrumented code"""
import io
import json
import math
import sys
import contextlib
import importlib
import os
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx.state import restore  # noqa: E402


class AssumeFailed(BaseException):
    pass


class Violated(BaseException):
    pass


class Diverged(BaseException):
    """The real run asks for an input which the recorded path never drew"""


class CCtx:
    symbolic = False

    def __init__(self, inputs):
        self.inp = inputs
        self.violation = None
        self.known_tag = None
        self.reached = set()

    def _get(self, name):
        if name not in self.inp:
            raise Diverged(name)
        d = self.inp[name]
        t, v = d['t'], d['v']
        if t == 'int':
            return int(v)
        if t == 'float':
            return float(v)
        return v

    def text(self, name, lo, hi, alphabet='xml', first=None):
        return self._get(name)

    def ident(self, name, hi=3, lo=1):
        return self._get(name)

    def int(self, name, lo=None, hi=None):
        return self._get(name)

    def float(self, name, shapes=None, special=True):
        return self._get(name)

    def num(self, name, shapes=None, special=False):
        if self.flag(name + '?float'):
            return self.float(name)
        return self.int(name)

    def flag(self, name):
        return self._get(name)

    def pick(self, name, options):
        return options[self._get(name)]

    def sub(self, name, items, lo, hi):
        return [items[i] for i in self._get(name)]

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                try:
                    fa, fb = float(a), float(b)
                except OverflowError:
                    return False
                return fa == fb or (math.isnan(fa) and math.isnan(fb))
        return bool(a == b)

    def cmp(self, op, a, b):
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def no(self, c):
        return not c

    def test(self, c):
        return bool(c)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def reach(self, label):
        self.reached.add(label)

    def check(self, c, msg):
        if not c:
            self.fail(msg)

    def fail(self, msg):
        self.violation = msg
        raise Violated()

    def known(self, tag, cond):
        if cond:
            self.known_tag = tag

    def pristine(self):
        restore()


def run(job, cases):
    fn, params = cases[job['case']]
    restore()
    c = CCtx(job['inputs'])
    out, err = io.StringIO(), io.StringIO()
    res = {}
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            fn(c, **params)
            res['status'] = 'ok'
        except AssumeFailed:
            res['status'] = 'assume'
        except Diverged as e:
            res['status'] = 'diverged'
            res['msg'] = str(e)
        except Violated:
            res['status'] = 'violation'
            res['msg'] = c.violation
        except Exception as e:  # an exception the property does not allow
            res['status'] = 'violation'
            res['msg'] = f'unexpected {type(e).__name__}: {e}'
            res['trace'] = traceback.format_exc()
    res['known'] = c.known_tag
    return res


def main():
    jobfile, outfile = sys.argv[1:3]
    with open(jobfile, encoding='utf-8') as fh:
        jobs = json.load(fh)
    tables = {}
    results = []
    for job in jobs['jobs']:
        key = job['module']
        if key not in tables:
            mod = importlib.import_module(key)
            tables[key] = {c.id: (c.fn, c.params) for c in mod.cases(job['property'], jobs['tier'])}
        try:
            results.append(run(job, tables[key]))
        except BaseException as e:  # pylint: disable=broad-except
            results.append({'status': 'error', 'msg': f'{type(e).__name__}: {e}', 'trace': traceback.format_exc()})
    with open(outfile, 'w', encoding='utf-8') as fh:
        json.dump(results, fh)


if __name__ == '__main__':
    src = os.environ.get('SX_SRC', '/repo/src')
    sys.path.insert(0, src)
    main()
