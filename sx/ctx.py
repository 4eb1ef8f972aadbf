"""Symbolic harness context"""
import math
import z3
from . import core, strs, nums, state
from .core import new_char
from .nums import SymInt, SymFloat, SymBase

ALPHABETS = {
    'xml': core.XML_CHARS,
    'ident1': core.IDENT1,
    'ident': core.IDENT,
    'safe': core.SAFE,
    'print': core.PRINTABLE,
    'digit': core.DIGITS,
    'hex': core.HEXDIGITS,
    'hexall': core.iv_of('0123456789abcdefABCDEF'),
    'bin': core.iv_of('01'),
    'oct': core.iv_of('01234567'),
    'first': core.iv_of('123456789'),
    'letters': ((65, 90), (97, 122)),
    'upper': ((65, 90),),
    'letters01': ((48, 49), (97, 122)),
    'between': core.iv_of(' ,;:/+-*'),
    'numchars': core.iv_of('0123456789+-.eExXabABfF_ '),
}


class Violation(Exception):
    pass


class Ctx:
    symbolic = True

    def __init__(self, limits):
        self.limits = limits
        self.reached = set()
        self.violation = None
        self.known_tag = None
        self.cert = []
        self.counts = {}

    def pristine(self):
        """Gives modules and classes of the code under test the state they have in a new process"""
        state.restore()

    # ---- inputs
    def _reg(self, name, kind, payload):
        for n, k, p in core.ST.inputs:
            if n == name:
                raise RuntimeError('duplicate input name ' + name)
        core.ST.inputs.append((name, kind, payload))

    def text(self, name, lo, hi, alphabet='xml', first=None):
        n = lo + core.choose(hi - lo + 1)
        dom = ALPHABETS.get(alphabet, alphabet)
        s = ''.join(new_char(dom if not (i == 0 and first) else ALPHABETS[first], f'{name}[{i}]') for i in range(n))
        self._reg(name, 'text', s)
        return s

    def ident(self, name, hi=3, lo=1):
        return self.text(name, lo, hi, 'ident', first='ident1')

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None:
            core.ST.add(t >= lo)
        if hi is not None:
            core.ST.add(t <= hi)
        x = SymInt(t)
        self._reg(name, 'int', x)
        return x

    def float(self, name, shapes=None, special=True):
        """
        A double given by its shortest decimal digits: sign, number of digits and exponent
        are forked over `shapes`, the digits are symbolic.
        """
        opts = []
        if special:
            opts += ['inf', '-inf', 'nan', '0.0'] + (['-0.0'] if special == 'all' else [])
        for n, decpt in (shapes or FLOAT_SHAPES):
            for neg in (False, True):
                opts.append((neg, n, decpt))
        o = opts[core.choose(len(opts))]
        if isinstance(o, str):
            x = float(o)
            self._reg(name, 'conc', x)
            return x
        neg, n, decpt = o
        digs = []
        for i in range(n):
            d = z3.Int(f'{name}.d{i}')
            core.ST.add(z3.And(d >= (1 if i in (0, n - 1) else 0), d <= 9))
            digs.append(d)
        x = SymFloat(neg, digs, decpt - n)
        self._reg(name, 'float', x)
        return x

    def num(self, name, shapes=None, special=False):
        """int or float"""
        if self.flag(name + '?float'):
            return self.float(name, shapes, special)
        return self.int(name)

    def flag(self, name):
        v = bool(core.choose(2))
        self._reg(name, 'conc', v)
        return v

    def pick(self, name, options):
        i = core.choose(len(options))
        self._reg(name, 'conc', i)
        return options[i]

    def sub(self, name, items, lo, hi):
        """A sub-list (in order) of items with lo..hi members"""
        out = []
        n = len(items)
        for i, it in enumerate(items):
            left = n - i
            need = lo - len(out)
            if len(out) >= hi:
                break
            if left <= need:
                out.append(it)
            elif core.choose(2):
                out.append(it)
        self._reg(name, 'conc', [items.index(x) for x in out])
        return out

    # ---- conditions
    def eq(self, a, b):
        """Equality as a condition (not forking for scalars)"""
        ta, tb = type(a), type(b)
        if isinstance(a, str) and isinstance(b, str):
            r = strs.eq_term(a, b)
            if r is True and a != b:
                self._certify(a, b)
            return r
        if isinstance(a, SymBase) or isinstance(b, SymBase):
            if isinstance(a, (bool, str)) or isinstance(b, (bool, str)) or a is None or b is None:
                return False
            if not nums._numeric(a) or not nums._numeric(b):
                return False
            return nums.cmp_term('eq', a, b)
        if isinstance(a, float) and isinstance(b, float):
            return a == b or (math.isnan(a) and math.isnan(b))
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if ta in (list, tuple) and tb in (list, tuple):
            if len(a) != len(b):
                return False
            return self.all([self.eq(x, y) for x, y in zip(a, b)])
        return bool(a == b)

    def cmp(self, op, a, b):
        """numeric comparison term: op in lt le gt ge eq ne"""
        if isinstance(a, SymBase) or isinstance(b, SymBase):
            return nums.cmp_term(op, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {'lt': lambda: strs.lt(a, b), 'gt': lambda: strs.lt(b, a), 'le': lambda: not strs.lt(b, a),
                    'ge': lambda: not strs.lt(a, b)}[op]()
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]

    def all(self, conds):
        out = []
        for c in conds:
            if c is False:
                return False
            if c is not True:
                out.append(c)
        return True if not out else z3.And(out)

    def any(self, conds):
        out = []
        for c in conds:
            if c is True:
                return True
            if c is not False:
                out.append(c)
        return False if not out else z3.Or(out)

    def no(self, c):
        if c is True or c is False:
            return not c
        return z3.Not(c)

    def test(self, c):
        """Forks on a condition"""
        return core.branch(c)

    # ---- verdicts
    def _certify(self, a, b):
        """Two strings found equal by character domains: the solver confirms it at the end of the path"""
        a, b = core.norm(a), core.norm(b)
        for x, y in zip(a, b):
            if x != y:
                tx, ty = strs.tok(x), strs.tok(y)
                self.cert.append((tx.term if tx else ord(x)) == (ty.term if ty else ord(y)))

    def finish(self):
        """End of a path: is the path condition satisfiable, do the shortcuts hold in the solver's view?"""
        st = core.ST
        if not st.cons:
            return
        r = st.sat()
        if r == z3.unsat:
            raise core.PathInfeasible()
        if r == z3.unknown:
            core.note_partial('path condition undecided')
        if self.cert:
            r = st.sat(z3.Not(z3.And(self.cert)))
            if r == z3.sat:
                raise AssertionError('engine: character domains disagree with the solver')
            if r == z3.unsat:
                self.counts['certified'] = self.counts.get('certified', 0) + len(self.cert)

    def assume(self, cond):
        core.assume(cond)

    def reach(self, label):
        self.reached.add(label)

    def check(self, cond, msg):
        st = core.ST
        st.stats.checks += 1
        if cond is True:
            st.stats.discharged += 1
            self.counts['syntactic'] = self.counts.get('syntactic', 0) + 1
            return
        if cond is False:
            self._violate(msg, None)
        r = st.sat(z3.Not(cond))
        if r == z3.unsat:
            st.stats.discharged += 1
            self.counts['solver'] = self.counts.get('solver', 0) + 1
            return
        if r == z3.unknown:
            st.stats.unknown += 1
            core.note_partial('unknown: ' + msg)
            st.add(cond)
            return
        self._violate(msg, z3.Not(cond))

    def fail(self, msg):
        self._violate(msg, None)

    def known(self, tag, cond):
        """The path belongs to a recorded finding when cond holds (forks)"""
        if cond is True or (cond is not False and core.branch(cond)):
            self.known_tag = tag

    def _violate(self, msg, extra):
        st = core.ST
        ins = []
        cons = [extra] if extra is not None else []
        n = 4
        has_float = any(k == 'float' for _, k, _ in st.inputs)
        if has_float:
            n = 12
        for _ in range(n):
            r = st.sat(*cons)
            if r != z3.sat:
                break
            m = st.solver.model()
            ins.append(self.inputs(m))
            # block for an alternative model
            diff = []
            for name, kind, p in st.inputs:
                if kind == 'int':
                    diff.append(p.term != core.eval_int(m, p.term))
                elif kind == 'text':
                    for ch in p:
                        t = st.toks[ch].term
                        diff.append(t != core.eval_int(m, t))
                elif kind == 'float':
                    for d in p.digs:
                        diff.append(d != core.eval_int(m, d))
            if not diff:
                break
            cons.append(z3.Or(diff))
        self.violation = {'msg': msg, 'inputs': ins, 'known': self.known_tag, 'partial': list(st.partial)}
        raise core.Halt()

    def inputs(self, m):
        """Concrete values of the inputs in a model"""
        out = {}
        for name, kind, p in core.ST.inputs:
            if kind == 'text':
                out[name] = {'t': 'str', 'v': core.model_str(m, p)}
            elif kind == 'int':
                out[name] = {'t': 'int', 'v': str(core.eval_int(m, p.term))}
            elif kind == 'float':
                ds = ''.join(str(core.eval_int(m, d)) for d in p.digs)
                out[name] = {'t': 'float', 'v': f"{'-' if p.neg else ''}{ds}e{p.exp}"}
            elif isinstance(p, float):
                out[name] = {'t': 'float', 'v': repr(p)}
            else:
                out[name] = {'t': 'json', 'v': p}
        return out


# (number of digits, position of the decimal point after the first digit group)
FLOAT_SHAPES = [(n, dp) for n in (1, 2, 3) for dp in (-6, -4, -3, 0, 1, 2, 3)] + \
    [(1, 16), (1, 17), (1, 23), (1, 28), (1, 29), (1, 30), (1, 100), (1, 308), (1, -99), (1, -306),
     (7, 1), (7, 7), (8, 1), (8, 8), (9, 10), (15, 1), (15, 0), (15, 15), (15, 16), (16, 1), (16, 16), (16, 17),
     (17, 1), (17, 18), (17, 0), (17, -5), (17, 30), (5, -10), (5, 40)]
