"""
Symbolic int, float and Decimal stand-ins.

SymInt   : unbounded z3 Int.
SymFloat : exact decimal value  sign * digits * 10**exp  whose *shape* (sign, number
           of digits, exponent) is fixed on the path while the digits are z3 Ints;
           repr() follows CPython's shortest-repr rules.  Results of arithmetic carry
           only a z3 Real.
SymDecimal: decimal.Decimal with symbolic coefficient digits and fixed exponent.
"""
import decimal
import math
from fractions import Fraction
import z3
from . import core
from .core import branch, fresh, lit, digit_char, note_partial


def to_z3_real(x):
    if isinstance(x, SymBase):
        return x.real()
    if type(x) is bool:
        x = int(x)
    if type(x) is int:
        return z3.RealVal(x)
    if type(x) is float:
        fr = Fraction(x)
        return z3.Q(fr.numerator, fr.denominator)
    if isinstance(x, decimal.Decimal):
        fr = Fraction(x)
        return z3.Q(fr.numerator, fr.denominator)
    raise TypeError(type(x))


def is_sym(x):
    return isinstance(x, SymBase)


class SymBase:
    __slots__ = ()


def _special(x):
    return type(x) is float and (math.isinf(x) or math.isnan(x))


def _cmp_special(op, special, swapped):
    """compare finite symbolic with inf/nan; returns python bool"""
    if math.isnan(special):
        return op == 'ne'
    big = special > 0
    # sym OP special
    res = {'lt': big, 'le': big, 'gt': not big, 'ge': not big, 'eq': False, 'ne': True}[op]
    return res


_OPS = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b,
        'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


def cmp_term(op, a, b):
    """z3 Bool (or python bool) for numeric comparison a OP b"""
    if _special(a):
        sw = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[op]
        return _cmp_special(sw, a, True)
    if _special(b):
        return _cmp_special(op, b, False)
    if type(a) is bool:
        a = int(a)
    if type(b) is bool:
        b = int(b)
    if isinstance(a, (SymInt, )) or type(a) is int:
        if isinstance(b, (SymInt, )) or type(b) is int:
            return _OPS[op](a.term if type(a) is SymInt else a, b.term if type(b) is SymInt else b)
    return _OPS[op](to_z3_real(a), to_z3_real(b))


def _numeric(x):
    return isinstance(x, SymBase) or type(x) in (int, float, bool) or isinstance(x, decimal.Decimal)


class SymInt(SymBase):
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    @property
    def __class__(self):
        return int

    def real(self):
        return z3.ToReal(self.term)

    # text
    def __str__(self):
        return self.text(10)

    __repr__ = __str__

    def text(self, base=10, upper=False, prefix=''):
        if branch(self.term < 0):
            return '-' + prefix + lit(z3.simplify(-self.term), base, upper)
        return prefix + lit(self.term, base, upper)

    def __format__(self, spec):
        if spec in ('', 'd'):
            return self.text(10)
        simple = {'x': (16, False, ''), 'X': (16, True, ''), 'b': (2, False, ''), 'o': (8, False, ''),
                  '#x': (16, False, '0x'), '#X': (16, True, '0X'), '#b': (2, False, '0b'), '#o': (8, False, '0o')}
        if spec in simple:
            return self.text(*simple[spec])
        if spec[-1] in 'eEfFgG%':
            return format(self.to_float(), spec)
        s = core.full(self.__format__(spec[-1] if spec[-1] in 'dxXbo' else ''))
        return format_pad(s, spec, numeric=True)

    def __bool__(self):
        return branch(self.term != 0)

    def __hash__(self):
        return hash(self.conc('hash of symbolic int'))

    def conc(self, why='concretized int'):
        """One value chosen; partial unless the value is determined"""
        t = z3.simplify(self.term)
        if z3.is_int_value(t):
            return t.as_long()
        m = core.model()
        v = core.eval_int(m, t)
        if core.ST.sat(t != v) != z3.unsat:
            note_partial(why)
            core.ST.add(t == v)
        return v

    def small(self, why, cap=12):
        """Forks over all values when there are few, else concretizes"""
        t = z3.simplify(self.term)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(cap):
            m = core.model()
            # deterministic order: smallest first by probing
            v = core.eval_int(m, t)
            key = ('small', t.get_id(), len(core.ST.trace))
            if branch(t == v):
                return v
            del key
        return self.conc(why)

    def __index__(self):
        return self.small('int used as index/size')

    def __int__(self):
        return self.small('native int()')

    def __float__(self):
        return float(self.conc('native float() of symbolic int'))

    def to_float(self):
        return float_of_int(self)

    # comparisons fork
    def __eq__(self, o):
        if not _numeric(o):
            return False
        return branch(cmp_term('eq', self, o))

    def __ne__(self, o):
        if not _numeric(o):
            return True
        return branch(cmp_term('ne', self, o))

    def __lt__(self, o):
        if not _numeric(o):
            return NotImplemented
        return branch(cmp_term('lt', self, o))

    def __le__(self, o):
        if not _numeric(o):
            return NotImplemented
        return branch(cmp_term('le', self, o))

    def __gt__(self, o):
        if not _numeric(o):
            return NotImplemented
        return branch(cmp_term('gt', self, o))

    def __ge__(self, o):
        if not _numeric(o):
            return NotImplemented
        return branch(cmp_term('ge', self, o))

    # arithmetic
    def _bin(self, o, f, fr=None):
        if type(o) is bool:
            o = int(o)
        if type(o) is SymInt:
            return SymInt(z3.simplify(f(self.term, o.term)))
        if type(o) is int:
            return SymInt(z3.simplify(f(self.term, z3.IntVal(o))))
        if isinstance(o, SymFloat) or type(o) is float:
            if _special(o):
                return f(0.0, o)
            return SymFloat.from_real(f(self.real(), to_z3_real(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) in (str, list, tuple):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(z3.simplify(-self.term))

    def __pos__(self):
        return self

    def __abs__(self):
        if branch(self.term < 0):
            return -self
        return self

    def __invert__(self):
        return SymInt(z3.simplify(-self.term - 1))

    def _divmod(self, a, b):
        """floor division of z3 ints/py ints; forks on the sign of b"""
        bt = b if isinstance(b, z3.ExprRef) else z3.IntVal(b)
        at = a if isinstance(a, z3.ExprRef) else z3.IntVal(a)
        if branch(bt == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if branch(bt > 0):
            return SymInt(at / bt), SymInt(at % bt)
        # a // b == (-a) // (-b); a % b == -((-a) % (-b))
        return SymInt((-at) / (-bt)), SymInt(-((-at) % (-bt)))

    def _div_arg(self, o):
        if type(o) is bool:
            o = int(o)
        if type(o) is SymInt:
            return o.term
        if type(o) is int:
            return o
        return None

    def __floordiv__(self, o):
        t = self._div_arg(o)
        if t is None:
            return NotImplemented
        return self._divmod(self.term, t)[0]

    def __rfloordiv__(self, o):
        t = self._div_arg(o)
        if t is None:
            return NotImplemented
        return self._divmod(t, self.term)[0]

    def __mod__(self, o):
        t = self._div_arg(o)
        if t is None:
            return NotImplemented
        return self._divmod(self.term, t)[1]

    def __rmod__(self, o):
        t = self._div_arg(o)
        if t is None:
            return NotImplemented
        return self._divmod(t, self.term)[1]

    def __divmod__(self, o):
        t = self._div_arg(o)
        if t is None:
            return NotImplemented
        return self._divmod(self.term, t)

    def __truediv__(self, o):
        if not _numeric(o):
            return NotImplemented
        if branch(cmp_term('eq', o, 0)) if is_sym(o) else o == 0:
            raise ZeroDivisionError('division by zero')
        return SymFloat.from_real(self.real() / to_z3_real(o))

    def __rtruediv__(self, o):
        if branch(self.term == 0):
            raise ZeroDivisionError('division by zero')
        return SymFloat.from_real(to_z3_real(o) / self.real())

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 4 and mod is None:
            r = SymInt(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        return self.conc('pow') ** (o.conc('pow') if is_sym(o) else o)

    def __rpow__(self, o):
        return o ** self.small('pow')

    def __lshift__(self, o):
        k = o if type(o) is int else o.__index__()
        return self * (1 << k)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        k = o if type(o) is int else o.__index__()
        return self // (1 << k)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if type(o) is int and o > 0 and (o & (o - 1)) == 0:
            return (self // o) % 2 * o
        return self.conc('bitwise and') & (o.conc('bitwise and') if is_sym(o) else o)

    __rand__ = __and__

    def __or__(self, o):
        return self.conc('bitwise or') | (o.conc('bitwise or') if is_sym(o) else o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.conc('bitwise xor') ^ (o.conc('bitwise xor') if is_sym(o) else o)

    __rxor__ = __xor__

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __trunc__
    __ceil__ = __trunc__

    def bit_length(self):
        if branch(self.term < 0):
            return (-self).bit_length()
        k = 0
        while k < 70:
            if branch(self.term < 2 ** k):
                return k
            k += 1
        return self.conc('bit_length').bit_length()

    def is_integer(self):
        return True

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def __reduce__(self):
        raise TypeError('symbolic int cannot be pickled')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def format_pad(s, spec, numeric):
    """Pads an expanded string with width/align/zero options of a format spec"""
    import re
    m = re.fullmatch(r'(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)([_,]?)([dxXbos]?)', spec)
    if not m:
        return format(core.concretize_str(s, 'format spec ' + spec), '')
    fill, align, sign, alt, zero, width, group, typ = m.groups()
    if group and zero:
        return format(core.concretize_str(s, 'format spec ' + spec), '')
    neg = s.startswith('-')
    body = s[1:] if numeric and neg else s
    pre = '-' if numeric and neg else ('+' if sign == '+' else ' ' if sign == ' ' else '')
    if alt and typ in 'xXbo':
        pre += '0' + typ
    if group:
        step = 4 if typ and typ in 'xXbo' else 3
        first = len(body) % step
        parts = ([body[:first]] if first else []) + [body[i:i + step] for i in range(first, len(body), step)]
        body = group.join(parts)
    width = int(width) if width else 0
    if zero and not align:
        fill, align = '0', '='
    fill = fill or ' '
    align = align or ('>' if numeric else '<')
    pad = max(0, width - len(pre) - len(body))
    if align == '=':
        return pre + fill * pad + body
    t = pre + body
    if align == '<':
        return t + fill * pad
    if align == '>':
        return fill * pad + t
    return fill * (pad // 2) + t + fill * (pad - pad // 2)


def _digits_term(digs):
    n = len(digs)
    return z3.Sum([z3.IntVal(0)] + [d * (10 ** (n - 1 - i)) if not isinstance(d, int) else z3.IntVal(
        d * 10 ** (n - 1 - i)) for i, d in enumerate(digs)])


def pow10(e):
    return z3.Q(10 ** e, 1) if e >= 0 else z3.Q(1, 10 ** -e)


def strip_digits(digs, exp):
    """Removes leading and trailing zeros (forks where symbolic)"""
    digs = list(digs)
    while digs and (digs[-1] == 0 if isinstance(digs[-1], int) else branch(digs[-1] == 0)):
        digs.pop()
        exp += 1
    while digs and (digs[0] == 0 if isinstance(digs[0], int) else branch(digs[0] == 0)):
        digs.pop(0)
    return digs, exp


def repr_float(neg, digs, exp):
    """CPython repr of the float with these canonical shortest digits"""
    sgn = '-' if neg else ''
    if not digs:
        return sgn + '0.0'
    ds = [digit_char(d) for d in digs]
    n = len(ds)
    decpt = n + exp
    if -4 < decpt <= 16:
        if decpt <= 0:
            return sgn + '0.' + '0' * (-decpt) + ''.join(ds)
        if decpt >= n:
            return sgn + ''.join(ds) + '0' * (decpt - n) + '.0'
        return sgn + ''.join(ds[:decpt]) + '.' + ''.join(ds[decpt:])
    e = decpt - 1
    mant = ds[0] + ('.' + ''.join(ds[1:]) if n > 1 else '')
    return f"{sgn}{mant}e{'-' if e < 0 else '+'}{abs(e):02d}"


def round_digits(digs, keep):
    """
    Rounds a digit list to its first `keep` digits (half either way: over-approximation
    of the exact binary tie).  Returns (digs, carry) where carry means one more digit.
    """
    if keep >= len(digs):
        return list(digs) + [0] * (keep - len(digs)), False
    if keep < 0:
        return [], False
    drop = len(digs) - keep
    full = _digits_term(digs)
    q = fresh('q')
    scale = 10 ** drop
    core.ST.add(z3.And(2 * (full - q * scale) <= scale, 2 * (q * scale - full) <= scale, q >= 0))
    if branch(q >= 10 ** keep):
        if keep == 0:
            return [1], True
        return [1] + [0] * keep, True
    out = []
    for _ in range(keep):
        d = fresh('d')
        core.ST.add(z3.And(d >= 0, d <= 9))
        out.append(d)
    core.ST.add(q == _digits_term(out))
    return out, False


class SymFloat(SymBase):
    __slots__ = ('neg', 'digs', 'exp', 'rterm')

    def __init__(self, neg, digs, exp):
        self.neg = neg
        self.digs = digs        # canonical digits or None when only rterm is known
        self.exp = exp
        self.rterm = None

    @classmethod
    def from_real(cls, term):
        x = cls(False, None, 0)
        x.rterm = z3.simplify(term)
        return x

    @property
    def __class__(self):
        return float

    def real(self):
        if self.rterm is None:
            v = z3.ToReal(_digits_term(self.digs)) * pow10(self.exp)
            self.rterm = -v if self.neg else v
        return self.rterm

    def shape(self):
        """Canonical digits; materialized by concretization for arithmetic results"""
        if self.digs is None:
            t = z3.simplify(self.rterm)
            m = core.model()
            v = m.eval(t, model_completion=True)
            if not z3.is_rational_value(v):
                v = v.approx(20)
            fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
            note_partial('text of a computed float')
            core.ST.add(t == v)
            f = float(fr)
            neg, digs, exp = float_shape(f)
            self.neg, self.digs, self.exp = neg, digs, exp
        return self

    def __str__(self):
        self.shape()
        return repr_float(self.neg, self.digs, self.exp)

    __repr__ = __str__

    def __format__(self, spec):
        self.shape()
        if spec == '':
            return str(self)
        import re
        m = re.fullmatch(r'(?:\.(\d+))?([eEfFgG]?)', spec)
        if not m:
            note_partial('float format spec ' + spec)
            return format(self.conc('float format'), spec)
        prec, typ = m.group(1), m.group(2) or 'r'
        return self.format_prec(None if prec is None else int(prec), typ)

    def format_prec(self, prec, typ):
        sgn = '-' if self.neg else ''
        digs, exp = list(self.digs), self.exp
        upper = typ in 'EFG'
        t = typ.lower()
        echar = 'E' if upper else 'e'
        if t == 'r':
            t = 'g'
            if prec is None:
                return str(self)
        if prec is None:
            prec = 6
        if t == 'e':
            if not digs:
                return sgn + '0' + ('.' + '0' * prec if prec else '') + echar + '+00'
            e = len(digs) + exp - 1
            out, carry = round_digits(digs, prec + 1)
            if carry:
                e += 1
                out = out[:prec + 1]
            ds = [digit_char(d) for d in out]
            return f"{sgn}{ds[0]}{'.' + ''.join(ds[1:]) if prec else ''}{echar}{'-' if e < 0 else '+'}{abs(e):02d}"
        if t == 'f':
            if not digs:
                return sgn + '0' + ('.' + '0' * prec if prec else '')
            keep = len(digs) + exp + prec      # digits kept
            if keep < 0:
                out = [0] * (prec + 1)
            else:
                if keep <= len(digs):
                    out, _ = round_digits(digs, keep)
                else:
                    out = digs + [0] * (keep - len(digs))
                if len(out) < prec + 1:
                    out = [0] * (prec + 1 - len(out)) + out
            ds = [digit_char(d) for d in out]
            ip, fp = ds[:len(ds) - prec], ds[len(ds) - prec:]
            return sgn + ''.join(ip) + ('.' + ''.join(fp) if prec else '')
        # g
        p = prec or 1
        if not digs:
            return sgn + '0'
        e = len(digs) + exp - 1
        out, carry = round_digits(digs, p)
        if carry:
            e += 1
            out = out[:p]
        out, _ = strip_digits_trailing(out)
        ds = [digit_char(d) for d in out]
        if -4 <= e < p:
            if e < 0:
                return sgn + '0.' + '0' * (-e - 1) + ''.join(ds)
            if len(ds) <= e + 1:
                return sgn + ''.join(ds) + '0' * (e + 1 - len(ds))
            return sgn + ''.join(ds[:e + 1]) + '.' + ''.join(ds[e + 1:])
        return f"{sgn}{ds[0]}{'.' + ''.join(ds[1:]) if len(ds) > 1 else ''}{echar}{'-' if e < 0 else '+'}{abs(e):02d}"

    def conc(self, why='concretized float'):
        note_partial(why)
        m = core.model()
        v = m.eval(self.real(), model_completion=True)
        if not z3.is_rational_value(v):
            v = v.approx(20)
        core.ST.add(self.real() == v)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))

    def __float__(self):
        return self.conc('native float()')

    def __bool__(self):
        return branch(self.real() != 0)

    def __hash__(self):
        return hash(self.conc('hash of symbolic float'))

    def is_integer(self):
        if self.digs is not None:
            return not self.digs or self.exp >= 0
        return branch(z3.IsInt(self.real()))

    def to_int(self):
        """int(x): truncation"""
        if self.digs is not None and (not self.digs or self.exp >= 0):
            t = _digits_term(self.digs) * (10 ** self.exp) if self.digs else z3.IntVal(0)
            return SymInt(z3.simplify(-t if self.neg else t))
        if self.digs is not None:
            keep = len(self.digs) + self.exp
            t = _digits_term(self.digs[:keep]) if keep > 0 else z3.IntVal(0)
            return SymInt(z3.simplify(-t if self.neg else t))
        r = self.real()
        if branch(r < 0):
            return SymInt(-z3.ToInt(-r))
        return SymInt(z3.ToInt(r))

    def _cmp(self, op, o):
        return branch(cmp_term(op, self, o))

    def __eq__(self, o):
        return self._cmp('eq', o) if _numeric(o) else False

    def __ne__(self, o):
        return self._cmp('ne', o) if _numeric(o) else True

    def __lt__(self, o):
        return self._cmp('lt', o) if _numeric(o) else NotImplemented

    def __le__(self, o):
        return self._cmp('le', o) if _numeric(o) else NotImplemented

    def __gt__(self, o):
        return self._cmp('gt', o) if _numeric(o) else NotImplemented

    def __ge__(self, o):
        return self._cmp('ge', o) if _numeric(o) else NotImplemented

    def _bin(self, o, f):
        if not _numeric(o):
            return NotImplemented
        if _special(o):
            return f(0.0, o)
        return SymFloat.from_real(f(self.real(), to_z3_real(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _numeric(o):
            return NotImplemented
        if (branch(cmp_term('eq', o, 0)) if is_sym(o) else o == 0):
            raise ZeroDivisionError('float division by zero')
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if branch(self.real() == 0):
            raise ZeroDivisionError('float division by zero')
        return self._bin(o, lambda a, b: b / a)

    def __mod__(self, o):
        return SymFloat.from_real(z3.RealVal(0)) if (o == 1 and self.is_integer()) else \
            self.conc('float mod') % (o.conc('float mod') if is_sym(o) else o)

    def __floordiv__(self, o):
        return self.conc('float //') // (o.conc('float //') if is_sym(o) else o)

    def __neg__(self):
        if self.digs is not None:
            return SymFloat(not self.neg, self.digs, self.exp)
        return SymFloat.from_real(-self.real())

    def __pos__(self):
        return self

    def __abs__(self):
        if self.digs is not None:
            return SymFloat(False, self.digs, self.exp)
        return -self if branch(self.real() < 0) else self

    def __pow__(self, o, mod=None):
        return self.conc('float pow') ** o

    def __round__(self, n=None):
        if n is None:
            i = self.to_int()
            if self.is_integer():
                return i
            return round(self.conc('round'))
        return float(self.format_prec(n, 'f')) if not core.has_tok(self.format_prec(n, 'f')) \
            else round(self.conc('round'), n)

    def __trunc__(self):
        return self.to_int()

    def __floor__(self):
        i = self.to_int()
        if self.is_integer():
            return i
        return i - 1 if branch(self.real() < 0) else i

    def __ceil__(self):
        i = self.to_int()
        if self.is_integer():
            return i
        return i if branch(self.real() < 0) else i + 1

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def strip_digits_trailing(digs):
    digs = list(digs)
    while len(digs) > 1 and (digs[-1] == 0 if isinstance(digs[-1], int) else branch(digs[-1] == 0)):
        digs.pop()
    return digs, 0


def float_shape(f):
    """(neg, digits, exp) of a concrete finite float"""
    sign, digits, exp = decimal.Decimal(repr(f)).as_tuple()
    digits = list(digits)
    while digits and digits[-1] == 0:
        digits.pop()
        exp += 1
    while digits and digits[0] == 0:
        digits.pop(0)
    return bool(sign), digits, exp


def float_of_int(si):
    """float(SymInt); exact, i.e. bounded to values a double holds exactly (15 digits)"""
    neg = branch(si.term < 0)
    mag = -si.term if neg else si.term
    if branch(mag >= 10 ** 15):
        v = core.eval_int(core.model(), si.term)
        if core.ST.sat(z3.Or(si.term > v + 64, si.term < v - 64)) == z3.unsat:
            v = si.small('float(big int)', 129)    # few values: each of them
        else:
            note_partial('float() of an int with more than 15 digits')
            v = si.conc('float(big int)')
        f = float(v)
        n, d, e = float_shape(f)
        return SymFloat(n, d, e)
    s = core.full(lit(mag, 10))
    digs = [core.ST.toks[c].dig if c in core.ST.toks else int(c) for c in s]
    digs, exp = strip_digits(digs, 0)
    return SymFloat(neg, digs, exp)


class SymDecimal(SymBase):
    """decimal.Decimal with fixed exponent and symbolic digits (default context: 28 digits)"""
    __slots__ = ('neg', 'digs', 'exp')
    PREC = 28

    def __init__(self, neg, digs, exp):
        self.neg = neg
        self.digs = list(digs)
        self.exp = exp

    @property
    def __class__(self):
        return decimal.Decimal

    def real(self):
        v = z3.ToReal(_digits_term(self.digs)) * pow10(self.exp)
        return -v if self.neg else v

    def _lead(self):
        """drops leading zeros of the coefficient"""
        while len(self.digs) > 1 and (self.digs[0] == 0 if isinstance(self.digs[0], int)
                                      else branch(self.digs[0] == 0)):
            self.digs.pop(0)
        return self

    def is_zero(self):
        return not branch(_digits_term(self.digs) != 0)

    def __str__(self):
        return self._str('E')

    def _str(self, echar):
        self._lead()
        ds = [digit_char(d) for d in self.digs]
        sgn = '-' if self.neg else ''
        left = self.exp + len(ds)
        if self.exp <= 0 and left > -6:
            dot = left
        else:
            dot = 1
        if dot <= 0:
            ip, fp = '0', '.' + '0' * (-dot) + ''.join(ds)
        elif dot >= len(ds):
            ip, fp = ''.join(ds) + '0' * (dot - len(ds)), ''
        else:
            ip, fp = ''.join(ds[:dot]), '.' + ''.join(ds[dot:])
        ex = '' if left == dot else f'{echar}{left - dot:+d}'
        return sgn + ip + fp + ex

    __repr__ = __str__

    def __format__(self, spec):
        if spec == '':
            return str(self)
        if spec == 'f':
            self._lead()
            ds = [digit_char(d) for d in self.digs]
            sgn = '-' if self.neg else ''
            if self.exp >= 0:
                z = all(isinstance(d, int) and d == 0 for d in self.digs)
                return sgn + ''.join(ds) + ('' if z else '0' * self.exp)
            if len(ds) <= -self.exp:
                ds = ['0'] * (-self.exp - len(ds) + 1) + ds
            return sgn + ''.join(ds[:self.exp]) + '.' + ''.join(ds[self.exp:])
        if spec in ('e', 'E'):
            self._lead()
            ds = [digit_char(d) for d in self.digs]
            e = self.exp + len(ds) - 1
            return ('-' if self.neg else '') + ds[0] + ('.' + ''.join(ds[1:]) if len(ds) > 1 else '') + \
                f'{spec}{e:+d}'
        if spec in ('g', 'G', 'n'):
            return self._str('e' if spec != 'G' else 'E')
        return format(self.conc('Decimal format ' + spec), spec)

    def conc(self, why='concretized Decimal'):
        note_partial(why)
        s = core.concretize_str(str(self), why)
        return decimal.Decimal(s)

    def is_integral(self):
        if self.exp >= 0:
            return True
        k = -self.exp
        tail = self.digs[-k:] if k < len(self.digs) else self.digs
        for d in tail:
            if isinstance(d, int):
                if d:
                    return False
            elif not branch(d == 0):
                return False
        return True

    def to_integral_value(self, *a, **k):
        if self.exp >= 0:
            return self
        if self.is_integral():
            return SymDecimal(self.neg, self.digs[:self.exp] or [0], 0)
        # round half even; value only used for comparison: over-approximated by rounding either way
        keep = len(self.digs) + self.exp
        if keep < 0:
            return SymDecimal(self.neg, [0], 0)
        out, _ = round_digits(self.digs, keep)
        return SymDecimal(self.neg, out or [0], 0)

    to_integral = to_integral_value
    to_integral_exact = to_integral_value

    def quantize(self, other, *a, **k):
        oexp = other.exp if isinstance(other, SymDecimal) else other.as_tuple().exponent
        self._lead()
        if oexp > self.exp:
            drop = oexp - self.exp
            tail = self.digs[-drop:] if drop < len(self.digs) else self.digs
            exact = all((d == 0) if isinstance(d, int) else branch(d == 0) for d in tail)
            if exact:
                return SymDecimal(self.neg, self.digs[:-drop] or [0], oexp)
            keep = len(self.digs) - drop
            out, _ = round_digits(self.digs, keep) if keep >= 0 else ([0], False)
            return SymDecimal(self.neg, out or [0], oexp)
        digs = self.digs + [0] * (self.exp - oexp)
        if len(digs) > self.PREC:
            raise decimal.InvalidOperation([decimal.InvalidOperation])
        return SymDecimal(self.neg, digs, oexp)

    def normalize(self, *a):
        digs, exp = strip_digits(self.digs, self.exp)
        if not digs:
            return SymDecimal(self.neg, [0], 0)
        if len(digs) > self.PREC:
            return self.conc('normalize rounding').normalize()
        return SymDecimal(self.neg, digs, exp)

    def adjusted(self):
        self._lead()
        return self.exp + len(self.digs) - 1

    def as_tuple(self):
        self._lead()
        return decimal.DecimalTuple(1 if self.neg else 0, tuple(
            SymInt(d) if not isinstance(d, int) else d for d in self.digs), self.exp)

    def is_finite(self):
        return True

    def is_nan(self):
        return False

    def is_infinite(self):
        return False

    def is_signed(self):
        return self.neg

    def copy_abs(self):
        return SymDecimal(False, self.digs, self.exp)

    __abs__ = copy_abs

    def __neg__(self):
        return SymDecimal(not self.neg, self.digs, self.exp)

    def to_int(self):
        if self.exp >= 0:
            t = _digits_term(self.digs) * (10 ** self.exp)
        else:
            keep = len(self.digs) + self.exp
            t = _digits_term(self.digs[:keep]) if keep > 0 else z3.IntVal(0)
        return SymInt(z3.simplify(-t if self.neg else t))

    def __int__(self):
        return int(self.conc('native int() of Decimal'))

    def __float__(self):
        return float(self.conc('native float() of Decimal'))

    def __bool__(self):
        return branch(_digits_term(self.digs) != 0)

    def __hash__(self):
        return hash(self.conc('hash'))

    def __mod__(self, o):
        if o == 1 and type(o) is int:
            if self.is_integral():
                return decimal.Decimal(0)
        return self.conc('Decimal mod') % o

    def _cmp(self, op, o):
        return branch(cmp_term(op, self, o))

    def __eq__(self, o):
        return self._cmp('eq', o) if _numeric(o) else False

    def __ne__(self, o):
        return self._cmp('ne', o) if _numeric(o) else True

    def __lt__(self, o):
        return self._cmp('lt', o)

    def __le__(self, o):
        return self._cmp('le', o)

    def __gt__(self, o):
        return self._cmp('gt', o)

    def __ge__(self, o):
        return self._cmp('ge', o)

    def _arith(self, o, f):
        return f(self.conc('Decimal arithmetic'), o.conc('Decimal arithmetic') if is_sym(o) else o)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._arith(o, lambda a, b: a / b)
