"""
Operations on tokened strings.  Every function forks (core.branch) as needed and
returns ordinary Python values.
"""
import decimal
import unicodedata
import functools
import z3
from . import core
from .core import (has_tok, CharTok, LitTok, branch, branch_char, iv_of, iv_norm, full, norm, TOK_LO, TOK_HI)
from .nums import SymInt, SymFloat, SymDecimal, strip_digits, float_shape


def tok(ch):
    if TOK_LO <= ord(ch) <= TOK_HI:
        return core.ST.toks.get(ch)
    return None


def char_eq_term(a, b):
    """True/False/z3 Bool for equality of two single characters (CharTok or concrete)"""
    if a == b:
        return True
    ta, tb = tok(a), tok(b)
    if ta is None and tb is None:
        return False
    if ta is None:
        ta, tb, a, b = tb, ta, b, a
    if tb is None:
        o = ord(b)
        if not any(lo <= o <= hi for lo, hi in ta.dom):
            return False
        return ta.term == o
    if not core.iv_and(ta.dom, tb.dom):
        return False
    if ta.term.eq(tb.term):
        return True
    if ta.dig is not None and tb.dig is not None:
        return ta.dig == tb.dig
    return ta.term == tb.term


def _unfree(s):
    for ch in s:
        t = tok(ch)
        if type(t) is CharTok:
            t.free = False


def eq_term(a, b):
    """Equality of two strings as True/False/z3 Bool (may fork to expand literals)"""
    if a == b:
        return True
    if not (has_tok(a) or has_tok(b)):
        return False
    a, b = norm(a), norm(b)
    if a == b:
        return True
    # both consist of the same skeleton with literals: compare literal values
    if len(a) == len(b):
        conds = []
        for x, y in zip(a, b):
            if x == y:
                continue
            tx, ty = tok(x), tok(y)
            if type(tx) is LitTok and type(ty) is LitTok and tx.base == ty.base and tx.upper == ty.upper:
                conds.append(tx.term == ty.term)
                continue
            if type(tx) is LitTok or type(ty) is LitTok:
                conds = None
                break
            c = char_eq_term(x, y)
            if c is False:
                conds = False
                break
            if c is not True:
                conds.append(c)
        nlit = sum(1 for ch in a + b if type(tok(ch)) is LitTok)
        if conds is not None and (nlit == 0 or (conds is not False and _lits_aligned(a, b))):
            if conds is False:
                return False
            if not conds:
                return True
            _unfree(a)
            _unfree(b)
            return z3.And(conds) if len(conds) > 1 else conds[0]
        if nlit == 0:
            return False
    elif not any(type(tok(ch)) is LitTok for ch in a + b):
        return False
    # literals meet other text
    fa, fb = full(a), full(b)
    if len(fa) != len(fb):
        return False
    conds = []
    for x, y in zip(fa, fb):
        c = char_eq_term(x, y)
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    _unfree(fa)
    _unfree(fb)
    return z3.And(conds) if conds else True


def _lits_aligned(a, b):
    """A literal against a literal at each literal position and delimiters non-digit: equality is positional"""
    n = len(a)
    for i in range(n):
        la, lb = type(tok(a[i])) is LitTok, type(tok(b[i])) is LitTok
        if la != lb:
            return False
        if la:
            # following character must not be able to be a digit, in either
            if i + 1 < n:
                for s in (a, b):
                    c = s[i + 1]
                    if tok(c) is not None or c in '0123456789abcdefABCDEF':
                        return False
    return True


def single_eq(x, y):
    """Equality of single characters with cheap unary forks"""
    tx, ty = tok(x), tok(y)
    if tx is None and ty is None:
        return x == y
    if x == y:
        return True
    if tx is not None and ty is None:
        return branch_char(tx, ((ord(y), ord(y)),))
    if ty is not None and tx is None:
        return branch_char(ty, ((ord(x), ord(x)),))
    c = char_eq_term(x, y)
    if c is True or c is False:
        return c
    tx.free = ty.free = False
    return branch(c)


def eq(a, b) -> bool:
    if a == b:
        return True
    if not (has_tok(a) or has_tok(b)):
        return False
    c = eq_term(a, b)
    if c is True or c is False:
        return c
    if len(a) == 1 and len(b) == 1:
        return single_eq(norm(a), norm(b))
    return branch(c)


def lt(a, b) -> bool:
    """a < b lexicographically"""
    if not (has_tok(a) or has_tok(b)):
        return a < b
    a, b = full(a), full(b)
    for x, y in zip(a, b):
        if single_eq(x, y):
            continue
        tx, ty = tok(x), tok(y)
        vx = tx.term if tx else ord(x)
        vy = ty.term if ty else ord(y)
        if tx:
            tx.free = False
        if ty:
            ty.free = False
        return branch(vx < vy)
    return len(a) < len(b)


def match_at(s, sub, i) -> bool:
    if i < 0 or i + len(sub) > len(s):
        return False
    for k, ch in enumerate(sub):
        if not single_eq(s[i + k], ch):
            return False
    return True


def _find_multi(s, sub, i):
    """Condition of sub at i as term, for multi-character sub (avoids per char forks)"""
    return match_at(s, sub, i)


def find(s, sub, start=0, end=None, right=False):
    s, sub = full(s), full(sub)
    n = len(s)
    start, end, _ = slice(start, end).indices(n)
    rng = range(start, end - len(sub) + 1)
    if right:
        rng = reversed(rng)
    for i in rng:
        if match_at(s, sub, i):
            return i
    return -1


def _full_if_needed(s):
    return full(s)


# literal-aware fast paths: a literal token is digits of the base; looking for a
# separator which cannot be part of it does not need the digits
_LITCHARS = {10: set('0123456789'), 16: set('0123456789abcdefABCDEF'), 2: set('01'), 8: set('01234567')}


def _skip_lits(s, chars):
    """True when no literal token in s can contain any of chars"""
    for ch in s:
        t = tok(ch)
        if type(t) is LitTok:
            for c in chars:
                if tok(c) is not None or c in _LITCHARS[t.base]:
                    return False
    return True


def lit_safe(s, *subs):
    """Normalizes s, expanding literals only if some sub may occur inside one"""
    s = norm(s)
    if not any(type(tok(ch)) is LitTok for ch in s):
        return s
    for sub in subs:
        if not _skip_lits(s, sub):
            return full(s)
    return s


def find_ns(s, sub, start=0, right=False):
    """find on an already prepared string (literals treated as opaque non matching)"""
    rng = range(start, len(s) - len(sub) + 1)
    if right:
        rng = reversed(rng)
    for i in rng:
        if _match_opaque(s, sub, i):
            return i
    return -1


def _match_opaque(s, sub, i):
    if i + len(sub) > len(s):
        return False
    for k, ch in enumerate(sub):
        c = s[i + k]
        if type(tok(c)) is LitTok:
            if c != ch:
                return False
            continue
        if not single_eq(c, ch):
            return False
    return True


def contains(s, sub):
    if sub == '':
        return True
    sub = full(sub)
    if not has_tok(s) and not has_tok(sub):
        return sub in s
    s = lit_safe(s, sub)
    return find_ns(s, sub) >= 0


def replace(s, old, new, count=-1):
    old = full(old)
    if old == '':
        return full(s).replace(old, new, count)
    s = lit_safe(s, old)
    if not has_tok(s) and not has_tok(old):
        return s.replace(old, new, count)
    out = []
    i = 0
    done = 0
    while i < len(s):
        if (count < 0 or done < count) and _match_opaque(s, old, i):
            out.append(new)
            i += len(old)
            done += 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def split(s, sep=None, maxsplit=-1):
    if sep is None:
        s = lit_safe(norm(s), ' ')
        out, cur = [], []
        i, n = 0, len(s)
        while i < n:
            if maxsplit >= 0 and len(out) >= maxsplit and not cur:
                while i < n and is_space(s[i]):
                    i += 1
                if i < n:
                    out.append(rstrip(s[i:]))
                return out
            if is_space(s[i]):
                if cur:
                    out.append(''.join(cur))
                    cur = []
            else:
                cur.append(s[i])
            i += 1
        if cur:
            out.append(''.join(cur))
        return out
    sep = full(sep)
    if sep == '':
        raise ValueError('empty separator')
    s = lit_safe(s, sep)
    out = []
    cur = 0
    while maxsplit < 0 or len(out) < maxsplit:
        i = find_ns(s, sep, cur)
        if i < 0:
            break
        out.append(s[cur:i])
        cur = i + len(sep)
    out.append(s[cur:])
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if sep is None:
        if maxsplit < 0:
            return split(s)
        return core.concretize_str(s, 'rsplit').rsplit(None, maxsplit)
    sep = full(sep)
    s = lit_safe(s, sep)
    out = []
    end = len(s)
    while maxsplit < 0 or len(out) < maxsplit:
        i = find_ns(s[:end], sep, 0, right=True)
        if i < 0:
            break
        out.append(s[i + len(sep):end])
        end = i
    out.append(s[:end])
    out.reverse()
    return out


def partition(s, sep, right=False):
    sep = full(sep)
    s = lit_safe(s, sep)
    i = find_ns(s, sep, 0, right)
    if i < 0:
        return ('', '', s) if right else (s, '', '')
    return s[:i], sep, s[i + len(sep):]


# ----- character classes -----------------------------------------------

@functools.lru_cache(maxsize=None)
def class_iv(name):
    """Interval set of code points c with chr(c).<name>() true"""
    out = []
    start = None
    if name == 'decimal':
        def f(c):
            return unicodedata.category(c) == 'Nd'
    elif name == 'word':
        def f(c):
            return c.isalnum() or c == '_'
    elif name == 'idstart':
        def f(c):
            return c.isidentifier()
    elif name == 'idcont':
        def f(c):
            return ('a' + c).isidentifier()
    elif name == 'linebreak':
        return iv_of('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')
    else:
        meth = getattr(str, name)

        def f(c):
            return meth(c)
    for cp in range(0x110000):
        if TOK_LO <= cp <= TOK_HI:
            v = False
        else:
            v = f(chr(cp))
        if v and start is None:
            start = cp
        elif not v and start is not None:
            out.append((start, cp - 1))
            start = None
    if start is not None:
        out.append((start, 0x10FFFF))
    return tuple(out)


_SPACE = iv_of('\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007'
               '\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')


def in_class(ch, iv):
    t = tok(ch)
    if t is None:
        o = ord(ch)
        return any(lo <= o <= hi for lo, hi in iv)
    return branch_char(t, iv)


def is_space(ch):
    t = tok(ch)
    if t is None:
        return ch.isspace()
    if type(t) is LitTok:
        return False
    return branch_char(t, _SPACE)


def lstrip(s, chars=None):
    s = norm(s)
    i = 0
    if chars is None:
        while i < len(s) and is_space(s[i]):
            i += 1
        return s[i:]
    s = lit_safe(s, chars)
    chars = full(chars)
    while i < len(s) and type(tok(s[i])) is not LitTok and any(single_eq(s[i], c) for c in chars):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    s = norm(s)
    n = len(s)
    if chars is None:
        while n and is_space(s[n - 1]):
            n -= 1
        return s[:n]
    s = lit_safe(s, chars)
    n = len(s)
    chars = full(chars)
    while n and type(tok(s[n - 1])) is not LitTok and any(single_eq(s[n - 1], c) for c in chars):
        n -= 1
    return s[:n]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def startswith(s, pre, start=0, end=None):
    if isinstance(pre, tuple):
        return any(startswith(s, p, start, end) for p in pre)
    if start != 0 or end is not None:
        s = full(s)[start:end]
    pre = full(pre)
    s = norm(s)
    if len(pre) == 0:
        return True
    if any(type(tok(c)) is LitTok for c in s[:len(pre)]):
        if not (s and type(tok(s[0])) is LitTok and tok(pre[0]) is None
                and pre[0] not in _LITCHARS[tok(s[0]).base]):
            s = full(s)
        else:
            return False
    return match_at(s, pre, 0)


def endswith(s, suf, start=0, end=None):
    if isinstance(suf, tuple):
        return any(endswith(s, p, start, end) for p in suf)
    if start != 0 or end is not None:
        s = full(s)[start:end]
    suf = full(suf)
    s = norm(s)
    if len(suf) == 0:
        return True
    if any(type(tok(c)) is LitTok for c in s[-len(suf):]):
        t = tok(s[-1])
        if type(t) is LitTok and tok(suf[-1]) is None and suf[-1] not in _LITCHARS[t.base]:
            return False
        s = full(s)
    return match_at(s, suf, len(s) - len(suf))


def all_class(s, name):
    s = full(s)
    if not s:
        return False
    iv = class_iv(name)
    return all(in_class(ch, iv) for ch in s)


def isidentifier(s):
    s = full(s)
    return bool(s) and in_class(s[0], class_iv('idstart')) and all(in_class(c, class_iv('idcont')) for c in s[1:])


_UP = ((65, 90),)
_LOW = ((97, 122),)
_ASCII = ((0, 127),)


def case_map(s, name):
    """lower/upper etc. exact on ASCII; other characters are concretized"""
    s = norm(s)
    out = []
    for ch in s:
        t = tok(ch)
        if t is None:
            out.append(getattr(ch, name)())
            continue
        if type(t) is LitTok:
            if t.base <= 10 or t.upper == (name == 'upper'):
                out.append(ch)
            else:
                out.append(core.lit(t.term, t.base, name == 'upper'))
            continue
        if not branch_char(t, _ASCII):
            out.append(getattr(core.concretize_str(ch, 'case mapping of a non-ASCII character'), name)())
            continue
        if name in ('lower', 'casefold'):
            if branch_char(t, _UP):
                out.append(core.term_char(t.term + 32, tuple((lo + 32, hi + 32) for lo, hi in t.dom)))
                t.free = False
            else:
                out.append(ch)
        elif name == 'upper':
            if branch_char(t, _LOW):
                out.append(core.term_char(t.term - 32, tuple((lo - 32, hi - 32) for lo, hi in t.dom)))
                t.free = False
            else:
                out.append(ch)
    return ''.join(out)


def capitalize(s):
    s = full(s)
    return case_map(s[:1], 'upper') + case_map(s[1:], 'lower')


def splitlines(s, keepends=False):
    s = norm(s)
    iv = class_iv('linebreak')
    out = []
    cur = []
    i = 0
    while i < len(s):
        ch = s[i]
        if type(tok(ch)) is not LitTok and in_class(ch, iv):
            end = ch
            if i + 1 < len(s) and single_eq(ch, '\r') and single_eq(s[i + 1], '\n'):
                end = s[i:i + 2]
                i += 1
            out.append(''.join(cur) + (end if keepends else ''))
            cur = []
        else:
            cur.append(ch)
        i += 1
    if cur:
        out.append(''.join(cur))
    return out


# ----- numbers from text ---------------------------------------------------

def _digit_of(ch, base):
    """Digit value of ch in base: int, z3 term, or None.  Forks."""
    t = tok(ch)
    if t is None:
        try:
            return int(ch, base) if base > 10 or ch.isdecimal() else None
        except ValueError:
            return None
    if t.dig is not None and t.dom[0][1] <= 57 and base >= 10:
        return t.dig
    if branch_char(t, ((48, 47 + min(base, 10)),)):
        return t.dig if t.dig is not None and base <= 10 else t.term - 48
    if base < 10 and branch_char(t, ((48 + base, 57),)):
        return None
    if base > 10:
        if branch_char(t, ((97, 96 + base - 10),)):
            return t.term - 87
        if branch_char(t, ((65, 64 + base - 10),)):
            return t.term - 55
    if branch_char(t, class_iv('decimal')):
        v = core.concretize_str(ch, 'non-ASCII decimal digit')
        try:
            return int(v, base)
        except ValueError:
            return None
    return None


def is_ch(ch, chars):
    t = tok(ch)
    if t is None:
        return ch in chars
    if type(t) is LitTok:
        return False
    return branch_char(t, iv_of(chars))


def parse_int(s, base=10):
    """int(s, base) on a tokened string"""
    if isinstance(s, (bytes, bytearray)):
        s = s.decode('utf-8')
    orig = s
    s = norm(s)
    s = strip(s)

    def bad():
        raise ValueError(f"invalid literal for int() with base {base}: {orig!r}")
    neg = False
    if s and is_ch(s[0], '+-'):
        neg = is_ch(s[0], '-')
        s = s[1:]
    if not s:
        bad()
    b = base
    prefixed = False
    if type(tok(s[0])) is not LitTok and len(s) >= 2 and b in (0, 2, 8, 16) and is_ch(s[0], '0') and \
            type(tok(s[1])) is not LitTok:
        for pb, chars in ((16, 'xX'), (2, 'bB'), (8, 'oO')):
            if b in (0, pb) and is_ch(s[1], chars):
                b = pb
                s = s[2:]
                prefixed = True
                break
    if prefixed and s and type(tok(s[0])) is not LitTok and is_ch(s[0], '_'):
        s = s[1:]
    if b == 0:
        b = 10
        zero_rule = True
    else:
        zero_rule = False
    if not s:
        bad()
    if len(s) == 1 and type(tok(s)) is LitTok:
        t = tok(s)
        if t.base == b or (t.base < b and branch(t.term < t.base)):
            return SymInt(z3.simplify(-t.term) if neg else t.term)
    s = full(s)
    digs = []
    last_us = True
    for ch in s:
        d = _digit_of(ch, b)
        if d is None:
            if not last_us and is_ch(ch, '_'):
                last_us = True
                continue
            bad()
        digs.append(d)
        last_us = False
    if last_us:
        bad()
    if zero_rule and len(digs) > 1:
        d0 = digs[0]
        if (d0 == 0) if isinstance(d0, int) else branch(d0 == 0):
            for d in digs[1:]:
                if not ((d == 0) if isinstance(d, int) else branch(d == 0)):
                    bad()
    n = len(digs)
    if all(isinstance(d, int) for d in digs):
        v = sum(d * b ** (n - 1 - i) for i, d in enumerate(digs))
        return -v if neg else v
    v = z3.Sum([z3.IntVal(0)] + [(d if not isinstance(d, int) else z3.IntVal(d)) * (b ** (n - 1 - i))
                                 for i, d in enumerate(digs)])
    _unfree(s)
    return SymInt(-v if neg else v)


def _parse_decimal_text(s):
    """(neg, digs, exp) of a decimal literal or None; or ('inf'|'nan', neg)"""
    s = full(s)
    neg = False
    if s and is_ch(s[0], '+-'):
        neg = is_ch(s[0], '-')
        s = s[1:]
    if not s:
        return None
    low = [c for c in s]
    for word, kind in (('infinity', 'inf'), ('inf', 'inf'), ('nan', 'nan')):
        if len(low) == len(word) and all(is_ch(c, w + w.upper()) for c, w in zip(low, word)):
            return (kind, neg)
    digs = []
    exp = 0
    i = 0
    seen = False
    last_digit = False
    while i < len(s):
        d = _digit_of(s[i], 10)
        if d is None:
            if last_digit and i + 1 < len(s) and is_ch(s[i], '_') and _digit_of(s[i + 1], 10) is not None:
                i += 1
                continue
            break
        digs.append(d)
        seen = last_digit = True
        i += 1
    if i < len(s) and is_ch(s[i], '.'):
        i += 1
        last_digit = False
        while i < len(s):
            d = _digit_of(s[i], 10)
            if d is None:
                if last_digit and i + 1 < len(s) and is_ch(s[i], '_') and _digit_of(s[i + 1], 10) is not None:
                    i += 1
                    continue
                break
            digs.append(d)
            exp -= 1
            seen = last_digit = True
            i += 1
    if not seen:
        return None
    if i < len(s) and is_ch(s[i], 'eE'):
        i += 1
        eneg = False
        if i < len(s) and is_ch(s[i], '+-'):
            eneg = is_ch(s[i], '-')
            i += 1
        if i >= len(s):
            return None
        ev = 0
        while i < len(s):
            d = _digit_of(s[i], 10)
            if d is None:
                return None
            if not isinstance(d, int):
                for k in range(10):
                    if branch(d == k):
                        d = k
                        break
                else:
                    raise core.PathInfeasible()
            ev = ev * 10 + d
            i += 1
        if ev > 400:
            core.note_partial('exponent beyond 400')
            ev = 400
        exp += -ev if eneg else ev
    if i != len(s):
        return None
    _unfree(s)
    return (neg, digs, exp)


def _norm_digit(d):
    return d


def parse_float(s):
    if isinstance(s, (bytes, bytearray)):
        s = s.decode('utf-8')
    s = strip(s)
    t = tok(s) if len(s) == 1 else (tok(s[1]) if len(s) == 2 and s[0] == '-' else None)
    if type(t) is LitTok and t.base == 10:
        v = SymInt(t.term)
        v = -v if len(s) == 2 else v
        return v.to_float()
    r = _parse_decimal_text(s)
    if r is None:
        raise ValueError(f"could not convert string to float: {s!r}")
    if r[0] in ('inf', 'nan'):
        return float(('-' if r[1] else '') + r[0])
    neg, digs, exp = r
    digs, exp = strip_digits(digs, exp)
    if all(isinstance(d, int) for d in digs):
        txt = ''.join(map(str, digs)) or '0'
        return float(f"{'-' if neg else ''}{txt}e{exp}")
    if digs and len(digs) + exp > 309:
        return float('-inf' if neg else 'inf')
    return SymFloat(neg, digs, exp)


def parse_decimal(s):
    s = strip(s)
    r = _parse_decimal_text(s)
    if r is None:
        raise decimal.InvalidOperation([decimal.ConversionSyntax])
    if r[0] in ('inf', 'nan'):
        return decimal.Decimal(('-' if r[1] else '') + r[0])
    neg, digs, exp = r
    if all(isinstance(d, int) for d in digs):
        return decimal.Decimal((int(neg), tuple(digs), exp))
    return SymDecimal(neg, digs, exp)


def float_to_decimal(x):
    """Decimal(float): exact binary value; approximated by the shortest digits (bounded)"""
    x.shape()
    if not x.digs or x.exp >= 0 or len(x.digs) <= 0:
        return SymDecimal(x.neg, (x.digs or [0]) + [0] * max(x.exp, 0), min(x.exp, 0) if x.exp < 0 else 0)
    return decimal.Decimal(x.conc('Decimal(float) exact binary expansion'))
