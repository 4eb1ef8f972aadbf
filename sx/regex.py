"""Backtracking regular expression matcher over tokened strings (sre semantics subset)"""
import re
import warnings
from . import core, strs
from .core import has_tok, full, iv_of, iv_norm, iv_not, iv_and

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import re._parser as sre_parse
    import re._constants as sre_c

META = '.^$*+?{}[]\\|()'


class Unsupported(Exception):
    pass


_ASCII_WORD = iv_norm([(48, 57), (65, 90), (95, 95), (97, 122)])
_ASCII_SPACE = iv_of(' \t\n\r\f\v')


def category_iv(cat, flags):
    asc = bool(flags & re.ASCII)
    name = str(cat)
    if 'DIGIT' in name:
        iv = core.DIGITS if asc else strs.class_iv('decimal')
    elif 'SPACE' in name:
        iv = _ASCII_SPACE if asc else strs._SPACE
    elif 'WORD' in name:
        iv = _ASCII_WORD if asc else strs.class_iv('word')
    else:
        raise Unsupported(name)
    return iv_not(iv) if 'NOT' in name else iv


def set_iv(items, flags):
    neg = False
    iv = []
    for op, av in items:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            iv.append((av, av))
        elif op is sre_c.RANGE:
            iv.append(av)
        elif op is sre_c.CATEGORY:
            iv.extend(category_iv(av, flags))
        else:
            raise Unsupported(op)
    r = iv_norm(iv)
    if flags & re.IGNORECASE:
        extra = []
        for lo, hi in r:
            for a, b, d in ((65, 90, 32), (97, 122, -32)):
                l2, h2 = max(lo, a), min(hi, b)
                if l2 <= h2:
                    extra.append((l2 + d, h2 + d))
        r = iv_norm(list(r) + extra)
    return iv_not(r) if neg else r


def lit_iv(code, flags):
    if flags & re.IGNORECASE:
        c = chr(code)
        return iv_of(c.lower() + c.upper())
    return ((code, code),)


class M:
    """Match object"""

    def __init__(self, pat, s, start, end, groups, endpos):
        self.re = pat
        self.string = s
        self._span = {0: (start, end)}
        self._span.update(groups)
        self.pos = 0
        self.endpos = endpos

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            g = self._idx(g)
            if g > self.re.groups:
                raise IndexError('no such group')
            sp = self._span.get(g)
            r.append(None if sp is None else self.string[sp[0]:sp[1]])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(i) if i in self._span else default for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: (self.group(i) if i in self._span else default) for k, i in self.re.groupindex.items()}

    def span(self, g=0):
        return self._span.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def __bool__(self):
        return True

    @property
    def lastindex(self):
        ks = [k for k in self._span if k]
        return max(ks) if ks else None


class SymPattern:
    """Compiled pattern; the pattern text itself may contain (non meta) tokens"""

    def __init__(self, pattern, flags=0):
        if has_tok(pattern):
            pattern = full(pattern)
            out = []
            prev = ''
            for ch in pattern:
                t = strs.tok(ch)
                escaped, prev = prev == '\\', (ch if prev != '\\' else '')
                if t is not None and not escaped:
                    for m in META:
                        if core.branch_char(t, ((ord(m), ord(m)),)):
                            ch = m
                            break
                out.append(ch)
            pattern = core.norm(''.join(out))
        self.pattern = pattern
        real = re.compile(pattern, flags)
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = dict(real.groupindex)
        self.tree = sre_parse.parse(pattern, flags)

    def _run(self, items, i, s, pos, groups, k):
        """matches items[i:] at pos; k(pos, groups) continuation"""
        if i == len(items):
            return k(pos, groups)
        op, av = items[i]
        nxt = lambda p, g: self._run(items, i + 1, s, p, g, k)
        fl = self.flags
        if op is sre_c.LITERAL:
            if pos < len(s) and self._lit(s[pos], av):
                return nxt(pos + 1, groups)
            return None
        if op is sre_c.NOT_LITERAL:
            if pos < len(s) and not self._lit(s[pos], av):
                return nxt(pos + 1, groups)
            return None
        if op is sre_c.ANY:
            if pos < len(s) and (fl & re.DOTALL or not strs.single_eq(s[pos], '\n')):
                return nxt(pos + 1, groups)
            return None
        if op is sre_c.IN:
            if pos < len(s) and strs.in_class(s[pos], set_iv(av, fl)):
                return nxt(pos + 1, groups)
            return None
        if op is sre_c.BRANCH:
            for alt in av[1]:
                r = self._run(list(alt), 0, s, pos, groups, nxt)
                if r is not None:
                    return r
            return None
        if op is sre_c.SUBPATTERN:
            gid, addf, delf, p = av

            def after(p2, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (pos, p2)
                return nxt(p2, g2)
            return self._run(list(p), 0, s, pos, groups, after)
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT, sre_c.POSSESSIVE_REPEAT):
            lo, hi, p = av
            items2 = list(p)
            greedy = op is not sre_c.MIN_REPEAT

            def rep(count, p0, g0):
                def more():
                    if count < hi:
                        def cont(p2, g2):
                            if p2 == p0 and count >= lo:
                                return None
                            return rep(count + 1, p2, g2)
                        return self._run(items2, 0, s, p0, g0, cont)
                    return None
                if count < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(p0, g0)
                r = nxt(p0, g0)
                return r if r is not None else more()
            return rep(0, pos, groups)
        if op is sre_c.AT:
            a = str(av)
            if a in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                ok = pos == 0
                if not ok and a == 'AT_BEGINNING' and fl & re.MULTILINE:
                    ok = strs.single_eq(s[pos - 1], '\n')
            elif a == 'AT_END':
                ok = pos == len(s) or (pos == len(s) - 1 and strs.single_eq(s[pos], '\n'))
                if not ok and fl & re.MULTILINE:
                    ok = strs.single_eq(s[pos], '\n')
            elif a == 'AT_END_STRING':
                ok = pos == len(s)
            elif a in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
                w = category_iv('WORD', fl)
                l = pos > 0 and strs.in_class(s[pos - 1], w)
                r = pos < len(s) and strs.in_class(s[pos], w)
                ok = (l != r) == (a == 'AT_BOUNDARY')
            else:
                raise Unsupported(a)
            return nxt(pos, groups) if ok else None
        if op is sre_c.GROUPREF:
            sp = groups.get(av)
            if sp is None:
                return None
            sub = s[sp[0]:sp[1]]
            if strs.match_at(s, sub, pos):
                return nxt(pos + len(sub), groups)
            return None
        if op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            d, p = av
            if d < 0:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise Unsupported('lookbehind')
                st = pos - w[0]
                r = None if st < 0 else self._run(list(p), 0, s, st, groups, lambda a, b: (a, b))
            else:
                r = self._run(list(p), 0, s, pos, groups, lambda a, b: (a, b))
            if (r is not None) == (op is sre_c.ASSERT):
                return nxt(pos, r[1] if r is not None else groups)
            return None
        if op is sre_c.ATOMIC_GROUP:
            r = self._run(list(av), 0, s, pos, groups, lambda a, b: (a, b))
            return None if r is None else nxt(*r)
        raise Unsupported(op)

    def _lit(self, ch, code):
        if core.TOK_LO <= code <= core.TOK_HI:
            return strs.single_eq(ch, chr(code))
        if not self.flags & re.IGNORECASE:
            return strs.single_eq(ch, chr(code))
        return strs.in_class(ch, lit_iv(code, self.flags))

    def _at(self, s, pos, must_end=False):
        def k(p, g):
            if must_end and p != len(s):
                return None
            return (p, g)
        return self._run(list(self.tree), 0, s, pos, {}, k)

    def _prep(self, s):
        return full(s)

    def match(self, string, pos=0, endpos=None):
        s = self._prep(string)
        r = self._at(s, pos)
        return None if r is None else M(self, s, pos, r[0], r[1], len(s))

    def fullmatch(self, string, pos=0, endpos=None):
        s = self._prep(string)
        r = self._at(s, pos, True)
        return None if r is None else M(self, s, pos, r[0], r[1], len(s))

    def search(self, string, pos=0, endpos=None):
        s = self._prep(string)
        for i in range(pos, len(s) + 1):
            r = self._at(s, i)
            if r is not None:
                return M(self, s, i, r[0], r[1], len(s))
        return None

    def finditer(self, string, *a):
        s = self._prep(string)
        i = 0
        out = []
        while i <= len(s):
            r = self._at(s, i)
            if r is None:
                i += 1
                continue
            out.append(M(self, s, i, r[0], r[1], len(s)))
            i = r[0] if r[0] > i else i + 1
        return iter(out)

    def findall(self, string, *a):
        out = []
        for m in self.finditer(string):
            out.append(m.group(0) if self.groups == 0 else m.group(1) if self.groups == 1 else m.groups(''))
        return out

    def sub(self, repl, string, count=0):
        s = self._prep(string)
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(s[last:m.start()])
            if callable(repl):
                out.append(repl(m))
            else:
                out.append(_expand(repl, m))
            last = m.end()
            n += 1
        out.append(s[last:])
        return ''.join(out)

    def split(self, string, maxsplit=0):
        s = self._prep(string)
        out = []
        last = 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
        out.append(s[last:])
        return out


def _expand(repl, m):
    if '\\' not in repl:
        return repl

    def f(mm):
        g = mm.group(1) or mm.group(2)
        return m.group(int(g) if g.isdigit() else g) or ''
    return re.sub(r'\\(\d+)|\\g<(\w+)>', f, repl)


_cache = {}


def sym_of(pattern):
    """SymPattern for a real re.Pattern"""
    key = (pattern.pattern, pattern.flags)
    if key not in _cache:
        _cache[key] = SymPattern(pattern.pattern, pattern.flags & ~re.UNICODE)
    return _cache[key]


def escape(s):
    s = full(s)
    out = []
    special = {chr(i) for i in b'()[]{}?*+-|^$\\.&~# \t\n\r\v\f'}
    for ch in s:
        t = strs.tok(ch)
        if t is None:
            out.append(re.escape(ch))
        elif core.branch_char(t, iv_of(''.join(special))):
            # keep symbolic: backslash + same character
            out.append('\\' + ch)
        else:
            out.append(ch)
    return ''.join(out)
