"""
Path exploration core: decisions, path condition, tokens.

One execution of a harness follows one path.  A decision whose two outcomes are
both satisfiable (z3) schedules the other outcome for a later re-execution.
Symbolic text is carried by ordinary ``str`` objects in which every symbolic
character is one private-use *token* character (plane 15); the token table below
gives each token its z3 term and the operations that look at characters
(see sx.strs) consult that table.
"""
import re
import time
import z3

TOK_LO = 0xF0000
TOK_HI = 0xFFFFD
TOKRE = re.compile('[\U000F0000-\U000FFFFD]')


class Control(BaseException):
    """Engine control flow; never caught by code under test"""


class PathInfeasible(Control):
    pass


class PathBudget(Control):
    pass


class Halt(Control):
    """Stops the current path after a violation was recorded"""


# ----- interval sets over code points -------------------------------------

def iv_norm(iv):
    out = []
    for lo, hi in sorted(iv):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_not(a):
    out = []
    nxt = 0
    for lo, hi in a:
        if nxt < lo:
            out.append((nxt, lo - 1))
        nxt = hi + 1
    if nxt <= 0x10FFFF:
        out.append((nxt, 0x10FFFF))
    return tuple(out)


def iv_of(chars):
    return iv_norm([(ord(c), ord(c)) for c in chars])


# XML 1.0 Char production, without the plane used for tokens
XML_CHARS = iv_norm([(0x9, 0xA), (0xD, 0xD), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0xEFFFF),
                     (0x100000, 0x10FFFF)])
DIGITS = ((48, 57),)
HEXDIGITS = ((48, 57), (97, 102))
IDENT1 = iv_norm([(65, 90), (97, 122)])
IDENT = iv_norm([(48, 57), (65, 90), (95, 95), (97, 122)])
PRINTABLE = ((0x20, 0x7E),)
SAFE = iv_norm([(48, 57), (65, 90), (97, 122)])


class CharTok:
    __slots__ = ('term', 'dom', 'free', 'dig', 'name')

    def __init__(self, term, dom, free, dig=None, name=None):
        self.term = term      # z3 Int: code point
        self.dom = dom        # interval tuple, over-approximation of possible values
        self.free = free      # True: no relational constraint on term yet
        self.dig = dig        # z3 Int digit value when this is a digit of a number literal
        self.name = name


class LitTok:
    """Digits of a non-negative integer in some base, number of digits not fixed"""
    __slots__ = ('term', 'base', 'upper', 'exp')

    def __init__(self, term, base, upper=False):
        self.term = term
        self.base = base
        self.upper = upper
        self.exp = None       # tokened string once expanded


MAX_DIGITS = {10: 20, 16: 17, 2: 65, 8: 23}


class Stats:
    def __init__(self):
        self.paths = 0
        self.complete = 0
        self.partial = 0
        self.queries = 0
        self.simplified = 0
        self.solver_s = 0.0
        self.checks = 0
        self.discharged = 0
        self.unknown = 0
        self.infeasible = 0
        self.functions = set()
        self.partial_why = {}


class State:
    """Per path state"""

    def __init__(self, prefix, stats, limits):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.solver = None
        self.pc_n = 0
        self.toks = {}
        self.next_tok = TOK_LO
        self.fresh_n = 0
        self.stats = stats
        self.limits = limits
        self.partial = []
        self.inputs = []          # (name, kind, payload)
        self.stdout = None
        self.deadline = limits.get('path_deadline')
        self.memo = {}
        self.files = []
        self.cons = []

    # -- solver ------------------------------------------------------------
    def sol(self):
        if self.solver is None:
            self.solver = z3.SimpleSolver()
            self.solver.set('timeout', self.limits.get('query_ms', 20000))
        return self.solver

    def add(self, c):
        self.cons.append(c)

    def flush(self):
        s = self.sol()
        while self.pc_n < len(self.cons):
            s.add(self.cons[self.pc_n])
            self.pc_n += 1
        return s

    def sat(self, *extra):
        s = self.flush()
        t = time.perf_counter()
        r = s.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        return r


ST: State = None


def set_state(st):
    global ST
    ST = st


def active():
    return ST is not None


def fresh(prefix='t'):
    ST.fresh_n += 1
    return z3.Int(f'{prefix}!{ST.fresh_n}')


def note_partial(why):
    ST.partial.append(why)


def _decide(options):
    """Takes the scheduled decision or the first option, scheduling the rest"""
    st = ST
    i = len(st.trace)
    if i < len(st.prefix):
        d = st.prefix[i]
        st.trace.append(d)
        return d
    if i >= st.limits.get('max_depth', 4000):
        raise PathBudget('depth')
    for alt in options[1:]:
        st.pending.append(tuple(st.trace) + (alt,))
    st.trace.append(options[0])
    return options[0]


def branch(cond) -> bool:
    """Forks on a z3 condition"""
    if cond is True or cond is False:
        return cond
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    st = ST
    i = len(st.trace)
    if i < len(st.prefix):
        d = st.prefix[i]
        st.trace.append(d)
        st.add(cond if d else z3.Not(cond))
        return d
    t = st.sat(cond)
    if t == z3.unsat:
        st.add(z3.Not(cond))
        st.trace.append(False)
        return False
    f = st.sat(z3.Not(cond))
    if f == z3.unsat:
        st.add(cond)
        st.trace.append(True)
        return True
    if t == z3.unknown or f == z3.unknown:
        note_partial('solver unknown at branch')
    d = _decide((True, False))
    st.add(cond if d else z3.Not(cond))
    return d


def multi(conds):
    """Forks over a list of mutually exclusive, exhaustive conditions; returns index"""
    st = ST
    i = len(st.trace)
    if i < len(st.prefix):
        d = st.prefix[i]
        st.trace.append(d)
        st.add(conds[d])
        return d
    feas = []
    for k, c in enumerate(conds):
        c = z3.simplify(c)
        if z3.is_false(c):
            continue
        if z3.is_true(c) or st.sat(c) != z3.unsat:
            feas.append(k)
    if not feas:
        raise PathInfeasible()
    d = _decide(feas)
    st.add(conds[d])
    return d


def choose(n) -> int:
    """n-way free choice (a fresh unconstrained selector)"""
    if n == 1:
        return 0
    return _decide(tuple(range(n)))


def assume(cond):
    if cond is True:
        return
    if cond is False:
        raise PathInfeasible()
    st = ST
    st.add(cond)
    if len(st.trace) >= len(st.prefix):
        if st.sat() == z3.unsat:
            raise PathInfeasible()


def model(*extra):
    if ST.sat(*extra) != z3.sat:
        raise PathInfeasible()
    return ST.solver.model()


def eval_int(m, term) -> int:
    if isinstance(term, int):
        return term
    return m.eval(term, model_completion=True).as_long()


# ----- tokens -----------------------------------------------------------

def new_char(dom, name=None) -> str:
    st = ST
    term = z3.Int(f'c!{st.next_tok - TOK_LO}')
    tok = CharTok(term, dom, True, None, name)
    ch = chr(st.next_tok)
    st.next_tok += 1
    st.toks[ch] = tok
    st.add(iv_cond(term, dom))
    return ch


def term_char(term, dom) -> str:
    """Character with an existing code point term"""
    st = ST
    ch = chr(st.next_tok)
    st.next_tok += 1
    st.toks[ch] = CharTok(term, dom, False)
    return ch


def digit_char(dig, base=10, upper=False) -> str:
    """Character for a digit-valued term (constraint 0 <= dig < base is the caller's)"""
    if isinstance(dig, int):
        return '0123456789abcdef'[dig] if not upper else '0123456789ABCDEF'[dig]
    st = ST
    if base <= 10:
        term, dom = dig + 48, ((48, 47 + base),)
    else:
        a = 65 if upper else 97
        term = z3.If(dig < 10, dig + 48, dig + (a - 10))
        dom = ((48, 57), (a, a + base - 11))
    ch = chr(st.next_tok)
    st.next_tok += 1
    st.toks[ch] = CharTok(term, dom, False, dig)
    return ch


def lit(term, base=10, upper=False) -> str:
    st = ST
    ch = chr(st.next_tok)
    st.next_tok += 1
    st.toks[ch] = LitTok(term, base, upper)
    return ch


def iv_cond(term, iv):
    return z3.Or([z3.And(term >= lo, term <= hi) if lo != hi else term == lo for lo, hi in iv]) \
        if iv else z3.BoolVal(False)


def has_tok(s) -> bool:
    return not s.isascii() and TOKRE.search(s) is not None


def branch_char(tok: CharTok, iv) -> bool:
    """Is the character in the interval set?  Forks."""
    st = ST
    inside = iv_and(tok.dom, iv)
    if not inside:
        return False
    if inside == tok.dom:
        return True
    i = len(st.trace)
    if i < len(st.prefix):
        d = st.prefix[i]
        st.trace.append(d)
    elif tok.free:
        st.stats.simplified += 1
        d = _decide((False, True))
    else:
        c = iv_cond(tok.term, inside)
        t = st.sat(c)
        if t == z3.unsat:
            d = False
            st.trace.append(False)
        elif st.sat(z3.Not(c)) == z3.unsat:
            d = True
            st.trace.append(True)
        else:
            d = _decide((False, True))
    if d:
        tok.dom = inside
        st.add(iv_cond(tok.term, inside))
    else:
        st.add(z3.Not(iv_cond(tok.term, inside)))
        tok.dom = iv_and(tok.dom, iv_not(inside))
    return d


def expand_lit(ch: str) -> str:
    """Fixes the number of digits of a literal token (forks), returns its characters"""
    st = ST
    tok = st.toks[ch]
    if tok.exp is not None:
        return tok.exp
    n = tok.term
    maxd = MAX_DIGITS[tok.base]
    k = 1
    while k < maxd:
        if branch(n < tok.base ** k):
            break
        k += 1
    else:
        if branch(n >= tok.base ** maxd):
            note_partial('integer literal beyond %d digits not expanded' % maxd)
            raise PathBudget('literal digits')
    digs = []
    for _ in range(k):
        d = fresh('d')
        st.add(z3.And(d >= 0, d < tok.base))
        digs.append(d)
    if k > 1:
        st.add(digs[0] >= 1)
    st.add(n == z3.Sum([d * (tok.base ** (k - 1 - i)) for i, d in enumerate(digs)]))
    tok.exp = ''.join(digit_char(d, tok.base, tok.upper) for d in digs)
    return tok.exp


def norm(s: str) -> str:
    """Replaces literal tokens which have been expanded, and characters that are fixed"""
    if not has_tok(s):
        return s
    toks = ST.toks

    def sub(m):
        t = toks.get(m.group(0))
        if t is None:
            return m.group(0)
        if type(t) is LitTok:
            return t.exp if t.exp is not None else m.group(0)
        return m.group(0)
    s = TOKRE.sub(sub, s)

    def sub2(m):
        t = toks.get(m.group(0))
        if type(t) is CharTok and len(t.dom) == 1 and t.dom[0][0] == t.dom[0][1]:
            return chr(t.dom[0][0])
        return m.group(0)
    return TOKRE.sub(sub2, s)


def full(s: str) -> str:
    """Expands every literal token of s"""
    s = norm(s)
    if not has_tok(s):
        return s
    toks = ST.toks

    def sub(m):
        t = toks.get(m.group(0))
        if type(t) is LitTok:
            return expand_lit(m.group(0))
        return m.group(0)
    return norm(TOKRE.sub(sub, s))


def concretize_str(s: str, why) -> str:
    """Fixes every token of s to one model value; the path becomes partial"""
    s = full(s)
    if not has_tok(s):
        return s
    note_partial(why)
    m = model()
    out = []
    for ch in s:
        t = ST.toks.get(ch) if TOK_LO <= ord(ch) <= TOK_HI else None
        if t is None:
            out.append(ch)
            continue
        v = eval_int(m, t.term)
        ST.add(t.term == v)
        t.dom = ((v, v),)
        out.append(chr(v))
    return ''.join(out)


def model_str(m, s: str) -> str:
    """Evaluates a tokened string in a model"""
    out = []
    for ch in s:
        t = ST.toks.get(ch) if TOK_LO <= ord(ch) <= TOK_HI else None
        if t is None:
            out.append(ch)
        elif type(t) is LitTok:
            n = eval_int(m, t.term)
            out.append(digits_of(n, t.base, t.upper))
        else:
            out.append(chr(eval_int(m, t.term)))
    return ''.join(out)


def digits_of(n, base, upper=False):
    if n == 0:
        return '0'
    ds = '0123456789ABCDEF' if upper else '0123456789abcdef'
    out = []
    while n:
        n, r = divmod(n, base)
        out.append(ds[r])
    return ''.join(reversed(out))
