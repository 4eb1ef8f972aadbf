"""
Hooks called by instrumented code: calls, comparisons, subscripts, dict/set displays.
Concrete operands take the native path; operands with symbolic content go to the
models below; an operation without a model fixes its symbolic operands to one solver
value (the path is then counted as partial).
"""
import builtins
import decimal
import enum
import io
import math
import operator
import os
import posixpath
import re
import sys
import types
from . import core, strs, nums, regex
from .core import has_tok, branch
from .nums import SymInt, SymFloat, SymDecimal, SymBase

SYM = (SymInt, SymFloat, SymDecimal)
FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
CMethodType = type(re.compile("").fullmatch)
SymPattern = regex.SymPattern
StrSub = str

INSTR_PREFIXES = ('autosar', 'cfile', 'harness', 'sx_stdlib_')


def is_symv(x):
    return type(x) in SYM


def tokened(x):
    return isinstance(x, str) and not x.isascii() and core.TOKRE.search(x) is not None


def symbolic(x, depth=2):
    t = type(x)
    if t is str:
        return not x.isascii() and core.TOKRE.search(x) is not None
    if t in SYM or t is SymPattern:
        return True
    if depth and t in (list, tuple, set, frozenset):
        return any(symbolic(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(symbolic(k, 0) or symbolic(v, depth - 1) for k, v in x.items())
    if t in (bytes, bytearray):
        return bool(_BTOK.search(x))
    return False


_BTOK = re.compile(b'[\xf3][\xb0-\xbf][\x80-\xbf][\x80-\xbf]')


def concretize(x, why, depth=3):
    t = type(x)
    if t is str:
        return core.concretize_str(x, why)
    if t in SYM:
        return x.conc(why)
    if depth and t in (list, tuple, set, frozenset):
        return t(concretize(y, why, depth - 1) for y in x)
    if depth and t is dict:
        return {concretize(k, why, 0): concretize(v, why, depth - 1) for k, v in x.items()}
    if t is bytes:
        return core.concretize_str(x.decode('utf-8'), why).encode('utf-8')
    return x


# ---------------------------------------------------------------- comparison

_PRIM = (str, int, float, bool, bytes, type(None))


def deep_eq(a, b) -> bool:
    """a == b with symbolic content, forks"""
    if a is b and type(a) is not float:
        return True
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return strs.eq(a, b)
    if ta in (list, tuple) and tb is ta:
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if ta is dict and tb is dict:
        if not (symbolic(a) or symbolic(b)):
            return a == b
        if len(a) != len(b):
            return False
        for k, v in a.items():
            k2 = dict_key(b, k)
            if k2 not in b or not deep_eq(v, b[k2]):
                return False
        return True
    if ta in (set, frozenset) and tb in (set, frozenset):
        if not (symbolic(a) or symbolic(b)):
            return a == b
        return len(a) == len(b) and all(seq_contains(b, x) for x in a)
    return bool(a == b)


def seq_contains(seq, x):
    for y in seq:
        if y is x or deep_eq(y, x):
            return True
    return False


def _keys_symbolic(d):
    for k in d:
        if type(k) is str:
            if not k.isascii() and core.TOKRE.search(k):
                return True
        elif type(k) in SYM:
            return True
        elif type(k) is tuple and symbolic(k):
            return True
    return False


def dict_key(d, k):
    """The key of d (dict or set) equal to k, or k itself when there is none.  Forks."""
    tk = type(k)
    if tk in SYM:
        for k2 in d:
            if isinstance(k2, (int, float)) and k == k2:
                return k2
        return _AbsentKey if not isinstance(d, dict) else _absent(k)
    try:
        if k in d:
            return k
    except TypeError:
        raise
    if tk is str:
        if has_tok(k) or _keys_symbolic(d):
            for k2 in list(d):
                if type(k2) is str and strs.eq(k, k2):
                    return k2
                if isinstance(k2, str) and type(k2) is not str and strs.eq(k, str.__str__(k2)):
                    return k2
        return k
    if tk is tuple and (symbolic(k) or _keys_symbolic(d)):
        for k2 in list(d):
            if type(k2) is tuple and deep_eq(k, k2):
                return k2
    if tk in (int, float, bool) and _keys_symbolic(d):
        for k2 in list(d):
            if type(k2) in SYM and k2 == k:
                return k2
    return k


_AbsentKey = object()


def _absent(k):
    return _AbsentKey


def needs_key(d, k):
    tk = type(k)
    if tk is str:
        if not k.isascii() and core.TOKRE.search(k):
            return True
    elif tk in SYM:
        return True
    elif tk is tuple and symbolic(k):
        return True
    return core.ST is not None and len(d) < 4000 and _keys_symbolic(d)


_CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt,
        '>=': operator.ge}


def hook_cmp(op, a, b):
    if op == 'in':
        return hook_in(a, b)
    if op == 'not in':
        return not hook_in(a, b)
    if core.ST is None:
        return _CMP[op](a, b)
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        if a.isascii() and b.isascii() or not (has_tok(a) or has_tok(b)):
            return _CMP[op](a, b)
        if op == '==':
            return strs.eq(a, b)
        if op == '!=':
            return not strs.eq(a, b)
        if op == '<':
            return strs.lt(a, b)
        if op == '>':
            return strs.lt(b, a)
        if op == '<=':
            return not strs.lt(b, a)
        return not strs.lt(a, b)
    if ta in (list, tuple, dict, set, frozenset) and tb in (list, tuple, dict, set, frozenset):
        if symbolic(a) or symbolic(b):
            if op == '==':
                return deep_eq(a, b)
            if op == '!=':
                return not deep_eq(a, b)
            if ta in (list, tuple) and ta is tb:
                return _seq_cmp(op, a, b)
    return _CMP[op](a, b)


def _seq_cmp(op, a, b):
    for x, y in zip(a, b):
        if deep_eq(x, y):
            continue
        return hook_cmp(op[0], x, y)
    return _CMP[op](len(a), len(b))


def hook_in(x, c):
    if core.ST is None:
        return x in c
    tc = type(c)
    if tc is str:
        if type(x) is str and (has_tok(x) or has_tok(c)):
            return strs.contains(c, x)
        return x in c
    if tc in (dict, set, frozenset) or isinstance(c, (dict, set, frozenset, type({}.keys()))):
        if needs_key(c, x):
            k = dict_key(c, x)
            return k is not _AbsentKey and k in c
        return x in c
    if tc in (list, tuple, type({}.values())):
        if symbolic(x) or symbolic(c):
            return seq_contains(c, x)
        return x in c
    if isinstance(c, enum.EnumMeta) and symbolic(x):
        return any(deep_eq(m.value, x) for m in c)
    return x in c


def hook_getitem(o, k):
    if core.ST is None:
        return o[k]
    to = type(o)
    if to is dict or isinstance(o, dict):
        if needs_key(o, k):
            k2 = dict_key(o, k)
            if k2 is _AbsentKey:
                raise KeyError(k)
            return o[k2]
        return o[k]
    if to is str:
        if has_tok(o):
            if type(k) is slice and _trivial_slice(o, k):
                return o[k]
            return core.full(o)[k]
        if type(k) is SymInt:
            return o[k]
        return o[k]
    if type(k) is SymInt and to in (list, tuple):
        return list_index(o, k)
    if isinstance(o, enum.EnumMeta) and type(k) is str and has_tok(k):
        for name, m in o.__members__.items():
            if strs.eq(name, k):
                return m
        raise KeyError(k)
    return o[k]


def list_index(o, k):
    n = len(o)
    i = k
    if branch(k.term < 0):
        i = k + n
    for j in range(n):
        if branch(i.term == j):
            return o[j]
    raise IndexError(f'{type(o).__name__} index out of range')


def _trivial_slice(o, k):
    if not any(type(strs.tok(c)) is core.LitTok for c in o if ord(c) >= core.TOK_LO):
        return True
    # prefix removal on plain leading characters
    if k.step is None and k.stop is None and type(k.start) is int and k.start >= 0:
        return not any(type(strs.tok(c)) is core.LitTok for c in o[:k.start])
    return False


def hook_setitem(o, k, v):
    if core.ST is not None and isinstance(o, dict) and needs_key(o, k):
        k2 = dict_key(o, k)
        if k2 is _AbsentKey:
            k2 = k.conc('symbolic dict key')
        k = k2
    o[k] = v


def hook_delitem(o, k):
    if core.ST is not None and isinstance(o, dict) and needs_key(o, k):
        k2 = dict_key(o, k)
        if k2 is _AbsentKey:
            raise KeyError(k)
        k = k2
    del o[k]


def hook_mkdict(d):
    """After a dict/set display or comprehension: merges symbolically equal keys"""
    if core.ST is None or len(d) < 2 or not _keys_symbolic(d):
        return d
    if isinstance(d, dict):
        r = {}
        for k, v in d.items():
            hook_setitem(r, k, v)
        return r
    r = set()
    for k in d:
        r.add(dict_key(r, k))
    return r


def hook_mod(a, b):
    if core.ST is not None and type(a) is str:
        if has_tok(a) or symbolic(b):
            return str_percent(a, b)
    return a % b


_PCT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d*)(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def str_percent(fmt, args):
    out = []
    last = 0
    if not isinstance(args, (tuple, dict)):
        args = (args,)
    it = iter(args) if isinstance(args, tuple) else None
    n = 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[last:m.start()])
        last = m.end()
        key, flags, width, prec, typ = m.groups()
        if typ == '%':
            out.append('%')
            continue
        v = args[key] if key else next(it)
        n += 1
        if not symbolic(v) and not (isinstance(v, object) and typ in 'sr' and type(v) not in _PRIM):
            out.append(m.group(0).replace(f'({key})', '') % (v,))
            continue
        if typ == 's':
            t = hook_call(str, v)
        elif typ == 'r':
            t = repr(v)
        elif typ in 'diu':
            t = format(v.to_int() if type(v) in (SymFloat, SymDecimal) else v, 'd')
        elif typ in 'xXo':
            t = format(v, ('#' if '#' in flags else '') + typ)
        elif typ in 'eEfFgG':
            x = v.to_float() if type(v) is SymInt else v
            t = format(x, ('.' + prec if prec is not None else '') + typ)
        else:
            t = ('%' + typ) % concretize(v, '% formatting')
        if width or '+' in flags:
            t = nums.format_pad(core.full(t), ('<' if '-' in flags else '>') + (width or ''), False)
        out.append(t)
    out.append(fmt[last:])
    return ''.join(out)


# --------------------------------------------------------------------- calls

_FOREIGN = {}


def _instrumented_copy(f):
    """An instrumented twin of a pure Python library function"""
    mod = sys.modules.get(f.__module__)
    if mod is None or f.__module__.startswith('sx_stdlib_'):
        return None
    name = f.__module__
    twin = _FOREIGN.get(name)
    if twin is None:
        from . import instr
        twin = instr.instrument_library(name)
        _FOREIGN[name] = twin or False
    if not twin:
        return None
    o = twin
    for part in f.__qualname__.split('.'):
        o = getattr(o, part, None)
        if o is None:
            return None
    return o


_NO_TWIN = ('sx.', 'z3', 'enum', 'abc', 'typing', 'collections', 'contextlib', 'lxml', 'importlib', 'io', 'codecs',
            'dataclasses', 'functools', 'copy', 'os', 'tempfile', 'shutil', 'pathlib', 'tomllib', 'weakref')


def hook_call(f, /, *args, **kw):
    st = core.ST
    if st is None:
        return f(*args, **kw)
    tf = type(f)
    if tf is MethodType:
        if type(f.__func__) is FunctionType:
            return f(*args, **kw)
    if tf is FunctionType:
        mod = f.__module__ or ''
        if mod.startswith(INSTR_PREFIXES):
            return f(*args, **kw)
        m = FUNC_MODELS.get((mod, f.__name__))
        if m is not None:
            r = m(f, args, kw)
            if r is not NotImplemented:
                return r
        if not any(symbolic(a) for a in args) and not any(symbolic(a) for a in kw.values()):
            return f(*args, **kw)
        if mod.startswith(_NO_TWIN):
            return f(*args, **kw)
        twin = _instrumented_copy(f)
        if twin is not None:
            return twin(*args, **kw)
        return f(*args, **kw)
    if tf is type or isinstance(f, type):
        m = CLASS_MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        if tf is enum.EnumType and args and symbolic(args[0]) and len(args) == 1 and not kw:
            for mem in f:
                if deep_eq(mem.value, args[0]):
                    return mem
            raise ValueError(f'not a valid {f.__qualname__}')
        return f(*args, **kw)
    if tf is BuiltinType or tf is CMethodType:
        self = f.__self__
        ts = type(self)
        name = f.__name__
        if ts is str:
            return call_str(f, self, name, args, kw)
        if name in LXML_FUNCS and (getattr(f, '__module__', None) == 'lxml.etree' or ts.__module__ == 'lxml.etree'):
            return LXML_FUNCS[name](f, args, kw)
        if ts is types.ModuleType or self is None:
            m = FUNC_MODELS.get((self.__name__ if self is not None else f.__module__, name))
            if m is not None:
                r = m(f, args, kw)
                if r is not NotImplemented:
                    return r
            if any(symbolic(a) for a in args) or any(symbolic(a) for a in kw.values()):
                if name in _TRANSPARENT_FUNCS:
                    return f(*args, **kw)
                why = f'unmodelled builtin {getattr(self, "__name__", "")}.{name}'
                return f(*[concretize(a, why) for a in args], **{k: concretize(v, why) for k, v in kw.items()})
            return f(*args, **kw)
        if isinstance(self, dict):
            return call_dict(f, self, name, args, kw)
        if isinstance(self, (set, frozenset)):
            return call_set(f, self, name, args, kw)
        if isinstance(self, (list, tuple)):
            return call_list(f, self, name, args, kw)
        if isinstance(self, re.Pattern):
            subj = args[1] if name in ('sub', 'subn') and len(args) > 1 else args[0] if args else kw.get('string', '')
            if tokened(subj) or any(tokened(a) for a in args):
                return _sym_pattern(lambda p: getattr(p, name)(*args, **kw), self, name, args, kw)
            return f(*args, **kw)
        m = TYPE_MODELS.get((ts, name))
        if m is not None:
            return m(f, args, kw)
        if isinstance(self, type):
            m = FUNC_MODELS.get((self.__module__ + '.' + self.__qualname__, name))
            if m is not None:
                r = m(f, args, kw)
                if r is not NotImplemented:
                    return r
        return f(*args, **kw)
    if tf is types.MethodDescriptorType:
        if f.__objclass__ is str and args:
            return call_str(getattr(args[0], f.__name__), args[0], f.__name__, args[1:], kw)
    n = getattr(f, '__name__', None)
    if n in LXML_FUNCS and getattr(f, '__module__', '') in ('lxml.etree', None):
        return LXML_FUNCS[n](f, args, kw)
    if tf.__module__.startswith(('lxml', '_cython')) or tf.__name__ == 'cython_function_or_method':
        if n in LXML_FUNCS:
            return LXML_FUNCS[n](f, args, kw)
    return f(*args, **kw)


def _sym_pattern(fn, real, name, args, kw):
    try:
        return fn(regex.sym_of(real))
    except regex.Unsupported as e:
        why = f'regex feature {e}'
        return getattr(real, name)(*[concretize(a, why) for a in args], **kw)


# str methods -----------------------------------------------------------------

def _str_join(f, self, args, kw):
    return f(*args, **kw)


def call_str(f, self, name, args, kw):
    if name == 'join':
        return f(*args, **kw)
    if not has_tok(self) and not any(symbolic(a) for a in args) and not (kw and symbolic(kw)):
        return f(*args, **kw)
    if name == 'format':
        return f(*args, **kw)
    h = STR.get(name)
    if h is not None:
        args = tuple(a.__index__() if type(a) is SymInt else a for a in args)
        return h(self, *args, **kw)
    if name.startswith('is') and name not in ('isidentifier', 'isupper', 'islower', 'istitle'):
        return strs.all_class(self, name)
    why = f'unmodelled str.{name}'
    return getattr(concretize(self, why), name)(*[concretize(a, why) for a in args],
                                                **{k: concretize(v, why) for k, v in kw.items()})


def _s_index(s, *a):
    r = strs.find(s, *a)
    if r < 0:
        raise ValueError('substring not found')
    return r


def _s_count(s, sub):
    if sub == '':
        return len(core.full(s)) + 1
    return len(strs.split(s, sub)) - 1


def _s_isupper(s):
    s = core.full(s)
    up, lo = strs.class_iv('isupper'), strs.class_iv('islower')
    any_up = False
    for c in s:
        if strs.in_class(c, lo):
            return False
        if strs.in_class(c, up):
            any_up = True
    return any_up


def _s_islower(s):
    s = core.full(s)
    up, lo = strs.class_iv('isupper'), strs.class_iv('islower')
    any_lo = False
    for c in s:
        if strs.in_class(c, up):
            return False
        if strs.in_class(c, lo):
            any_lo = True
    return any_lo


def _s_encode(s, encoding='utf-8', errors='strict'):
    e = encoding.lower().replace('_', '-')
    if e in ('utf-8', 'utf8'):
        return s.encode('utf-8')
    if e in ('ascii', 'us-ascii'):
        for c in core.full(s):
            if not strs.in_class(c, ((0, 127),)):
                if errors == 'strict':
                    raise UnicodeEncodeError('ascii', 'x', 0, 1, 'ordinal not in range(128)')
                return concretize(s, 'encode').encode(encoding, errors)
        return s.encode('utf-8')
    return concretize(s, 'encode ' + encoding).encode(encoding, errors)


def _s_pad(which):
    def h(s, width, fill=' '):
        s = core.full(s)
        return getattr(s, which)(width, fill)
    return h


def _s_translate(s, table):
    out = []
    for c in core.full(s):
        done = False
        for k, v in table.items():
            if strs.single_eq(c, chr(k)):
                out.append('' if v is None else chr(v) if isinstance(v, int) else v)
                done = True
                break
        if not done:
            out.append(c)
    return ''.join(out)


STR = {
    'find': strs.find, 'index': _s_index,
    'rfind': lambda s, *a: strs.find(s, *a, right=True) if len(a) == 1 else strs.find(s, *(a + (None,) * (3 - len(a))),
                                                                                       right=True),
    'replace': strs.replace, 'split': strs.split, 'rsplit': strs.rsplit,
    'partition': strs.partition, 'rpartition': lambda s, p: strs.partition(s, p, True),
    'strip': strs.strip, 'lstrip': strs.lstrip, 'rstrip': strs.rstrip,
    'startswith': strs.startswith, 'endswith': strs.endswith,
    'removeprefix': lambda s, p: core.full(s)[len(p):] if strs.startswith(s, p) else s,
    'removesuffix': lambda s, p: core.full(s)[:-len(p)] if p and strs.endswith(s, p) else s,
    'lower': lambda s: strs.case_map(s, 'lower'), 'upper': lambda s: strs.case_map(s, 'upper'),
    'casefold': lambda s: strs.case_map(s, 'casefold'), 'capitalize': strs.capitalize,
    'isidentifier': strs.isidentifier, 'isupper': _s_isupper, 'islower': _s_islower,
    'splitlines': strs.splitlines, 'count': _s_count, 'encode': _s_encode,
    'ljust': _s_pad('ljust'), 'rjust': _s_pad('rjust'), 'center': _s_pad('center'),
    'zfill': lambda s, w: core.full(s).zfill(w),
    'expandtabs': lambda s, *a: concretize(s, 'expandtabs').expandtabs(*a),
    'translate': _s_translate,
    '__eq__': lambda s, o: strs.eq(s, o) if isinstance(o, str) else NotImplemented,
    '__ne__': lambda s, o: not strs.eq(s, o) if isinstance(o, str) else NotImplemented,
    '__contains__': strs.contains,
    '__len__': lambda s: len(core.full(s)),
    '__add__': lambda s, o: s + o,
    '__str__': lambda s: s,
    '__getitem__': lambda s, k: core.full(s)[k],
    '__hash__': lambda s: hash(concretize(s, 'hash')),
    '__format__': lambda s, spec: s if not spec else nums.format_pad(core.full(s), spec, False),
}


# containers -------------------------------------------------------------------

def call_dict(f, self, name, args, kw):
    if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__', '__setitem__', '__delitem__') and args:
        k = args[0]
        if needs_key(self, k):
            k2 = dict_key(self, k)
            if k2 is _AbsentKey:
                if name == 'get':
                    return args[1] if len(args) > 1 else None
                if name == '__contains__':
                    return False
                if name == 'pop':
                    if len(args) > 1:
                        return args[1]
                    raise KeyError(k)
                k2 = k.conc('symbolic dict key')
            return f(k2, *args[1:], **kw)
    elif name == 'update' and core.ST is not None:
        src = args[0] if args else {}
        items = list(src.items()) if hasattr(src, 'items') else list(src)
        if symbolic([k for k, _ in items]) or _keys_symbolic(self):
            for k, v in items:
                hook_setitem(self, k, v)
            for k, v in kw.items():
                hook_setitem(self, k, v)
            return None
        return f(items, **kw)
    return f(*args, **kw)


def _as_list(x):
    return list(x)


def call_set(f, self, name, args, kw):
    if name in ('add', 'discard', 'remove', '__contains__') and args:
        if needs_key(self, args[0]):
            k = dict_key(self, args[0])
            if k is _AbsentKey:
                k = args[0].conc('symbolic set element')
            return f(k)
        return f(*args)
    if name in ('union', 'update', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint',
                'difference_update', 'intersection_update', 'symmetric_difference'):
        others = [list(a) for a in args]
        if _keys_symbolic(self) or any(symbolic(o) for o in others):
            if name in ('union', 'update'):
                r = self if name == 'update' else set(self)
                for o in others:
                    for k in o:
                        r.add(dict_key(r, k))
                return None if name == 'update' else r
            o = others[0]
            if name == 'intersection':
                return {k for k in self if seq_contains(o, k)}
            if name == 'difference':
                return {k for k in self if not seq_contains(o, k)}
            if name == 'issubset':
                return all(seq_contains(o, k) for k in self)
            if name == 'issuperset':
                return all(seq_contains(self, k) for k in o)
            if name == 'isdisjoint':
                return not any(seq_contains(o, k) for k in self)
            if name == 'difference_update':
                for k in [k for k in self if seq_contains(o, k)]:
                    set.discard(self, k)
                return None
        return f(*others)
    return f(*args, **kw)


def call_list(f, self, name, args, kw):
    if name in ('index', 'remove', 'count') and args and (symbolic(args[0]) or symbolic(self)):
        x = args[0]
        if name == 'count':
            return sum(1 for y in self if y is x or deep_eq(y, x))
        rng = range(len(self))
        if name == 'index' and len(args) > 1:
            rng = rng[args[1]:args[2] if len(args) > 2 else None]
        for i in rng:
            if self[i] is x or deep_eq(self[i], x):
                if name == 'index':
                    return i
                del self[i]
                return None
        raise ValueError('list.remove(x): x not in list' if name == 'remove' else 'x is not in list')
    if name == 'sort':
        keys = kw.get('key')
        ks = [hook_call(keys, x) for x in self] if keys else list(self)
        if symbolic(ks):
            self[:] = sym_sorted(self, **kw)
            return None
    return f(*args, **kw)


def sym_sorted(it, key=None, reverse=False):
    items = list(it)
    ks = [hook_call(key, x) for x in items] if key is not None else list(items)
    idx = []
    for i in range(len(items)):   # insertion sort, stable
        j = len(idx)
        while j > 0 and (hook_cmp('<', ks[idx[j - 1]], ks[i]) if reverse else hook_cmp('<', ks[i], ks[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return [items[i] for i in idx]


# classes ----------------------------------------------------------------------

def c_int(*args, **kw):
    if args:
        x = args[0]
        t = type(x)
        if t is SymInt:
            return x
        if t in (SymFloat, SymDecimal):
            return x.to_int()
        if isinstance(x, str) and has_tok(x):
            return strs.parse_int(x, *(args[1:] or ([kw['base']] if 'base' in kw else [])))
        if t in (bytes,) and symbolic(x):
            return strs.parse_int(x, *args[1:])
    return int(*args, **kw)


def c_float(*args):
    if args:
        x = args[0]
        t = type(x)
        if t is SymFloat:
            return x
        if t is SymInt:
            return x.to_float()
        if t is SymDecimal:
            digs, exp = nums.strip_digits(x.digs, x.exp)
            return SymFloat(x.neg, digs, exp)
        if isinstance(x, str) and has_tok(x):
            return strs.parse_float(x)
    return float(*args)


def c_bool(*args):
    if args and type(args[0]) in SYM:
        return bool(args[0])
    return bool(*args)


def c_str(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if type(x) in SYM:
            return str(x)
        if type(x) in (list, tuple, dict, set) and symbolic(x):
            return repr(x)
    if args and type(args[0]) is bytes:
        return str(*args, **kw)
    return str(*args, **kw)


def c_type(*args, **kw):
    if len(args) == 1 and type(args[0]) in SYM:
        return args[0].__class__
    return type(*args, **kw)


def c_decimal(*args, **kw):
    if args:
        x = args[0]
        t = type(x)
        if t is SymDecimal:
            return x
        if t is SymInt:
            neg = branch(x.term < 0)
            s = core.full(core.lit(-x.term if neg else x.term, 10))
            return SymDecimal(neg, [core.ST.toks[c].dig if c in core.ST.toks else int(c) for c in s], 0)
        if t is SymFloat:
            return strs.float_to_decimal(x)
        if isinstance(x, str) and has_tok(x):
            return strs.parse_decimal(x)
    return decimal.Decimal(*args, **kw)


def c_set(*args):
    if args:
        items = list(args[0])
        if symbolic(items):
            return hook_mkset(items)
        return set(items)
    return set()


def hook_mkset(items):
    r = set()
    for k in items:
        r.add(dict_key(r, k))
    return r


def c_frozenset(*args):
    return frozenset(c_set(*args))


def c_dict(*args, **kw):
    d = dict(*args, **kw)
    return hook_mkdict(d)


def c_map(fn, *its):
    return (hook_call(fn, *xs) for xs in zip(*its))


def c_filter(fn, it):
    return (x for x in it if (hook_call(fn, x) if fn is not None else x))


def c_bytes(*args, **kw):
    return bytes(*args, **kw)


CLASS_MODELS = {int: c_int, float: c_float, bool: c_bool, str: c_str, type: c_type, decimal.Decimal: c_decimal,
                set: c_set, frozenset: c_frozenset, dict: c_dict, map: c_map, filter: c_filter}


# functions --------------------------------------------------------------------

def m_len(f, args, kw):
    if type(args[0]) is str and has_tok(args[0]):
        return len(core.full(args[0]))
    return f(*args)


def m_minmax(name, sign):
    def h(f, args, kw):
        items = list(args[0]) if len(args) == 1 else list(args)
        key = kw.get('key')
        if not symbolic(items) and key is None:
            return NotImplemented if len(args) > 1 else f(items, **kw)
        if not items:
            if 'default' in kw:
                return kw['default']
            raise ValueError(f'{name}() iterable argument is empty')
        best = items[0]
        bk = hook_call(key, best) if key else best
        for x in items[1:]:
            k = hook_call(key, x) if key else x
            if hook_cmp('<', k, bk) if sign < 0 else hook_cmp('>', k, bk):
                best, bk = x, k
        return best
    return h


def m_sorted(f, args, kw):
    items = list(args[0])
    key = kw.get('key')
    if key is not None or symbolic(items):
        return sym_sorted(items, **kw)
    return f(items, **kw)


def m_sum(f, args, kw):
    items = list(args[0])
    if not symbolic(items):
        return f(items, *args[1:], **kw)
    acc = args[1] if len(args) > 1 else kw.get('start', 0)
    for x in items:
        acc = acc + x
    return acc


def m_base(base, prefix):
    def h(f, args, kw):
        if type(args[0]) is SymInt:
            return args[0].text(base, False, prefix)
        return NotImplemented
    return h


def m_ord(f, args, kw):
    c = args[0]
    if type(c) is str and has_tok(c):
        c = core.full(c)
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        t = strs.tok(c)
        if t is None:
            return ord(c)
        t.free = False
        return SymInt(t.term)
    return NotImplemented


def m_chr(f, args, kw):
    c = args[0]
    if type(c) is SymInt:
        if not branch(nums.z3.And(c.term >= 0, c.term <= 0x10FFFF)):
            raise ValueError('chr() arg not in range(0x110000)')
        return core.term_char(c.term, ((0, 0x10FFFF),))
    return NotImplemented


def m_isinf(f, args, kw):
    return False if type(args[0]) in SYM else NotImplemented


def m_isfinite(f, args, kw):
    return True if type(args[0]) in SYM else NotImplemented


def m_floorish(meth):
    def h(f, args, kw):
        if type(args[0]) in SYM:
            return getattr(args[0], meth)() if type(args[0]) is not SymDecimal else args[0].to_int()
        return NotImplemented
    return h


def m_getattr(f, args, kw):
    if type(args[1]) is str and has_tok(args[1]):
        return f(args[0], concretize(args[1], 'attribute name'), *args[2:])
    return NotImplemented


def m_print(f, args, kw):
    core.ST.memo.setdefault('printed', []).append(args)
    kw = dict(kw)
    return f(*[hook_call(str, a) for a in args], **kw)


def m_match(name):
    def h(f, args, kw):
        pat = args[0]
        if any(tokened(a) for a in args) or any(tokened(a) for a in kw.values()) or type(pat) is SymPattern:
            flags = kw.pop('flags', 0)
            try:
                if type(pat) is SymPattern:
                    p = pat
                elif isinstance(pat, re.Pattern):
                    p = regex.sym_of(pat)
                else:
                    nfl = {'match': 2, 'fullmatch': 2, 'search': 2, 'findall': 2, 'finditer': 2}.get(name)
                    if nfl and len(args) > nfl:
                        flags = args[nfl]
                        args = args[:nfl]
                    p = SymPattern(pat, int(flags))
                return getattr(p, name)(*args[1:], **kw)
            except regex.Unsupported as e:
                why = f'regex feature {e}'
                return f(*[concretize(a, why) for a in args], **kw)
        return NotImplemented
    return h


def m_compile(f, args, kw):
    if tokened(args[0]):
        return SymPattern(*args, **kw)
    return NotImplemented


def m_escape(f, args, kw):
    if tokened(args[0]):
        return regex.escape(args[0])
    return NotImplemented


def m_normpath(f, args, kw):
    p = args[0]
    if not tokened(p):
        return NotImplemented
    if p == '':
        return '.'
    lead = ''
    if strs.startswith(p, '/'):
        lead = '/'
        if strs.startswith(p, '//') and not strs.startswith(p, '///'):
            lead = '//'
    out = []
    for comp in strs.split(p, '/'):
        if comp == '' or strs.eq(comp, '.'):
            continue
        if not strs.eq(comp, '..') or (not lead and not out) or (out and strs.eq(out[-1], '..')):
            out.append(comp)
        elif out:
            out.pop()
    r = lead + '/'.join(out)
    return r or '.'


def m_round(f, args, kw):
    if type(args[0]) in SYM and type(args[0]) is not SymDecimal:
        return args[0].__round__(*args[1:])
    return NotImplemented


def m_abs(f, args, kw):
    if type(args[0]) in SYM:
        return abs(args[0])
    return NotImplemented


def m_any(f, args, kw):
    return NotImplemented


def m_hash(f, args, kw):
    return NotImplemented


def m_isclose(f, args, kw):
    a, b = args[0], args[1]
    if type(a) in SYM or type(b) in SYM:
        return hook_cmp('==', a, b)
    return NotImplemented


def native_path(path):
    """The native name of a file whose path has symbolic characters: that of the first equal path used so far"""
    if isinstance(path, os.PathLike):
        path = os.fspath(path)
    if type(path) is not str:
        return path
    path = core.full(path)
    known = core.ST.files
    for p in known:
        if p == path:
            return p
        if (has_tok(p) or has_tok(path)) and deep_eq(p, path):
            return p
    known.append(path)
    return path


def m_path(f, args, kw):
    """open, exists, ..."""
    return f(native_path(args[0]), *args[1:], **kw)


def m_format(f, args, kw):
    if type(args[0]) is str and has_tok(args[0]) and len(args) > 1 and args[1]:
        return nums.format_pad(core.full(args[0]), args[1], False)
    return NotImplemented


def m_opeq(op):
    def h(f, args, kw):
        return hook_cmp(op, *args)
    return h


_TRANSPARENT_FUNCS = {'isinstance', 'issubclass', 'callable', 'repr', 'iter', 'next', 'id', 'setattr', 'hasattr',
                      'delattr', 'vars', 'dir', 'any', 'all', 'getattr', 'fspath', 'fsdecode', 'format', 'divmod',
                      'deepcopy', 'copy', 'reduce', 'chain', 'itemgetter', '__build_class__', 'print', 'add',
                      'is_', 'is_not', 'not_', 'truth', 'hash'}

FUNC_MODELS = {
    ('_io', 'open'): m_path, ('io', 'open'): m_path, ('genericpath', 'exists'): m_path,
    ('genericpath', 'isfile'): m_path, ('posix', 'remove'): m_path, ('posix', 'stat'): m_path,
    ('builtins', 'len'): m_len, ('builtins', 'min'): m_minmax('min', -1), ('builtins', 'max'): m_minmax('max', 1),
    ('builtins', 'sorted'): m_sorted, ('builtins', 'sum'): m_sum,
    ('builtins', 'hex'): m_base(16, '0x'), ('builtins', 'bin'): m_base(2, '0b'), ('builtins', 'oct'): m_base(8, '0o'),
    ('builtins', 'ord'): m_ord, ('builtins', 'chr'): m_chr, ('builtins', 'getattr'): m_getattr,
    ('builtins', 'round'): m_round, ('builtins', 'abs'): m_abs, ('builtins', 'format'): m_format,
    ('math', 'isinf'): m_isinf, ('math', 'isnan'): m_isinf, ('math', 'isfinite'): m_isfinite,
    ('math', 'floor'): m_floorish('__floor__'), ('math', 'ceil'): m_floorish('__ceil__'),
    ('math', 'trunc'): m_floorish('__trunc__'), ('math', 'fabs'): m_abs, ('math', 'isclose'): m_isclose,
    ('re', 'match'): m_match('match'), ('re', 'fullmatch'): m_match('fullmatch'), ('re', 'search'): m_match('search'),
    ('re', 'findall'): m_match('findall'), ('re', 'finditer'): m_match('finditer'),
    ('re', 'split'): m_match('split'),
    ('re', 'sub'): lambda f, args, kw: (m_match('sub')(f, args, kw)),
    ('re', 'compile'): m_compile, ('re', 'escape'): m_escape,
    ('posixpath', 'normpath'): m_normpath, ('posix', '_path_normpath'): m_normpath,
    ('_operator', 'eq'): m_opeq('=='), ('_operator', 'ne'): m_opeq('!='),
    ('_operator', 'lt'): m_opeq('<'), ('_operator', 'le'): m_opeq('<='), ('_operator', 'gt'): m_opeq('>'),
    ('_operator', 'ge'): m_opeq('>='), ('_operator', 'not_'): lambda f, a, k: not a[0],
    ('_operator', 'truth'): lambda f, a, k: bool(a[0]), ('_operator', 'sub'): lambda f, a, k: a[0] - a[1],
    ('_operator', 'mul'): lambda f, a, k: a[0] * a[1], ('_operator', 'neg'): lambda f, a, k: -a[0],
    ('_operator', 'add'): lambda f, a, k: a[0] + a[1], ('_operator', 'mod'): lambda f, a, k: hook_mod(*a),
    ('_operator', 'contains'): lambda f, a, k: hook_in(a[1], a[0]),
    ('_operator', 'getitem'): lambda f, a, k: hook_getitem(*a),
}

TYPE_MODELS = {}


# lxml --------------------------------------------------------------------------

def resolve_xml(text: str) -> str:
    """
    Fixes, by forking, every symbolic character that the XML parser treats specially at
    its position; the remaining tokens are character data that lxml passes through.
    """
    text = core.norm(text)
    if not has_tok(text):
        return text
    out = []
    state = 'text'     # text, tag, attr, comment
    quote = ''
    i = 0
    n = len(text)
    while i < n:
        ch = text[i]
        t = strs.tok(ch)
        if type(t) is core.LitTok:
            out.append(ch)
            i += 1
            continue
        if state == 'comment':
            out.append(ch)
            if ''.join(out[-3:]) == '-->':
                state = 'text'
            i += 1
            continue
        if t is not None:
            if state == 'text':
                specials = '<&\r'
            elif state == 'attr':
                specials = '<&\t\n\r' + quote
            else:
                specials = None
            if specials is None:
                c = core.concretize_str(ch, 'symbolic character inside markup')
            else:
                c = ch
                for sp in specials:
                    if core.branch_char(t, ((ord(sp), ord(sp)),)):
                        c = sp
                        break
                else:
                    if state == 'text' and len(out) >= 2:
                        p1, p2 = out[-1], out[-2]
                        if _may(p1, ']') and _may(p2, ']') and _may(ch, '>'):
                            if strs.single_eq(ch, '>'):
                                c = '>'
                                if strs.single_eq(p1, ']') and strs.single_eq(p2, ']'):
                                    out[-1] = out[-2] = ']'
            ch = c
        elif state == 'text' and ch == '>' and len(out) >= 2 and _may(out[-1], ']') and _may(out[-2], ']'):
            if strs.single_eq(out[-1], ']') and strs.single_eq(out[-2], ']'):
                out[-1] = out[-2] = ']'
        out.append(ch)
        if state == 'text':
            if ch == '<':
                if text[i:i + 4] == '<!--':
                    state = 'comment'
                else:
                    state = 'tag'
        elif state == 'tag':
            if ch == '>':
                state = 'text'
            elif ch in '"\'':
                state, quote = 'attr', ch
        elif state == 'attr':
            if ch == quote:
                state = 'tag'
        i += 1
    return core.norm(''.join(out))


def _may(ch, c):
    t = strs.tok(ch)
    if t is None:
        return ch == c
    if type(t) is core.LitTok:
        return False
    o = ord(c)
    return any(lo <= o <= hi for lo, hi in t.dom)


def x_fromstring(f, args, kw):
    a = args[0]
    if type(a) is str and has_tok(a):
        return f(resolve_xml(a), *args[1:], **kw)
    if type(a) is bytes and symbolic(a):
        return f(resolve_xml(a.decode('utf-8')).encode('utf-8'), *args[1:], **kw)
    return f(*args, **kw)


def x_parse(f, args, kw):
    src = args[0]
    if isinstance(src, (str, os.PathLike)):
        with open(native_path(src), 'rb') as fh:
            data = fh.read()
    elif hasattr(src, 'read'):
        data = src.read()
        if isinstance(data, str):
            data = data.encode('utf-8')
    else:
        return f(*args, **kw)
    if symbolic(data):
        data = resolve_xml(data.decode('utf-8')).encode('utf-8')
    return f(io.BytesIO(data), *args[1:], **kw)


LXML_FUNCS = {'fromstring': x_fromstring, 'XML': x_fromstring, 'parse': x_parse}
