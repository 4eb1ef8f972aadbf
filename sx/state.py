"""State which outlives a call: module globals, class attributes, default arguments and caches of the code under test

Every explored path and every replay starts from the state right after import, so that what one leaves behind is not
taken for behaviour of another; ctx.pristine() gives a harness the state of a new process in the middle of a path.
"""
import enum
import sys
import types

_PLAIN = (str, bytes, int, float, bool, type(None), enum.Enum, types.FunctionType, types.ModuleType)


class Pristine:
    def __init__(self, prefixes=('autosar', 'cfile')):
        self.boxes = []       # (container, copy of its content)
        self.spaces = []      # (module or class, saved plain and other attributes)
        self.caches = []
        self.functions = []   # functions without attributes
        self._seen = {}
        for name, mod in sorted(sys.modules.items()):
            if mod is not None and name.split('.')[0] in prefixes:
                self._space(mod, name)
        self._keep = list(self._seen.values())
        self._seen = None

    def _new(self, o):
        if id(o) in self._seen:
            return False
        self._seen[id(o)] = o
        return True

    def _space(self, space, home):
        if not self._new(space):
            return
        attrs = {k: v for k, v in vars(space).items() if not (k.startswith('__') and k.endswith('__'))}
        if isinstance(space, type) and issubclass(space, enum.Enum):
            return
        values = {k: v for k, v in attrs.items()
                  if not isinstance(v, (types.FunctionType, type, types.ModuleType, staticmethod, classmethod))}
        self.spaces.append((space, len(vars(space)), set(vars(space)), list(values.items())))
        for value in attrs.values():
            self._value(value, home)

    def _value(self, v, home):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                self._value(f, home)
            return
        if isinstance(v, type):
            if (v.__module__ or '').split('.')[0] == home.split('.')[0]:
                self._space(v, home)
            return
        if hasattr(v, 'cache_clear') and callable(v.cache_clear):
            if self._new(v):
                self.caches.append(v)
                self._value(getattr(v, '__wrapped__', None), home)
            return
        if isinstance(v, types.FunctionType):
            if (v.__module__ or '').split('.')[0] == home.split('.')[0] and self._new(v):
                if v.__dict__:
                    self._value(v.__dict__, home)
                else:
                    self.functions.append(v)
                for d in (*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values()):
                    self._value(d, home)
                for cell in v.__closure__ or ():
                    try:
                        self._value(cell.cell_contents, home)
                    except ValueError:
                        pass
            return
        if isinstance(v, _PLAIN):
            return
        if isinstance(v, dict):
            if self._new(v):
                self.boxes.append((v, dict(v)))
                for x in list(v.values()):
                    self._value(x, home)
        elif isinstance(v, (list, set)):
            if self._new(v):
                self.boxes.append((v, v.copy()))
                for x in list(v):
                    self._value(x, home)
        elif isinstance(v, tuple):
            for x in v:
                self._value(x, home)
        elif (type(v).__module__ or '').split('.')[0] == home.split('.')[0]:
            if self._new(v):
                self._attributes(v, home)

    def _attributes(self, v, home):
        d = getattr(v, '__dict__', None)
        if type(d) is dict:
            self._value(d, home)

    def restore(self):
        for box, saved in self.boxes:
            if box != saved:
                if isinstance(box, list):
                    box[:] = saved
                else:
                    box.clear()
                    box.update(saved)
        for space, count, names, values in self.spaces:
            d = vars(space)
            if len(d) != count:
                for k in [k for k in d if k not in names and not k.startswith('__')]:
                    delattr(space, k)
            for k, v in values:
                if d.get(k) is not v:
                    setattr(space, k, v)
        for f in self.functions:
            if f.__dict__:
                f.__dict__.clear()
        for c in self.caches:
            c.cache_clear()


_start = None


def restore():
    """Back to the state of the first call, which is made before any path is explored"""
    global _start
    if _start is None:
        _start = Pristine()
    _start.restore()
