"""
Builds model objects from symbolic values through the public constructors, together with a
matcher which states what any faithful copy of the object has to look like.
"""
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_ref
from harness import spec

PLAIN = ('t', 'i', 'u', 'n', 'f', 'b')
LITE_SHAPES = [(2, 1)]
INT = 2 ** 64
FULL_SHAPES = [(1, 1), (3, 1), (2, -3), (2, -5), (1, 9), (1, 17), (1, 30), (17, 1), (1, -30)]


def refs_of(name):
    """(class, accepted destinations in a fixed order)"""
    cls = getattr(ar_ref, name)
    return cls, sorted(cls.accepted_sub_types(), key=lambda d: d.name)


def alternatives(kind):
    """Classes of objects a list of that kind may hold"""
    if kind == 'vs':
        return spec.VALUE_SPECS
    if kind == '*pcomspec':
        return spec.P_COM_SPECS
    if kind == '*rcomspec':
        return spec.R_COM_SPECS
    if kind == '*event':
        return spec.EVENTS
    return kind[2:].split('|') if kind[:2] == 'o:' else []


LONG = 13        # elements of a long list


class Builder:
    def __init__(self, ctx, deep=False):
        self.c = ctx
        self.n = 0
        self.alt = None
        self.deep = deep
        self.names = {}
        self.loose = False    # a value with several spellings was used

    # ---- helpers

    def count(self):
        self.n += 1
        return self.n

    def flip(self):
        """One shared choice for all filler booleans and enums"""
        if self.alt is None:
            self.alt = self.c.flag('alt')
        return self.alt

    def same(self, x, v, where):
        c = self.c
        if isinstance(v, str):
            c.check(isinstance(x, str), where + ': not a string')
        elif isinstance(v, bool) or v is None:
            c.check(x is v, where)
            return
        elif isinstance(v, (int, float)):
            c.check(isinstance(x, (int, float)) and not isinstance(x, bool), where + ': not a number')
        c.check(c.eq(x, v), where)

    def absent(self, x, where):
        ok = x is None
        if isinstance(x, (list, tuple, dict)):
            ok = len(x) == 0
        self.c.check(ok, where + ': set although never given')

    def text(self, path, lv):
        if lv == 'mark':
            return f'm{self.count()}'
        if lv == 'lite':
            return self.c.text(path, 1, 1, 'safe')
        if lv == 'long':
            return 'a long text,  with (some) words; ' * 9 + self.c.text(path, 1, 1, 'xml') + ' and even more' * 9
        return self.c.text(path, 1, 3 if self.deep else 2, 'xml')

    def member(self, enum, path, lv):
        members = list(enum)
        if lv == 'mark':
            i = self.count() % len(members)
            return members[i] if self.flip() else members[-1 - i]
        if lv == 'lite' and len(members) > 2:
            members = [members[0], members[-1]]
        return self.c.pick(path, members)

    def number(self, path, lv, lo=None):
        if lv == 'mark':
            return self.count() * 2
        if lv == 'lite':
            return self.c.int(path, -9 if lo is None else lo, 99)
        return self.c.int(path, -INT if lo is None else lo, INT)

    def real(self, path, lv):
        if lv == 'mark':
            return self.count() + 0.5
        if lv == 'lite':
            return self.c.float(path, LITE_SHAPES, special=False)
        return self.c.float(path, FULL_SHAPES, special=True)

    def any_number(self, path, lv):
        if lv == 'mark':
            return self.number(path, lv) if self.flip() else self.real(path, lv)
        if self.c.flag(path + '?float'):
            return self.real(path, lv)
        return self.number(path, lv)

    # ---- values of a kind: returns (argument, matcher)

    def val(self, kind, path, lv, depth):
        c = self.c
        if kind[0] == '*':
            return getattr(self, 'k_' + kind[1:])(path, lv, depth)
        if kind == 't':
            v = self.text(path, lv)
            return v, lambda x, w: self.same(x, v, w)
        if kind == 'b':
            v = self.flip() if lv == 'mark' else c.flag(path)
            return v, lambda x, w: self.same(x, v, w)
        if kind in ('i', 'u'):
            v = self.number(path, lv, 0 if kind == 'u' else None)

            def m_int(x, w):
                c.check(isinstance(x, int) and not isinstance(x, bool), w + ': not an integer')
                c.check(c.eq(x, v), w)
            return v, m_int
        if kind == 'n':
            v = self.any_number(path, lv)
            return v, lambda x, w: self.same(x, v, w)
        if kind == 'f':
            if lv == 'full' and c.flag(path + '?int'):
                v = c.int(path, -1000000, 1000000)
            else:
                v = self.real(path, lv)
            return v, lambda x, w: self.same(x, v, w)
        head, _, rest = kind.partition(':')
        if head == 'e':
            v = self.member(getattr(ar_enum, rest), path, lv)
            return v, lambda x, w: c.check(x is v, w)
        if head in ('r', 'rs'):
            return self.ref(rest, path, lv, head == 'rs')
        if head == 'o':
            names = rest.split('|')
            name = names[0]
            if len(names) > 1:
                name = names[self.count() % len(names)] if lv == 'mark' else c.pick(path + '?type', names)
            return self.nested(name, path, lv, depth)
        if kind == 'vs':
            if lv == 'full':
                return self.nested(c.pick(path + '?type', spec.VALUE_SPECS), path, lv, depth)
            names = ['NumericalValueSpecification', 'TextValueSpecification']
            name = names[self.count() % 2] if depth > 1 or lv == 'mark' else c.pick(path + '?type', names)
            return self.nested(name, path, lv, depth)
        if head in ('l', 's'):
            return self.many(rest, path, lv, depth, head == 's')
        raise RuntimeError(kind)

    def ref(self, name, path, lv, as_path):
        c = self.c
        cls, dests = refs_of(name)
        if lv == 'mark':
            i = self.count() % len(dests)
            dest = dests[i] if self.flip() else dests[-1 - i]
            v = f'/R{self.count()}/x'
        elif lv == 'lite':
            dest = c.pick(path + '.dest', [dests[0], dests[-1]]) if len(dests) > 1 else dests[0]
            v = '/' + c.text(path, 1, 1, 'safe')
        elif lv == 'long':
            dest = c.pick(path + '.dest', [dests[0], dests[-1]]) if len(dests) > 1 else dests[0]
            v = '/Package_with_a_long_name' * 12 + '/' + c.text(path, 1, 1, 'ident') + '/Element' * 9
        else:
            dest = c.pick(path + '.dest', dests) if len(dests) > 1 else dests[0]
            v = '/' + c.text(path, 1, 2, 'xml')
        arg = cls(v, dest)
        if as_path and len(dests) == 1 and (lv == 'full' and c.flag(path + '?path')):
            arg = v

        def match(x, w):
            c.check(isinstance(x, cls), f'{w}: not a {name}')
            self.same(x.value, v, w)
            c.check(x.dest is dest, w + ': destination kind')
        return arg, match

    def many(self, kind, path, lv, depth, single):
        """A list (or a lone element where that is accepted)"""
        c = self.c
        if lv == 'mark':
            shape = 2
        elif lv == 'long':
            shape = LONG
        elif lv == 'lite' or depth > 0:
            shape = c.pick(path + '?n', [1, 2])
        else:
            others = alternatives(kind)
            shape = c.pick(path + '?n', (['lone'] if single else []) + [1, 2] + ([3] if self.deep else []) +
                           (['mixed'] if len(others) > 1 else []) +
                           (['twice'] if all(spec.CLASSES[o].ident == '-' for o in others) else []))
        n = 1 if shape == 'lone' else shape
        items = []
        if shape == 'mixed':
            # elements of two classes, in either order
            n = 2
            items = [self.nested(c.pick(f'{path}.{i}?class', others), f'{path}.{i}', 'mark', depth + 1)
                     for i in range(2)]
        if shape == 'twice':
            # the same content again, in between something else
            n = 3
            start = self.n
            for i in range(n):
                if i == 2:
                    self.n = start
                items.append(self.val(kind, f'{path}.{i}', 'mark', depth + 1))
                if i == 1:
                    self.n += 20
        for i in range(n if not items else 0):
            # one element of every form, or several small ones in order
            if lv == 'long':
                sub = 'lite' if i == LONG - 4 else 'mark'
            else:
                sub = lv if n == 1 else ('mark' if lv == 'mark' or i else 'lite')
            items.append(self.val(kind, f'{path}.{i}', sub, depth + (1 if n > 1 else 0)))
        arg = items[0][0] if shape == 'lone' else [a for a, _ in items]

        def match(x, w):
            c.check(isinstance(x, (list, tuple)), w + ': not a list')
            c.check(len(x) == n, w + ': number of elements')
            for i, (_, m) in enumerate(items):
                m(x[i], f'{w}[{i}]')
        return arg, match

    # ---- objects

    def nested(self, name, path, lv, depth):
        cs = spec.CLASSES[name]
        opt = [f for f in cs.fields if not f.required]
        given = {}
        if opt:
            if lv == 'full' and depth == 0:
                i = self.c.pick(path + '?field', list(range(len(opt) + 1)))
                if i < len(opt):
                    given[opt[i].key] = 'lite'
            else:
                f = next((f for f in opt if f.kind in PLAIN or f.kind[0] == 'e'), None) or \
                    next((f for f in opt if f.kind[0] == 'r'), None) or opt[0]
                given[f.key] = lv if lv != 'full' else 'lite'
        return self.make(name, path, given, 'lite' if lv == 'full' else lv, depth + 1)

    def make(self, name, path, given, base, depth=0, fixed=None, extra=None):
        """
        An object with the optional fields in given (key -> level of detail) and all required ones;
        extra: arguments to pass as they are.
        """
        c = self.c
        if base == 'long':
            base = 'lite'
        cs = spec.CLASSES[name]
        cls = getattr(ar_element, name)
        kwargs = {}
        matchers = []
        label = None
        if cs.ident != '-':
            if base == 'full':
                label = c.ident(path + '.name', 2)
            elif base == 'lite' and depth < 2:
                label = c.ident(path + '.name', 1)
            else:
                label = f'N{self.count()}'
            kwargs['name'] = label
        for key in extra or ():
            kwargs[ARG.get((name, key), key)] = extra[key]
        for f in cs.fields:
            if extra and f.key in extra:
                continue
            if fixed and f.key in fixed:
                kwargs[f.key] = fixed[f.key][0]
                matchers.append((f.key, fixed[f.key][1]))
            elif f.required or f.key in given:
                lv = given.get(f.key, base)
                arg, m = self.val(f.kind, f'{path}.{f.key}', lv, depth)
                if f.kind in GROUPS:
                    kwargs.update(arg)
                    matchers.append((None, m))
                else:
                    kwargs[ARG.get((name, f.key), f.key)] = arg
                    matchers.append((ATTR.get((name, f.key), f.key), m))
            elif f.kind in GROUPS:
                matchers.append((None, GROUPS[f.kind](self)))
            else:
                matchers.append((ATTR.get((name, f.key), f.key), self.absent))
        post = POST.get(name)
        if post:
            obj = post(cls, kwargs)
        else:
            obj = cls(**kwargs)

        def match(x, w):
            c.check(type(x) is cls, f'{w}: not a {name}')
            if label is not None:
                self.same(x.name, label, w + '.name')
            for attr, m in matchers:
                if attr is None:
                    m(x, w)
                else:
                    m(getattr(x, attr), f'{w}.{attr}')
        return obj, match

    def field(self, obj, key):
        """The value of a field of an object"""
        return getattr(obj, ATTR.get((type(obj).__name__, key), key))

    # ---- kinds of their own

    def k_dispfmt(self, path, lv, depth):
        c = self.c
        if lv == 'mark':
            v = f'%{self.count()}d'
        else:
            flag = c.pick(path + '.flag', ['', ' ', '-', '+', '#'] if lv == 'full' else ['', '+'])
            conv = c.pick(path + '.conv', list('diouxXfeEgGcs') if lv == 'full' else ['d', 'x'])
            width = c.text(path + '.w', 0, 2, 'digit')
            prec = '.' + c.text(path + '.p', 1, 1, 'digit') if c.flag(path + '.prec') else ''
            v = '%' + flag + width + prec + conv
        return v, lambda x, w: self.same(x, v, w)

    def k_alignment(self, path, lv, depth):
        c = self.c
        if lv == 'mark':
            v = self.count()
            return v, lambda x, w: self.same(x, v, w)
        form = c.pick(path + '?form', ['int', 'dec', 'hex', 'bin', 'oct', 'UNSPECIFIED', 'UNKNOWN', 'BOOLEAN', 'PTR'])
        if form == 'int':
            v = c.int(path, lo=0)
        elif form == 'dec':
            v = c.pick(path + '.d0', list('19')) + c.text(path, 0, 1, 'digit')
        elif form == 'hex':
            v = '0' + c.pick(path + '.x', ['x', 'X']) + c.text(path, 1, 1, 'hex')
        elif form == 'bin':
            v = '0b' + c.pick(path, ['0', '1', '10'])
        elif form == 'oct':
            v = '0' + c.pick(path, ['', '7', '10'])
        else:
            v = form
        self.loose = self.loose or form in ('hex', 'bin', 'oct', 'dec')

        def match(x, w):
            # an integer and its text are the same alignment
            if isinstance(v, int):
                c.check(c.eq(x, v) if isinstance(x, int) else c.eq(x, str(v)), w)
            elif isinstance(x, int):
                c.check(form in ('dec', 'hex', 'bin', 'oct') and c.eq(x, int(v, 8) if form == 'oct' else int(v, 0)), w)
            else:
                self.same(x, v, w)
        return v, match

    def props_match(self, inner):
        c = self.c

        def match(x, w):
            c.check(type(x) is ar_element.SwDataDefProps, w + ': not SwDataDefProps')
            c.check(len(x.variants) == len(inner), w + ': number of variants')
            for i, m in enumerate(inner):
                m(x.variants[i], f'{w}.variants[{i}]')
        return match

    def k_props(self, path, lv, depth):
        c = self.c
        form = 'single' if lv != 'full' else c.pick(path + '?form', ['single', 'wrapped', 'two', 'empty first',
                                                                     'empty last'])
        if form[:5] == 'empty':
            objs = [self.make('SwDataDefPropsConditional', f'{path}.{i}', {'impl_policy': 'mark'} if
                              (i == 1) == (form == 'empty first') else {}, 'mark', depth) for i in range(2)]
            return ar_element.SwDataDefProps([o for o, _ in objs]), self.props_match([m for _, m in objs])
        if depth >= 2 and lv != 'mark':
            obj, m = self.make('SwDataDefPropsConditional', path, {'calibration_access': 'mark'}, 'mark', depth)
            return obj, self.props_match([m])
        obj, m = self.nested('SwDataDefPropsConditional', path, 'lite' if form == 'two' else lv, depth)
        if form == 'single':
            return obj, self.props_match([m])
        if form == 'wrapped':
            return ar_element.SwDataDefProps(obj), self.props_match([m])
        obj2, m2 = self.make('SwDataDefPropsConditional', path + '.2', {'alignment': 'mark', 'impl_policy': 'mark'},
                             'mark', depth)
        return ar_element.SwDataDefProps([obj, obj2]), self.props_match([m, m2])

    def k_netrep(self, path, lv, depth):
        arg, m = self.k_props(path, lv, depth)
        if type(arg) is not ar_element.SwDataDefProps:
            arg = ar_element.SwDataDefProps(arg)
        return arg, m

    def k_unitname(self, path, lv, depth):
        c = self.c
        v = self.text(path, lv)
        obj = ar_element.SingleLanguageUnitNames([v])
        arg = v if lv == 'full' and c.flag(path + '?str') else obj

        def match(x, w):
            c.check(type(x) is ar_element.SingleLanguageUnitNames, w + ': not SingleLanguageUnitNames')
            self.same(''.join(x.parts), v, w)
        return arg, match

    def k_modes(self, path, lv, depth):
        """ModeDeclaration objects, plain names, (name, value) pairs or a lone object"""
        c = self.c
        form = 'objects' if lv == 'mark' else c.pick(path + '?form', ['lone', 'objects', 'names', 'pairs'])
        n = 1 if form == 'lone' else LONG if lv == 'long' else 2
        items = []
        for i in range(n):
            if lv == 'long' and i == 1:
                lv = 'mark'
            if form in ('names', 'pairs'):
                nm = c.ident(f'{path}.{i}.name', 1) if lv != 'mark' else f'M{self.count()}'
                val = None
                if form == 'pairs':
                    val = self.number(f'{path}.{i}.value', lv, 0)
                items.append((nm if form == 'names' else (nm, val), self.mode_match(nm, val)))
            else:
                sub = {'value': lv if lv == 'mark' else 'lite'} if i == 0 else {}
                items.append(self.make('ModeDeclaration', f'{path}.{i}', sub, lv, depth))
        arg = items[0][0] if form == 'lone' else [a for a, _ in items]

        def match(x, w):
            c.check(isinstance(x, list) and len(x) == n, w + ': number of modes')
            for i in range(n):
                items[i][1](x[i], f'{w}[{i}]')
        return arg, match

    def mode_match(self, name, value):
        def match(x, w):
            self.c.check(type(x) is ar_element.ModeDeclaration, w)
            self.same(x.name, name, w + '.name')
            if value is None:
                self.absent(x.value, w + '.value')
            else:
                self.same(x.value, value, w + '.value')
        return match

    def timeout_like(self, cls, path, lv):
        """A request object or just its timeout"""
        c = self.c
        v = self.real(path, lv)
        arg = v if lv == 'full' and c.flag(path + '?plain') else cls(v)

        def match(x, w):
            c.check(type(x) is cls, w)
            self.same(x.timeout, v, w + '.timeout')
        return arg, match

    def k_msack(self, path, lv, depth):
        return self.timeout_like(ar_element.ModeSwitchedAckRequest, path, lv)

    def k_txack(self, path, lv, depth):
        return self.timeout_like(ar_element.TransmissionAcknowledgementRequest, path, lv)

    def k_deref(self, path, lv, depth):
        c = self.c
        v = '/' + self.text(path, lv)
        cls, dests = refs_of('AutosarDataPrototypeRef')
        dest = ar_enum.IdentifiableSubTypes.VARIABLE_DATA_PROTOTYPE
        if lv == 'full' and c.flag(path + '?var'):
            arg = ar_ref.VariableDataPrototypeRef(v, dest)
        else:
            if lv == 'full':
                dest = c.pick(path + '.dest', dests)
            arg = cls(v, dest)

        def match(x, w):
            c.check(isinstance(x, cls), w + ': type')
            self.same(x.value, v, w)
            c.check(x.dest is dest, w + ': destination kind')
        return arg, match

    # documentation

    def part(self, form, path, lv):
        """One piece of mixed content"""
        c = self.c
        if form == 'text':
            v = self.text(path, lv)
            return v, lambda x, w: self.same(x, v, w)
        if form == 'Break':
            return ar_element.Break(), lambda x, w: c.check(type(x) is ar_element.Break, w + ': not a Break')
        cls = getattr(ar_element, form)
        v = self.text(path, lv)
        kw, ms = {}, []
        if form == 'EmphasisText':
            if lv == 'full':
                opt = c.pick(path + '?opt', ['', 'color', 'font', 'type'])
                if opt == 'color':
                    kw['color'] = self.text(path + '.color', 'lite')
                elif opt:
                    enum = ar_enum.EmphasisFont if opt == 'font' else ar_enum.EmphasisType
                    kw[opt] = self.member(enum, path + '.' + opt, lv)
            obj = cls(v, **kw)

            def m_text(x, w):
                c.check(isinstance(x.elements, list) and len(x.elements) == 1, w + '.elements')
                self.same(x.elements[0], v, w + '.elements')
            names = ('color', 'font', 'type')
        else:
            if form == 'TechnicalTerm' and lv == 'full':
                opt = c.pick(path + '?opt', ['', 'tex_render', 'type'])
                if opt:
                    kw[opt] = self.text(path + '.' + opt, 'lite')
            obj = cls(v, **kw)
            names = ('tex_render', 'type') if form == 'TechnicalTerm' else ()

            def m_text(x, w):
                self.same(x.text, v, w + '.text')

        def match(x, w):
            c.check(type(x) is cls, f'{w}: not a {form}')
            m_text(x, w)
            for n in names:
                if n in kw:
                    self.same_any(getattr(x, n), kw[n], f'{w}.{n}')
                else:
                    self.absent(getattr(x, n), f'{w}.{n}')
        return obj, match

    def same_any(self, x, v, w):
        if isinstance(v, str):
            self.same(x, v, w)
        else:
            self.c.check(x is v, w)

    def mixed(self, path, lv, forms, wrap_str=True):
        """A string or a sequence of parts; two strings are never adjacent"""
        c = self.c
        if lv == 'mark':
            seq = ['text', forms[self.count() % len(forms)], 'text']
        elif lv == 'long':
            seq = []
            for i in range(LONG):
                seq += ['text', forms[i % len(forms)]]
        elif lv == 'lite':
            seq = ['text']
        else:
            shape = c.pick(path + '?shape', ['str', 'one', 'text-one', 'one-text', 'text-one-text', 'one-one',
                                             'one-text-one'])
            seq = []
            for i, s in enumerate(shape.split('-')):
                if s == 'one':
                    fs = forms if i == 0 or not seq or seq[0] == 'text' else [forms[0], forms[-1]]
                    seq.append(c.pick(f'{path}.{i}?form', fs))
                else:
                    seq.append('text')
            if shape == 'str':
                seq = ['text']
        parts = []
        for i, s in enumerate(seq):
            sub = lv
            if lv == 'full' and len(seq) > 1:
                sub = 'lite'
            if lv == 'long' and i:
                sub = 'lite' if i == LONG else 'mark'
            parts.append(self.part(s, f'{path}.{i}', sub))
        arg = [a for a, _ in parts]
        if len(seq) == 1 and seq[0] == 'text' and wrap_str:
            arg = arg[0]

        def match(x, w):
            c.check(isinstance(x, list) and len(x) == len(parts), w + ': number of parts')
            for i, (_, m) in enumerate(parts):
                m(x[i], f'{w}[{i}]')
        return arg, match

    def k_parts_long(self, path, lv, depth):
        return self.mixed(path, lv, ['TechnicalTerm', 'EmphasisText', 'Subscript', 'Superscript', 'IndexEntry'])

    k_parts_overview = k_parts_long

    def k_parts_para(self, path, lv, depth):
        return self.mixed(path, lv, ['TechnicalTerm', 'Break', 'EmphasisText', 'Subscript', 'Superscript',
                                     'IndexEntry'])

    def k_parts_verb(self, path, lv, depth):
        return self.mixed(path, lv, ['TechnicalTerm', 'Break', 'EmphasisText'])

    def k_parts_unit(self, path, lv, depth):
        return self.mixed(path, lv, ['Superscript', 'Subscript'], wrap_str=False)

    def k_emph(self, path, lv, depth):
        c = self.c
        v = self.text(path, lv)

        def match(x, w):
            c.check(isinstance(x, list) and len(x) == 1, w)
            self.same(x[0], v, w)
        return v, match

    def langs(self, cls_name, path, lv, depth):
        """First entry through the constructor (tuple or object), more through append"""
        c = self.c
        n = 2 if lv == 'mark' else LONG if lv == 'long' else c.pick(path + '?n', [1, 2])
        form = c.pick(path + '?form', ['object', 'tuple']) if lv == 'full' else 'object'
        items = []
        for i in range(n):
            if i == 0 and form == 'tuple':
                lang = self.member(ar_enum.Language, f'{path}.{i}.language', 'lite')
                v = self.text(f'{path}.{i}', 'lite')
                items.append(((lang, v), self.lang_match(cls_name, lang, v)))
            else:
                items.append(self.make(cls_name, f'{path}.{i}', {'parts': 'lite' if i == 0 and lv != 'mark' else 'mark'},
                                       'mark' if lv == 'mark' or lv == 'long' and i else 'lite', depth + 1))
        first, rest = items[0][0], [a for a, _ in items[1:]]

        def match(x, w):
            c.check(isinstance(x, list) and len(x) == n, w + ': number of languages')
            for i in range(n):
                items[i][1](x[i], f'{w}[{i}]')
        return ('first', first, rest), match

    def lang_match(self, cls_name, lang, text):
        def match(x, w):
            self.c.check(type(x) is getattr(ar_element, cls_name), w)
            self.c.check(x.language is lang, w + '.language')
            self.c.check(len(x.parts) == 1, w + '.parts')
            self.same(x.parts[0], text, w + '.parts')
        return match

    def k_langs_long(self, path, lv, depth):
        return self.langs('LanguageLongName', path, lv, depth)

    def k_langs_overview(self, path, lv, depth):
        return self.langs('LanguageOverviewParagraph', path, lv, depth)

    def k_langs_para(self, path, lv, depth):
        return self.langs('LanguageParagraph', path, lv, depth)

    def k_langs_verb(self, path, lv, depth):
        return self.langs('LanguageVerbatim', path, lv, depth)

    def k_docelems(self, path, lv, depth):
        return self.many('o:MultiLanguageParagraph|MultiLanguageVerbatim', path, lv, depth, True)

    def k_desc(self, path, lv, depth):
        c = self.c
        v = self.text(path, lv)
        form = 'str'
        if lv != 'mark':
            form = c.pick(path + '?form', ['str', 'tuple', 'object'])
        lang = ar_enum.Language.FOR_ALL
        if form != 'str':
            lang = self.member(ar_enum.Language, path + '.language', lv)
        arg = v
        if form == 'tuple':
            arg = (lang, v)
        elif form == 'object':
            arg = ar_element.MultiLanguageOverviewParagraph((lang, v))
        inner = self.lang_match('LanguageOverviewParagraph', lang, v)

        def match(x, w):
            c.check(type(x) is ar_element.MultiLanguageOverviewParagraph, w + ': not a paragraph')
            c.check(len(x.elements) == 1, w + '.elements')
            inner(x.elements[0], w)
        return arg, match

    # computation and constraints

    def const_value(self, path, lv):
        """Number or text which does not look like a number"""
        c = self.c
        if lv == 'mark':
            return self.number(path, lv) if self.flip() else 'T' + self.text(path, lv)
        form = c.pick(path + '?form', ['int', 'float', 'text'])
        if form == 'int':
            return self.number(path, lv)
        if form == 'float':
            return self.real(path, lv)
        return 'T' + self.text(path, lv)

    def const_match(self, v):
        def match(x, w):
            self.c.check(type(x) is ar_element.CompuConst, w + ': not a CompuConst')
            self.same(x.value, v, w + '.value')
        return match

    def k_cconst(self, path, lv, depth):
        v = self.const_value(path, lv)
        arg = ar_element.CompuConst(v)
        if lv == 'full' and self.c.flag(path + '?plain'):
            arg = v
        return arg, self.const_match(v)

    def k_constval(self, path, lv, depth):
        v = self.const_value(path, lv)
        return v, lambda x, w: self.same(x, v, w)

    def k_numtuple(self, path, lv, depth):
        c = self.c
        n = c.pick(path + '?n', [1, 2, 3]) if lv == 'full' else LONG if lv == 'long' else 2
        vals = []
        for i in range(n):
            sub = 'full' if lv == 'full' and n == 1 else ('mark' if lv == 'mark' or i else 'lite')
            vals.append(self.any_number(f'{path}.{i}', sub))
        arg = vals if lv == 'full' and n == 2 and c.flag(path + '?list') else tuple(vals)

        def match(x, w):
            c.check(isinstance(x, (tuple, list)) and len(x) == n, w + ': number of coefficients')
            for i in range(n):
                self.same(x[i], vals[i], f'{w}[{i}]')
        return arg, match

    def k_limits(self, path, lv, depth):
        c = self.c
        which = ['lower', 'upper']
        if lv == 'full':
            which = c.sub(path + '?which', which, 1, 2)
        kw = {}
        for s in which:
            sub = lv if len(which) == 1 or lv == 'mark' else 'lite'
            if lv == 'full' and len(which) == 1:
                v = self.any_number(f'{path}.{s}', 'full')
            else:
                v = self.number(f'{path}.{s}', sub)
            kw[s + '_limit'] = v
            if lv != 'mark' or self.flip():
                kw[s + '_limit_type'] = self.member(ar_enum.IntervalType, f'{path}.{s}.type', lv)

        def match(x, w):
            for s in ('lower', 'upper'):
                v = kw.get(s + '_limit')
                if v is None:
                    self.absent(getattr(x, s + '_limit'), f'{w}.{s}_limit')
                else:
                    self.same(getattr(x, s + '_limit'), v, f'{w}.{s}_limit')
                    c.check(getattr(x, s + '_limit_type') is kw.get(s + '_limit_type', ar_enum.IntervalType.CLOSED),
                            f'{w}.{s}_limit_type')
        return kw, match

    def no_limits(self, x, w):
        self.absent(x.lower_limit, w + '.lower_limit')
        self.absent(x.upper_limit, w + '.upper_limit')

    def k_scaleconstrs(self, path, lv, depth):
        return self.many('o:ScaleConstraint', path, lv, depth, False)

    # values

    def numerical(self, path, lv):
        """A plain number or a formatted NumericalValue"""
        c = self.c
        if lv == 'full' and c.flag(path + '?wrapped'):
            fmt = c.pick(path + '.format', [ar_enum.ValueFormat.DEFAULT, ar_enum.ValueFormat.HEXADECIMAL,
                                            ar_enum.ValueFormat.BINARY])
            v = c.int(path, 0, 255)
            return ar_element.NumericalValue(v, fmt), v
        v = self.any_number(path, lv)
        return v, v

    def number_of(self, x):
        return x.value if isinstance(x, ar_element.NumericalValue) else x

    def k_valuelist(self, path, lv, depth):
        c = self.c
        n = 2 if lv == 'mark' else LONG if lv == 'long' else c.pick(path + '?n', [0, 1, 2] if lv == 'full' else [1, 2])
        items = [self.numerical(f'{path}.{i}', lv if n <= 1 or lv == 'mark' else 'mark' if i else 'lite')
                 for i in range(max(n, 1))]
        arg = items[0][0] if n == 0 else [a for a, _ in items]
        if n == 0 and isinstance(arg, ar_element.NumericalValue):
            arg = [arg]

        def match(x, w):
            c.check(isinstance(x, list) and len(x) == len(items), w + ': number of values')
            for i, (_, v) in enumerate(items):
                self.same(self.number_of(x[i]), v, f'{w}[{i}]')
        return arg, match

    def sw_value(self, path, lv, depth, group):
        c = self.c
        forms = ['number', 'text'] + (['group'] if group else [])
        form = forms[self.count() % len(forms)] if lv == 'mark' else c.pick(path + '?form', forms)
        if form == 'number':
            a, v = self.numerical(path, lv)
            return a, lambda x, w: self.same(self.number_of(x), v, w)
        if form == 'text':
            v = 'T' + self.text(path, lv)
            return v, lambda x, w: self.same(x, v, w)
        return self.make('ValueGroup', path, {'values': 'lite' if lv == 'full' else lv},
                         'lite' if lv == 'full' else lv, depth + 1)

    def sw_values(self, path, lv, depth, group):
        c = self.c
        n = 2 if lv == 'mark' else LONG if lv == 'long' else c.pick(path + '?n', [0, 1, 2] if lv == 'full' else [1, 2])
        items = []
        for i in range(max(n, 1)):
            sub = lv if n <= 1 or lv == 'mark' else ('lite' if i == 0 else 'mark')
            items.append(self.sw_value(f'{path}.{i}', sub, depth, group and depth < 2))
        arg = items[0][0] if n == 0 else [a for a, _ in items]

        def match(x, w):
            c.check(isinstance(x, list) and len(x) == len(items), w + ': number of values')
            for i, (_, m) in enumerate(items):
                m(x[i], f'{w}[{i}]')
        return arg, match

    def k_swvalues(self, path, lv, depth):
        return self.sw_values(path, lv, depth, True)

    def k_groupvalues(self, path, lv, depth):
        return self.sw_values(path, lv, depth, True)

    def k_grouplabel(self, path, lv, depth):
        c = self.c
        lang = self.member(ar_enum.Language, path + '.language', lv)
        v = self.text(path, lv)
        form = c.pick(path + '?form', ['tuple', 'language', 'long name']) if lv == 'full' else 'tuple'
        arg = (lang, v)
        if form != 'tuple':
            arg = ar_element.LanguageLongName(lang, v)
        if form == 'long name':
            arg = ar_element.MultilanguageLongName(arg)
        inner = self.lang_match('LanguageLongName', lang, v)

        def match(x, w):
            c.check(type(x) is ar_element.MultilanguageLongName, w)
            c.check(len(x.elements) == 1, w)
            inner(x.elements[0], w)
        return arg, match

    def k_axisindex(self, path, lv, depth):
        c = self.c
        if lv == 'mark' or c.flag(path + '?int'):
            v = self.number(path, lv)
        else:
            v = 'T' + self.text(path, lv)

        def match(x, w):
            self.same(x, v, w)
        return v, match

    # ports

    def k_pcomspec(self, path, lv, depth):
        return self.val('o:' + '|'.join(spec.P_COM_SPECS), path, lv, depth)

    def k_rcomspec(self, path, lv, depth):
        return self.val('o:' + '|'.join(spec.R_COM_SPECS), path, lv, depth)

    def port_iref(self, path, lv, dests):
        c = self.c
        cls = ar_element.PortInCompositionTypeInstanceRef
        which = ['component_ref', 'port_ref']
        if lv == 'full' and len(dests) == 1:
            which = c.sub(path + '?which', which, 1, 2)
        kw, ms = {}, {}
        if 'component_ref' in which:
            kw['component_ref'], ms['component_ref'] = self.ref('SwComponentPrototypeRef', path + '.component_ref',
                                                                lv, False)
        if 'port_ref' in which:
            dest = dests[self.count() % len(dests)] if lv == 'mark' else c.pick(path + '.dest', dests)
            v = '/' + self.text(path + '.port_ref', 'lite' if lv == 'full' else lv)
            kw['port_ref'] = ar_ref.PortPrototypeRef(v, dest)

            def m_port(x, w):
                c.check(type(x) is ar_ref.PortPrototypeRef, w)
                self.same(x.value, v, w)
                c.check(x.dest is dest, w + ': destination kind')
            ms['port_ref'] = m_port

        def match(x, w):
            c.check(type(x) is cls, w)
            for key in ('component_ref', 'port_ref'):
                (ms[key] if key in ms else self.absent)(getattr(x, key), f'{w}.{key}')
        return cls(**kw), match

    def k_pportiref(self, path, lv, depth):
        return self.port_iref(path, lv, [ar_enum.IdentifiableSubTypes.P_PORT_PROTOTYPE])

    def k_rportiref(self, path, lv, depth):
        return self.port_iref(path, lv, [ar_enum.IdentifiableSubTypes.R_PORT_PROTOTYPE])

    def k_portiref(self, path, lv, depth):
        return self.port_iref(path, lv, [ar_enum.IdentifiableSubTypes.P_PORT_PROTOTYPE,
                                         ar_enum.IdentifiableSubTypes.R_PORT_PROTOTYPE])

    # behavior

    def k_event(self, path, lv, depth):
        return self.val('o:' + '|'.join(spec.EVENTS), path, lv, depth)

    def k_modeiref(self, path, lv, depth):
        c = self.c
        n = 2 if lv == 'mark' else c.pick(path + '?n', [1, 2])
        items = []
        for i in range(n):
            sub = lv if n == 1 or lv == 'mark' else 'lite'
            items.append(self.nested('RModeInAtomicSwcInstanceRef', f'{path}.{i}', sub, depth))

        def match(x, w):
            if n == 1:
                items[0][1](x, w)
                return
            c.check(isinstance(x, (tuple, list)) and len(x) == 2, w + ': two modes')
            for i in range(2):
                items[i][1](x[i], f'{w}[{i}]')
        return (items[0][0] if n == 1 else (items[0][0], items[1][0])), match

    def k_portapi(self, path, lv, depth):
        """Options are keyed by the name of their port"""
        c = self.c
        n = 2 if lv == 'mark' else c.pick(path + '?n', ['lone', 1, 2])
        items = []
        opt = [f.key for f in spec.CLASSES['PortApiOption'].fields if f.key != 'port']
        for i in range(1 if n == 'lone' else n):
            given = {}
            if i == 0 and lv == 'full' and n == 1:
                given[c.pick(f'{path}.{i}?field', opt)] = 'lite'
            else:
                given['indirect_api'] = 'lite' if lv != 'mark' else 'mark'
            cls, dests = refs_of('PortPrototypeRef')
            port = cls(f'/Swc/Port{i}', dests[i % len(dests)])
            items.append(self.make('PortApiOption', f'{path}.{i}', given, 'lite', depth + 1,
                                   fixed={'port': (port, self.port_match(port))}))
        arg = items[0][0] if n == 'lone' else [a for a, _ in items]

        def match(x, w):
            c.check(isinstance(x, dict) and len(x) == len(items), w + ': number of options')
            for i, (_, m) in enumerate(items):
                c.check(list(x.keys())[i] == f'Port{i}', w + ': key')
                m(list(x.values())[i], f'{w}[{i}]')
        return arg, match

    def port_match(self, port):
        return lambda x, w: self.c.check(x.value == port.value and x.dest is port.dest, w + '.port')

    def k_exareas(self, path, lv, depth):
        c = self.c
        n = 2 if lv == 'mark' else LONG if lv == 'long' else c.pick(path + '?n', ['lone', 1, 2])
        items = []
        for i in range(1 if n == 'lone' else n):
            sub = 'mark' if lv == 'long' and i else lv if n != 2 or lv == 'mark' else 'lite'
            arg, m = self.ref('ExclusiveAreaRef', f'{path}.{i}', sub, True)
            if lv == 'full' and not isinstance(arg, str) and c.flag(f'{path}.{i}?wrapped'):
                arg = ar_element.ExclusiveAreaRefConditional(arg)
            items.append((arg, m))
        arg = items[0][0] if n == 'lone' else [a for a, _ in items]

        def match(x, w):
            c.check(isinstance(x, list) and len(x) == len(items), w + ': number of areas')
            for i, (_, m) in enumerate(items):
                c.check(type(x[i]) is ar_element.ExclusiveAreaRefConditional, w)
                m(x[i].exclusive_area, f'{w}[{i}]')
        return arg, match


# kinds which stand for several constructor arguments; what to check when they are not given
GROUPS = {'*limits': lambda b: b.no_limits}

# (class, key) -> constructor argument / attribute when they differ from the key
ARG = {('MultiLanguageVerbatim', 'elements'): 'element', ('MultilanguageLongName', 'elements'): 'long_name',
       ('MultiLanguageOverviewParagraph', 'elements'): 'paragraph', ('MultiLanguageParagraph', 'elements'): 'paragraph',
       ('DocumentationBlock', 'elements'): 'element'}
ATTR = {('InternalConstraint', 'scale_constr'): 'scale_constrs', ('PhysicalConstraint', 'scale_constr'): 'scale_constrs'}


def _multi(cls, kwargs):
    """Containers whose constructor takes one entry: the others are appended"""
    rest = []
    kw = {}
    for k, v in kwargs.items():
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], str) and v[0] == 'first':
            kw[k] = v[1]
            rest = v[2]
        else:
            kw[k] = v
    obj = cls(**kw)
    for r in rest:
        obj.append(r)
    return obj


POST = {'MultiLanguageVerbatim': _multi, 'MultilanguageLongName': _multi, 'MultiLanguageOverviewParagraph': _multi,
        'MultiLanguageParagraph': _multi}
