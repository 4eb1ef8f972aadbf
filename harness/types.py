"""
Data types of the implementation model: the model and the order of types (M01), the generated C header (M02).
"""
import os
from sx.case import Case
import autosar.generator
import autosar.model
import autosar.model.element as rte
import autosar.model.enumeration as rte_enum
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
from harness.docs import Scratch

RTE_CLASS = {'base': rte.BaseType, 'scalar': rte.ScalarType, 'ref': rte.RefType, 'array': rte.ArrayType,
             'record': rte.RecordType, 'pointer': rte.PointerType}
CATEGORY = {'scalar': 'VALUE', 'ref': 'TYPE_REFERENCE', 'array': 'ARRAY', 'record': 'STRUCTURE',
            'pointer': 'DATA_REFERENCE'}


class Type:
    """What is known of one type: the oracle of the checks"""

    def __init__(self, kind, name):
        self.kind = kind
        self.name = name
        self.native = None        # of a base type
        self.target = None        # of scalar, ref and pointer
        self.members = []         # (name, Type) of a record; (None, Type) of an array
        self.dims = []
        self.emitter = None
        self.symbol = None
        self.elem = None
        self.policies = None

    def needs(self):
        """Types whose definition it needs"""
        if self.target is not None:
            return [self.target]
        return [t for _, t in self.members if t.kind != 'base']

    def emitted(self):
        if self.kind == 'base':
            return bool(self.native)
        return self.emitter in (None, 'RTE', 'rte', 'Rte')


class World:
    def __init__(self, ctx, plain=False):
        self.ctx = ctx
        self.plain = plain        # nothing symbolic but the names of implementation types
        self.types = []
        self.ws = autosar.xml.Workspace()
        self.base_pkg, self.impl_pkg, self.more_pkg = self.ws.make_packages('D/B', 'D/I', 'D/J')

    def name(self, i):
        if i < 2 and self.plain:
            return 'bc'[i]
        name = self.ctx.ident(f'name{i}', 1)
        for t in self.types:
            # C needs different names, the model only where they are in one package
            if not self.plain or self.where(t) == self.where(i):
                self.ctx.assume(self.ctx.no(self.ctx.eq(t.name, name)))
        return name

    def where(self, t):
        i = t if isinstance(t, int) else self.types.index(t)
        return 'B' if i < 2 else 'IJ'[i % 2]

    def base(self, native):
        i = len(self.types)
        t = Type('base', self.name(i))
        t.native = native
        kw = {} if native is None else {'native_declaration': native}
        t.elem = ar_element.SwBaseType(t.name, **kw)
        self.base_pkg.append(t.elem)
        self.types.append(t)
        return t

    def props(self, target):
        key = 'base_type_ref' if target.kind == 'base' else 'impl_data_type_ref'
        return ar_element.SwDataDefPropsConditional(**{key: target.elem.ref()})

    def part(self, name, target, **kw):
        return ar_element.ImplementationDataTypeElement(
            name, category='VALUE' if target.kind == 'base' else 'TYPE_REFERENCE', sw_data_def_props=self.props(target),
            **kw)

    def add(self, kind, target, more=(), emitter=None, symbol=None, dims=1, policies=False):
        """A type which depends on others"""
        ctx, i = self.ctx, len(self.types)
        t = Type(kind, self.name(i))
        t.emitter, t.symbol = emitter, symbol
        kw = {'category': CATEGORY[kind]}
        if emitter is not None:
            kw['type_emitter'] = emitter
        if symbol is not None:
            kw['symbol_props'] = ar_element.SymbolProps('Symbol', symbol)
        if kind in ('scalar', 'ref'):
            t.target = target
            kw['sw_data_def_props'] = self.props(target)
        elif kind == 'pointer':
            t.target = target
            kw['sw_data_def_props'] = ar_element.SwDataDefPropsConditional(
                ptr_target_props=ar_element.SwPointerTargetProps(
                    'VALUE' if target.kind == 'base' else 'TYPE_REFERENCE', self.props(target)))
        elif kind == 'array':
            t.members = [('E', target)]
            t.dims = [k + 2 if self.plain else ctx.int(f'size{i}_{k}', 1, 99 if k == 0 else 9) for k in range(dims)]
            subs = [ar_element.ImplementationDataTypeElement(f'D{k}', category='ARRAY', array_size=n)
                    for k, n in enumerate(t.dims[:-1])]
            extra = {}
            if policies:
                which = ctx.pick('policies', [0, 1, 2, 3])
                t.policies = [ctx.pick(f'policy{k}', list(of)) if k == which else list(of)[which % 2]
                              for k, of in enumerate((ar_enum.ArrayImplPolicy, ar_enum.ArraySizeHandling,
                                                      ar_enum.ArraySizeSemantics))]
                extra = dict(zip(('array_impl_policy', 'array_size_handling', 'array_size_semantics'), t.policies))
            kw['sub_elements'] = subs + [self.part('E', target, array_size=t.dims[-1], **extra)]
        else:
            t.members = [(f'm{k}' if self.plain else ctx.ident(f'member{i}_{k}', 1), m) for k, m in enumerate([target] + list(more))]
            for k, (name, _) in enumerate(t.members):
                for other, _ in t.members[:k]:
                    ctx.assume(ctx.no(ctx.eq(name, other)))
            kw['sub_elements'] = [self.part(name, m) for name, m in t.members]
        t.elem = ar_element.ImplementationDataType(t.name, **kw)
        (self.impl_pkg if self.where(i) == 'I' else self.more_pkg).append(t.elem)
        self.types.append(t)
        return t

    def ref(self, t):
        return '/D/' + self.where(t) + '/' + t.name

    def by_ref(self, ref):
        for t in self.types:
            if self.ctx.test(self.ctx.eq(self.ref(t), ref)):
                return t
        return None


def grow(ctx, kinds, wide=False, texts=False):
    """Two base types and a type of each kind on top of those before; returns also types to create a model from"""
    w = World(ctx, not texts)
    w.base('unsigned char' if not texts else ctx.pick('native', ['unsigned char', 'T' + ctx.ident('tn', 1)]))
    w.base(ctx.pick('no native', [None, '']) if wide else None)
    last = len(kinds) + 1
    plans = [([last], None, None), ([last, last], None, None)]
    plans += [([i, last], None, None) for i in range(1, last)]
    if last > 3:
        plans.append((list(range(2, last + 1)), None, None))
    if not wide:
        plans += [([last], i, ['Other', 'rte'][i % 2]) for i in range(len(kinds))]
    else:
        plans += [(s, i, e) for s in ([last], [2, last]) for i in range(len(kinds)) for e in ('RTE', 'rte', 'Other')]
    sources, who, emitter = ctx.pick('plan', plans)
    for i, kind in enumerate(kinds):
        if kind == 'scalar':
            options = w.types[:2]
        elif kind == 'ref':
            options = w.types[2:]
        elif wide or i == 0:
            options = w.types
        else:
            options = w.types[:1] + w.types[2:]
        target = ctx.pick(f'target{i}', options)
        more = []
        if kind == 'record':
            second = ctx.pick(f'second{i}', [None, w.types[-1]] + ([w.types[0]] if wide else []))
            more = [] if second is None else [second]
            if second is not None and i > 0 and second is not target and ctx.flag(f'second first{i}'):
                target, more = second, [target]
        dims = ctx.pick(f'dims{i}', [1, 2, 3]) if kind == 'array' and wide else 1 + (i + len(kinds)) % 2
        w.add(kind, target, more, emitter if who == i else None, dims=dims)
    return w, [w.types[i] for i in sources]


def closure(types):
    out = []
    todo = list(types)
    while todo:
        t = todo.pop()
        if not any(t is o for o in out):
            out.append(t)
            todo += t.needs()
    return out


def created(ctx, w, order, forms):
    """A model for the types chosen"""
    model = autosar.model.ImplementationModel(w.ws)
    made = []
    for i, t in enumerate(order):
        form = forms[i % len(forms)]
        if form == 'element':
            made.append(model.create_from_element(t.elem))
        elif form == 'ref':
            made.append(model.create_from_ref(t.elem.ref()))
        else:
            made.append(model.create_from_ref(w.ref(t)))
    return model, made


def t_order(ctx, kinds, wide=False):
    """Every type the sources need is there once and after those it needs"""
    w, sources = grow(ctx, kinds, wide)
    ordered(ctx, w, sources, wide)


def t_city_order(ctx, plan):
    """The same for many types"""
    ordered(ctx, *city(ctx, plan))


def t_city_text(ctx, plan):
    """The definitions of many types"""
    w, sources = city(ctx, plan)
    model, _ = created(ctx, w, sources, ['element'])
    checked(ctx, w, sources, autosar.generator.TypeGenerator(model).write_type_defs_str())
    ctx.reach('end')


class City(World):
    """Names which sort in another order than that of the types; one of them is symbolic"""

    def __init__(self, ctx, at):
        super().__init__(ctx, True)
        self.at = at
        self.special = ctx.ident('special', 1)

    def name(self, i):
        return self.special if i == self.at else f'{"TtS"[i % 3]}y{(i * 7) % 20}'


def city(ctx, plan):
    w = City(ctx, ctx.pick('at', [0, 2, 6, 13]))
    w.base('unsigned char')
    w.base('float')
    if plan == 'tower':
        # each on top of the one before
        for i in range(12):
            kind = ['scalar', 'array', 'record', 'ref'][i % 4 if i < 4 else 1 + i % 3]
            w.add(kind, w.types[-1 if i else 0], [w.types[i % 2]] if kind == 'record' else [], dims=1 + i % 2)
    elif plan == 'wide':
        # a record of many members, each of a type of its own
        for i in range(9):
            w.add(['scalar', 'array', 'record'][i % 3], w.types[i % 2])
        w.add('record', w.types[10], w.types[9:1:-1] + [w.types[0], w.types[5], w.types[10]])
        w.add('array', w.types[-1])
        w.add('record', w.types[5], [w.types[-1], w.types[2]])
    else:
        # every type needs all those before
        w.add('scalar', w.types[0])
        for i in range(6):
            w.add('record', w.types[-1], w.types[2:-1] + [w.types[1]])
        for i in range(5):
            w.add('array', w.types[3 + i])
    last = len(w.types)
    picks = {'all': range(2, last), 'reverse': range(last - 1, 1, -1), 'top': [last - 1],
             'some': [9, 3, last - 1, 12, 5, 4], 'twice': [4, last - 1, 4, 11]}
    return w, [w.types[i] for i in picks[ctx.pick('sources', list(picks))]]


def ordered(ctx, w, sources, wide=False):
    model, _ = created(ctx, w, sources, ['element'])
    if wide:
        others = [t for t in w.types if not any(t is s for s in sources)]
        if others:
            t = ctx.pick('no source', [None] + others)
            if t is not None:
                model.create_from_element(t.elem, False)
    gen = autosar.generator.TypeGenerator(model)
    got = gen.gen_data_type_creation_order()
    want = [t for t in closure(sources) if t.emitted()]
    ctx.check(len(got) == len(want), 'number of types')
    found = []
    for obj in got:
        t = w.by_ref(obj.ref)
        ctx.check(t is not None and any(t is o for o in want), 'type not asked for')
        ctx.check(not any(t is o for o in found), 'type twice')
        ctx.check(type(obj) is RTE_CLASS[t.kind] and ctx.test(ctx.eq(obj.name, t.name)), 'class and name')
        for need in t.needs():
            if need.emitted():
                ctx.check(any(need is o for o in found), 'needed type comes later')
        found.append(t)
    again = gen.gen_data_type_creation_order()
    ctx.check(len(again) == len(got) and all(a is b for a, b in zip(again, got)), 'other order when asked again')
    turned, _ = created(ctx, w, sources[::-1], ['name', 'ref'])
    back = autosar.generator.TypeGenerator(turned).gen_data_type_creation_order()
    ctx.check(len(back) == len(got), 'order of creation changes the number of types')
    for a, b in zip(got, back):
        ctx.check(ctx.eq(a.ref, b.ref), 'order of creation changes the order of types')
    ctx.reach('end')


def agree(ctx, w, model, obj, t):
    """The object of the model says what the element says"""
    ctx.check(type(obj) is RTE_CLASS[t.kind], 'class')
    ctx.check(ctx.eq(obj.name, t.name) and ctx.eq(obj.ref, w.ref(t)), 'name and reference')
    if t.kind == 'base':
        ctx.check((obj.native_declaration or None) is (t.native or None) or
                  ctx.eq(obj.native_declaration, t.native), 'native declaration')
        return
    ctx.check(obj.type_emitter is None if t.emitter is None else ctx.eq(obj.type_emitter, t.emitter), 'type emitter')
    ctx.check(ctx.eq(obj.symbol_name, t.name if t.symbol is None else t.symbol), 'symbol')
    if t.target is not None:
        inner = {'scalar': 'base_type', 'ref': 'impl_type', 'pointer': 'target_type'}[t.kind]
        ctx.check(getattr(obj, inner) is model.create_from_element(t.target.elem, False), 'target type')
        return
    subs = obj.sub_elements
    names = [f'D{k}' for k in range(len(t.dims) - 1)] + [n for n, _ in t.members]
    ctx.check(len(subs) == len(names), 'number of sub elements')
    for sub, name in zip(subs, names):
        ctx.check(ctx.eq(sub.name, name) and ctx.eq(sub.ref, w.ref(t) + '/' + name), 'name of sub element')
    for sub, (name, target) in zip(subs[len(subs) - len(t.members):], t.members):
        inner = sub.data_type
        if target.kind == 'base':
            ctx.check(type(inner) is rte.ScalarType, 'class of sub element')
            inner = inner.base_type
        else:
            ctx.check(type(inner) is rte.RefType, 'class of sub element')
            inner = inner.impl_type
        ctx.check(inner is model.create_from_element(target.elem, False), 'type of sub element')
    if t.dims:
        for sub, size in zip(subs, t.dims):
            ctx.check(ctx.eq(sub.array_size, size), 'array size')
        if t.policies:
            last = subs[-1]
            for have, want, of in zip((last.impl_policy, last.size_handling, last.size_semantics), t.policies,
                                      (rte_enum.ArrayImplPolicy, rte_enum.ArraySizeHandling,
                                       rte_enum.ArraySizeSemantics)):
                ctx.check(have is of[want.name], 'array property')


def t_model(ctx, kind, on, deep=False):
    """One object per type, which agrees with its element"""
    w = World(ctx)
    w.base(ctx.pick('native', ['unsigned char', 'T' + ctx.ident('tn', 1)]))
    w.base(None)
    extra = ['none', 'symbol', 'emitter', 'all'] + (['policies', 'dims'] if kind == 'array' else [])
    extra = ctx.pick('extra', extra) if kind != 'base' else 'none'
    if on != 'base':
        w.add(on, ctx.pick('inner', w.types[:2]))
    if kind != 'base':
        options = w.types[:2] if kind == 'scalar' else w.types[2:] if kind == 'ref' else w.types
        target = ctx.pick('target', options)
        more = []
        if kind == 'record':
            more = [m for m in [ctx.pick(f'more{k}', [None] + w.types) for k in range(2 if deep else 1)]
                    if m is not None]
        symbol = ctx.ident('symbol', 2) if extra in ('symbol', 'all') else None
        emitter = None
        if extra in ('emitter', 'all'):
            emitter = ctx.pick('emitter', ['RTE', 'X' + ctx.ident('te', 1)])
        w.add(kind, target, more, emitter, symbol, dims=ctx.pick('dims', [1, 2, 3]) if extra == 'dims' else 2,
              policies=extra in ('policies', 'all'))
    t = w.types[-1]
    model, (obj,) = created(ctx, w, [t], [ctx.pick('form', ['element', 'ref', 'name'])])
    ctx.check(model.create_from_element(t.elem, False) is obj, 'other object when created again')
    ctx.check(model.create_from_ref(t.elem.ref()) is obj, 'other object by reference')
    agree(ctx, w, model, obj, t)
    for need in closure([t]):
        agree(ctx, w, model, model.create_from_element(need.elem, False), need)
    ctx.reach('end')


def t_dangling(ctx, kind):
    """Types which are not there are refused"""
    w = World(ctx)
    w.base('int')
    w.add('scalar', w.types[0])
    gone = ctx.ident('gone', 1)
    model = autosar.model.ImplementationModel(w.ws)
    if kind == 'direct':
        ref = ctx.pick('where', ['/D/I/', '/D/B/', '/D/', '/'])
        path = ref + gone
        taken = [w.ref(t) for t in w.types] + ['/D', '/D/I', '/D/J', '/D/B']
        ctx.assume(ctx.no(ctx.any([ctx.eq(path, p) for p in taken])))
        call = lambda: model.create_from_ref(path)
    else:
        lost = ar_element.SwBaseType(gone) if kind == 'scalar' else \
            ar_element.ImplementationDataType(gone, category='VALUE')
        box = w.ws.create_package('Gone')
        box.append(lost)
        target = Type('base' if kind == 'scalar' else 'scalar', gone)
        target.elem = lost
        t = w.add(kind, target)
        box.elements.clear()
        box.collection_map.clear() if hasattr(box, 'collection_map') else None
        box._collection_map.clear() if hasattr(box, '_collection_map') else None
        if w.ws.find('/Gone/' + gone) is not None:
            ctx.reach('end')
            return
        call = lambda: model.create_from_element(t.elem)
    try:
        call()
        ctx.fail('missing type accepted')
    except KeyError:
        pass
    ctx.reach('end')


# ---- M02


def squeeze(text):
    """White space that means nothing in C removed"""
    text = ' '.join(text.split())
    for mark in ('{', '}', '[', ']', ';', '(', ')'):
        text = text.replace(' ' + mark, mark).replace(mark + ' ', mark)
    return text


def statements(text):
    """Declarations at top level"""
    out, part, depth = [], '', 0
    for piece in squeeze(text).split(';'):
        depth += piece.count('{') - piece.count('}')
        part = piece if part == '' else part + ';' + piece
        if depth == 0:
            if part != '':
                out.append(part)
            part = ''
    return out, part


def inline(t):
    """Name of a type as a member: base types by their native declaration"""
    return (t.native or t.name) if t.kind == 'base' else t.name


def declared(t):
    """C declarations of a type"""
    if t.kind == 'base':
        return [f'typedef {t.native} {t.name}']
    if t.target is not None:
        return [f'typedef {t.target.name} {t.name}']
    if t.kind == 'array':
        dims = ''.join('[' + str(n) + ']' for n in t.dims)
        return [f'typedef {inline(t.members[0][1])} {t.name}{dims}']
    body = ''.join(inline(m) + ' ' + name + ';' for name, m in t.members)
    return [f'struct Rte_struct_{t.name}' + '{' + body + '}', f'typedef struct Rte_struct_{t.name} {t.name}']


def checked(ctx, w, sources, text):
    """The text declares what it must, in an order C accepts"""
    want = []
    for t in closure(sources):
        if t.emitted():
            for k, line in enumerate(declared(t)):
                want.append((t, k, line))
    got, rest = statements(text)
    ctx.check(rest == '', 'unfinished declaration')
    ctx.check(len(got) == len(want), 'number of declarations')
    done = []
    for line in got:
        hit = [x for x in want if ctx.test(ctx.eq(x[2], line))]
        ctx.check(len(hit) == 1, 'wrong declaration')
        t, k, _ = hit[0]
        ctx.check(not any(t is d and k == e for d, e in done), 'declared twice')
        if k == 1:
            ctx.check(any(t is d and e == 0 for d, e in done), 'typedef before its struct')
        for need in t.needs():
            if need.emitted():
                last = len(declared(need)) - 1
                ctx.check(any(need is d and e == last for d, e in done), 'used before it is declared')
        done.append((t, k))


def t_text(ctx, kinds, wide=False):
    """The type definitions"""
    w, sources = grow(ctx, kinds, wide, texts=True)
    model, _ = created(ctx, w, sources, ['element'])
    gen = autosar.generator.TypeGenerator(model)
    text = gen.write_type_defs_str()
    checked(ctx, w, sources, text)
    ctx.check(ctx.eq(gen.write_type_defs_str(), text), 'other text when written again')
    ctx.reach('end')


def preprocessed(ctx, text, defined):
    """Includes and remaining text after conditionals have been decided"""
    out, includes, stack, defs = [], [], [], set(defined)
    for line in text.split('\n'):
        s = line.strip()
        at = s.find('//')
        if at >= 0:
            s = s[:at].strip()
        if s.startswith('#'):
            words = s[1:].split()
            if words[0] in ('ifndef', 'ifdef'):
                stack.append((words[1] in defs) == (words[0] == 'ifdef'))
            elif words[0] == 'endif':
                ctx.check(len(stack) > 0, '#endif without #if')
                stack.pop()
            elif all(stack):
                if words[0] == 'define':
                    defs.add(words[1])
                elif words[0] == 'include':
                    includes.append(words[1])
        elif all(stack):
            out.append(s)
    ctx.check(not stack, '#if without #endif')
    body = '\n'.join(out)
    while '/*' in body:
        at = body.index('/*')
        body = body[:at] + body[body.index('*/', at) + 2:]
    return body, includes, defs


def t_header(ctx, kinds, wide=False):
    """The whole header"""
    w, sources = grow(ctx, kinds, wide, texts=True)
    model, _ = created(ctx, w, sources, ['element'])
    gen = autosar.generator.TypeGenerator(model)
    text = gen.write_type_header_str()
    body, includes, defs = preprocessed(ctx, text, [])
    ctx.check(includes in (['"Rte.h"'], ['<Rte.h>']), 'includes')
    checked(ctx, w, sources, body)
    cpp, _, _ = preprocessed(ctx, text, ['__cplusplus'])
    flat = squeeze(cpp)
    ctx.check(flat.startswith('extern "C"{') and flat.endswith('}'), 'extern "C" for C++')
    checked(ctx, w, sources, flat[len('extern "C"{'):-1])
    guards = [d for d in defs if d != '__cplusplus']
    ctx.check(len(guards) == 1, 'include guard')
    ctx.check(squeeze(preprocessed(ctx, text, guards)[0]) == '', 'content when included again')
    with Scratch() as scratch:
        gen.write_type_header(scratch)
        ctx.check(os.listdir(scratch) == ['Rte_Type.h'], 'file written')
        with open(os.path.join(scratch, 'Rte_Type.h'), encoding='utf-8') as fh:
            ctx.check(ctx.eq(fh.read(), text), 'content of file')
    ctx.reach('end')


def cases(prop, tier):
    deep = tier == 'thorough'
    out = []
    kinds = ['scalar', 'array', 'record', 'ref']
    if prop == 'M01':
        for a in kinds[:3]:
            for b in kinds:
                for c in kinds:
                    if not deep:
                        out.append(Case(f'order:{a}:{b}:{c}', t_order, kinds=[a, b, c]))
                    else:
                        out.append(Case(f'order:{a}:{b}:{c}', t_order, kinds=[a, b, c], wide=True))
                        for d in kinds:
                            out.append(Case(f'order:{a}:{b}:{c}:{d}', t_order, kinds=[a, b, c, d]))
        for kind in ['base'] + kinds + ['pointer']:
            for on in ['base', 'scalar', 'array', 'record'] if kind not in ('base', 'scalar') else ['base']:
                if kind != 'ref' or on != 'base':
                    out.append(Case(f'model:{kind}:{on}', t_model, kind=kind, on=on, deep=deep))
        out += [Case(f'city:{k}', t_city_order, plan=k) for k in ('tower', 'wide', 'all')]
        out += [Case(f'dangling:{k}', t_dangling, kind=k) for k in ('direct', 'scalar', 'ref')]
    else:
        out += [Case(f'city:{k}', t_city_text, plan=k) for k in ('tower', 'wide', 'all')]
        for a in kinds[:3]:
            out.append(Case(f'header:{a}', t_header, kinds=[a], wide=deep))
            for b in kinds:
                out.append(Case(f'text:{a}:{b}', t_text, kinds=[a, b], wide=deep))
                if deep:
                    out.append(Case(f'header:{a}:{b}', t_header, kinds=[a, b], wide=True))
                out += [Case(f'text:{a}:{b}:{c}', t_text, kinds=[a, b, c]) for c in (kinds if deep else ['record'] if a == 'record' else [])]
    return out
