"""
Checks and conveniences of the model: what constructors take and refuse (V01), Python data to value specifications
(V02), limits (V03), builders of computations, constraints, interfaces and events (V04).
"""
from sx.case import Case
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_ref
from harness import spec
from harness.build import ARG, ATTR, Builder, refs_of
from harness.docs import snapshot, same

E = ar_element
Dest = ar_enum.IdentifiableSubTypes
REFUSED = (TypeError, ValueError, AssertionError)


def refused(fn, *args, **kw):
    """Calls; returns result and exception"""
    try:
        return fn(*args, **kw), None
    except REFUSED as exc:
        return None, exc


class Odd:
    """A class the library knows nothing of"""


# ---- V01

# parameters which take any value: nothing is promised about wrong ones
OPEN = {('CompuMethod', 'int_to_phys'), ('CompuMethod', 'phys_to_int'), ('CompuMethod', 'unit_ref'),
        ('DataFilter', 'offset'), ('DataFilter', 'period'), ('SwBaseType', 'size'), ('SwBaseType', 'max_size'),
        ('SwBaseType', 'alignment'), ('SwBaseType', 'byte_order'), ('NumericalValueSpecification', 'value'),
        ('Annotation', 'label'), ('Annotation', 'text'), ('EmphasisText', 'font'), ('EmphasisText', 'type'),
        ('MultiLanguageVerbatim', 'float'), ('MultiLanguageVerbatim', 'page_wide'), ('Computation', 'compu_scales'),
        ('CompuScale', 'content'), ('CompuScale', 'desc'), ('CompuScale', 'mask'), ('ScaleConstraint', 'desc'),
        ('ScaleConstraint', 'validity'), ('InternalConstraint', 'max_gradient'), ('InternalConstraint', 'max_diff'),
        ('InternalConstraint', 'monotony'), ('PhysicalConstraint', 'max_gradient'), ('PhysicalConstraint', 'max_diff'),
        ('PhysicalConstraint', 'monotony'), ('PhysicalConstraint', 'unit_ref'), ('DataConstraintRule', 'internal'),
        ('DataConstraintRule', 'physical'), ('DataConstraintRule', 'level'), ('DataTypeMap', 'appl_data_type_ref'),
        ('DataTypeMap', 'impl_data_type_ref')}
# negative numbers are refused, other types are not looked at
NUMBERS_ONLY = {('NotAvailableValueSpecification', 'default_pattern')}

ENUMS = sorted({f.kind[2:] for cs in spec.CLASSES.values() for f in cs.fields if f.kind[:2] == 'e:'})
REFS = sorted({f.kind.split(':')[-1] for cs in spec.CLASSES.values() for f in cs.fields
               if f.kind.split(':')[-1].endswith('Ref') and f.kind.split(':')[-2:-1] in (['r'], ['rs'])})


def blank(ctx, cls_name, key, value):
    """Constructs an object with one field"""
    cs = spec.CLASSES[cls_name]
    kw = {ARG.get((cls_name, key), key): value}
    if cs.ident != '-':
        kw['name'] = 'N'
    for f in cs.fields:
        if f.required and f.key != key:
            kw[f.key] = {'*numtuple': (1,), '*constval': 1, 't': 'x'}.get(f.kind)
    return getattr(E, cls_name)(**kw)


def attr(obj, cls_name, key):
    return getattr(obj, ATTR.get((cls_name, key), key))


def must_refuse(ctx, cls_name, key, value, what):
    obj, exc = refused(blank, ctx, cls_name, key, value)
    ctx.check(exc is not None, f'{cls_name}.{key}: {what} accepted')


def other_objects(names):
    """Objects of classes which have nothing to do with those named"""
    pool = [E.Break(), E.SwTextProps(), E.SymbolProps('N'), E.Unit('N'), Odd(), 7, 'x', 2.5]
    return [o for o in pool if type(o).__name__ not in names]


def check_ref_field(ctx, cls_name, f, ref_name):
    """A reference of any class: kept with path and destination, or refused when the destination does not fit"""
    _, dests = refs_of(ref_name)
    others = [ref_name] + [n for n in REFS if n != ref_name]
    # a few classes of references: those which share a destination and those which do not
    near = [n for n in others if set(refs_of(n)[1]) & set(dests)]
    far = [n for n in others if n not in near]
    pool = near[:3] + far[:1] + far[-1:] + far[len(far) // 2:len(far) // 2 + 1]
    name = ctx.pick('class of reference', pool)
    cls, its = refs_of(name)
    inside = [d for d in its if d in dests]
    outside = [d for d in its if d not in dests]
    dest = ctx.pick('dest', inside[:1] + inside[-1:] + outside[:1] + outside[-1:])
    path = '/' + ctx.text('path', 1, 2, 'xml')
    obj, exc = refused(blank, ctx, cls_name, f.key, cls(path, dest))
    if name == ref_name:
        ctx.check(exc is None, f'{cls_name}.{f.key}: {ref_name} refused')
    if dest not in dests:
        ctx.check(exc is not None, f'{cls_name}.{f.key}: {name} to {dest.name} accepted')
    if exc is None:
        x = attr(obj, cls_name, f.key)
        ctx.check(isinstance(x, getattr(ar_ref, ref_name)), f'{cls_name}.{f.key}: not a {ref_name}')
        ctx.check(ctx.eq(x.value, path), f'{cls_name}.{f.key}: path')
        ctx.check(x.dest is dest, f'{cls_name}.{f.key}: destination')


def v01_field(ctx, cls_name):
    cs = spec.CLASSES[cls_name]
    fields = [f for f in cs.fields if f.kind[0] != '*']
    f = ctx.pick('field', fields)
    k = f.kind
    where = f'{cls_name}.{f.key}'
    open_ = (cls_name, f.key) in OPEN
    only_numbers = (cls_name, f.key) in NUMBERS_ONLY
    head, _, rest = k.partition(':')
    if k == 't':
        v = ctx.text('v', 0, 2, 'xml')
        x = attr(blank(ctx, cls_name, f.key, v), cls_name, f.key)
        ctx.check(isinstance(x, str) and ctx.eq(x, v), where)
    elif k == 'b':
        v = ctx.flag('v')
        obj = blank(ctx, cls_name, f.key, v)
        ctx.check(attr(obj, cls_name, f.key) is v, where)
        ctx.check(not obj.is_empty, where + ': object with a value is empty')
    elif k in 'iun':
        v = ctx.int('v')
        obj, exc = refused(blank, ctx, cls_name, f.key, v)
        if k == 'u' and not open_:
            ctx.check(ctx.cmp('lt' if exc is not None else 'ge', v, 0),
                      where + (': refused' if exc is not None else ': negative number accepted'))
        else:
            ctx.check(exc is None, where + ': integer refused')
        if exc is None:
            ctx.check(ctx.eq(attr(obj, cls_name, f.key), v), where)
            ctx.check(not obj.is_empty, where + ': object with a value is empty')
        if not open_ and not only_numbers:
            must_refuse(ctx, cls_name, f.key, ctx.pick('wrong', ['x', Odd()]), 'no number')
        if k == 'n':
            v = ctx.float('r', [(1, 1), (3, 1), (2, -3)], special=True)
            ctx.check(ctx.eq(attr(blank(ctx, cls_name, f.key, v), cls_name, f.key), v), where)
    elif k == 'f':
        v = ctx.float('v', [(1, 1), (3, 1), (2, -3)], special=True) if ctx.flag('float') else ctx.int('i', -99, 99)
        obj = blank(ctx, cls_name, f.key, v)
        ctx.check(ctx.eq(attr(obj, cls_name, f.key), v), where)
        ctx.check(not obj.is_empty, where + ': object with a value is empty')
        if not open_:
            must_refuse(ctx, cls_name, f.key, ctx.pick('wrong', ['x', Odd()]), 'no number')
    elif head == 'e':
        members = list(getattr(ar_enum, rest))
        i = ctx.pick('member', [0, len(members) // 2, len(members) - 1])
        obj = blank(ctx, cls_name, f.key, members[i])
        ctx.check(attr(obj, cls_name, f.key) is members[i], where)
        ctx.check(f.required or not obj.is_empty, where + ': object with a value is empty')
        if not open_:
            # the number or name of a member and members of other enumerations are not members
            form = ctx.pick('wrong', ['number', 'name', 'other', 'odd'])
            if form == 'number':
                bad = ctx.int('number', 0, len(members) - 1)
            elif form == 'name':
                bad = members[i].name
            elif form == 'odd':
                bad = Odd()
            else:
                other = ctx.pick('enum', [e for e in ENUMS if e != rest][::3])
                bad = list(getattr(ar_enum, other))[0]
            must_refuse(ctx, cls_name, f.key, bad, f'no {rest}')
    elif head in ('r', 'rs'):
        if open_:
            ctx.reach('end')
            return
        if ctx.flag('reference'):
            check_ref_field(ctx, cls_name, f, rest)
        elif ctx.flag('text'):
            # a text stands for a reference only where it has one destination
            cls, dests = refs_of(rest)
            path = '/' + ctx.text('path', 1, 2, 'xml')
            obj, exc = refused(blank, ctx, cls_name, f.key, path)
            if head == 'rs' and len(dests) == 1:
                ctx.check(exc is None, where + ': path refused')
            if exc is None:
                x = attr(obj, cls_name, f.key)
                ctx.check(isinstance(x, cls), where + f': not a {rest}')
                ctx.check(ctx.eq(x.value, path), where + ': path')
                ctx.check(x.dest in dests and len(dests) == 1, where + ': ambiguous path accepted')
        else:
            must_refuse(ctx, cls_name, f.key, ctx.pick('wrong', [7, Odd(), E.Break()]), 'no reference')
    elif head == 'o' or k == 'vs':
        names = rest.split('|') if head == 'o' else spec.VALUE_SPECS
        if head == 'o' and ctx.flag('right'):
            name = ctx.pick('class', names)
            cs2 = spec.CLASSES[name]
            kw = {'name': 'N'} if cs2.ident != '-' else {}
            if not any(g.required for g in cs2.fields):
                v = getattr(E, name)(**kw)
                obj = blank(ctx, cls_name, f.key, v)
                ctx.check(attr(obj, cls_name, f.key) is v, where)
                ctx.check(not obj.is_empty, where + ': object with a value is empty')
        elif not open_:
            pool = [o for o in other_objects(names) if k != 'vs' or type(o).__name__ in ('Break', 'Odd', 'Unit')]
            must_refuse(ctx, cls_name, f.key, ctx.pick('wrong', pool), 'object of another class')
    elif head in ('l', 's'):
        if not open_:
            inner = rest.split(':')[-1].split('|')
            pool = [o for o in other_objects(inner) if not isinstance(o, str)]
            bad = ctx.pick('wrong', pool)
            form = ctx.pick('form', ['list', 'lone'])
            must_refuse(ctx, cls_name, f.key, [bad] if form == 'list' else bad, 'object of another class')
        obj = blank(ctx, cls_name, f.key, [])
        x = attr(obj, cls_name, f.key)
        ctx.check(x is None or len(x) == 0, where + ': elements from nowhere')
    ctx.reach('end')


def member_of(ctx, ch, chars):
    return ctx.any([ctx.eq(ch, x) for x in chars])


def every(ctx, s, chars):
    return ctx.all([member_of(ctx, ch, chars) for ch in s])


DEC, OCT, HEX = '0123456789', '01234567', '0123456789abcdefABCDEF'


def v01_alignment(ctx, hi):
    s = ctx.text('v', 0, hi, 'print')
    words = ctx.any([ctx.eq(s, w) for w in ('UNSPECIFIED', 'UNKNOWN', 'BOOLEAN', 'PTR')])
    good = words
    if len(s) > 0:
        good = ctx.any([words,
                        ctx.all([member_of(ctx, s[0], DEC[1:]), every(ctx, s[1:], DEC)]),
                        ctx.all([ctx.eq(s[0], '0'), every(ctx, s[1:], OCT)])])
    if len(s) > 1:
        good = ctx.any([good, ctx.all([ctx.eq(s[0], '0'), member_of(ctx, s[1], 'xX'), every(ctx, s[2:], HEX)])])
    if len(s) > 2:
        good = ctx.any([good, ctx.all([ctx.eq(s[0], '0'), member_of(ctx, s[1], 'bB'), every(ctx, s[2:], '01')])])
    obj, exc = refused(E.SwDataDefPropsConditional, alignment=s)
    if exc is None:
        ctx.check(good, 'alignment which is none accepted')
        ctx.check(ctx.eq(obj.alignment, s), 'alignment')
    else:
        ctx.check(ctx.no(good), 'alignment refused')
    ctx.reach('end')


def v01_alignment_word(ctx, word):
    """Words with something before, after or in place of a character"""
    how = ctx.pick('how', ['before', 'after', 'in', 'right'])
    c = ctx.text('c', 1, 1, 'print')
    i = ctx.pick('at', list(range(len(word))))
    s = {'before': c + word, 'after': word + c, 'in': word[:i] + c + word[i + 1:], 'right': word}[how]
    obj, exc = refused(E.SwDataDefPropsConditional, alignment=s)
    good = ctx.eq(s, word)
    if exc is None:
        ctx.check(good, 'alignment which is none accepted')
        ctx.check(ctx.eq(obj.alignment, s), 'alignment')
    else:
        ctx.check(ctx.no(good), 'alignment refused')
    ctx.reach('end')


def display_format(ctx, s):
    """Is s a display format: % flag? digits (. digits)? conversion"""
    if len(s) < 2:
        return False
    out = []
    for flag in (0, 1):
        for dot in [None] + list(range(1 + flag, len(s) - 1)):
            if 1 + flag > len(s) - 1:
                continue
            conds = [ctx.eq(s[0], '%'), member_of(ctx, s[-1], 'diouxXfeEgGcs')]
            if flag:
                conds.append(member_of(ctx, s[1], ' -+#'))
            if dot is None:
                conds.append(every(ctx, s[1 + flag:-1], DEC))
            else:
                if dot + 1 > len(s) - 2:
                    continue
                conds += [every(ctx, s[1 + flag:dot], DEC), ctx.eq(s[dot], '.'), every(ctx, s[dot + 1:-1], DEC)]
            out.append(ctx.all(conds))
    return ctx.any(out)


def v01_display(ctx, hi):
    s = ctx.text('v', 0, hi, 'print')
    if len(s) > 2:
        ctx.assume(ctx.eq(s[0], '%'))
    good = display_format(ctx, s)
    obj, exc = refused(E.SwDataDefPropsConditional, display_format=s)
    if exc is None:
        ctx.check(good, 'display format which is none accepted')
        ctx.check(ctx.eq(obj.display_format, s), 'display format')
    else:
        ctx.check(ctx.no(good), 'display format refused')
    ctx.reach('end')


def v01_empty(ctx, cls_name):
    """An object is empty until a value is given"""
    ctx.check(getattr(E, cls_name)().is_empty, f'{cls_name}: empty object is not empty')
    ctx.reach('end')


# fields with a form of their own, and what they refuse
ALL_WRONG = ('odd', 'int', 'float', 'break', 'str', 'list', 'bytes')
WRONG = {'*deref': ALL_WRONG, '*grouplabel': ALL_WRONG, '*modeiref': ALL_WRONG, '*modes': ALL_WRONG, '*netrep': ALL_WRONG,
         '*portapi': ALL_WRONG, '*portiref': ALL_WRONG, '*pportiref': ALL_WRONG, '*rportiref': ALL_WRONG, '*props': ALL_WRONG,
         '*langs_long': ALL_WRONG, '*langs_overview': ALL_WRONG, '*langs_para': ALL_WRONG, '*langs_verb': ALL_WRONG,
         '*txack': ('odd', 'break', 'str', 'list', 'bytes'), '*msack': ('odd', 'break', 'str', 'list', 'bytes'),
         '*unitname': ('odd', 'int', 'float', 'break', 'list', 'bytes'), '*scaleconstrs': ('odd', 'float', 'break'),
         '*axisindex': ('odd', 'float', 'break', 'list', 'bytes'), '*desc': ('odd', 'int', 'float', 'break', 'bytes'),
         '*exareas': ('odd', 'int', 'float', 'break', 'list', 'bytes'),
         '*alignment': ('odd', 'float', 'break', 'list', 'bytes'), '*swvalues': ('odd', 'break', 'bytes', 'list'),
         '*groupvalues': ('odd', 'break', 'bytes', 'list')}


def v01_special(ctx, kind):
    """Fields which take several forms refuse all others"""
    cls_name, key = ctx.pick('field', [(n, f.key) for n, cs in spec.CLASSES.items() for f in cs.fields if f.kind == kind])
    what = ctx.pick('what', list(WRONG[kind]))
    if what == 'int':
        value = ctx.int('v')
    elif what == 'str':
        value = ctx.text('v', 1, 2, 'safe')
    else:
        value = {'odd': Odd(), 'float': 1.5, 'break': E.Break(), 'list': [Odd()], 'bytes': b'x'}[what]
    must_refuse(ctx, cls_name, key, value, what)
    ctx.reach('end')


# ---- V02

def data(ctx, path, depth, tag=True, wide=True, nothing=True):
    """Python data for a value and a matcher of the specification it stands for"""
    forms = ['int', 'float', 'text', 'none'] if wide or tag else ['int', 'text']
    forms = forms + (['array', 'record'] if depth else [])
    if depth > 1 and not wide:
        forms = ['array', 'record']
    form = ctx.pick(path + '?form', [f for f in forms if nothing or f != 'none'])
    label, pattern, arg = None, None, None
    shapes = ['plain', 'label'] + (['pattern'] if form == 'none' else [])
    shape = ctx.pick(path + '?shape', shapes) if tag else 'plain'
    if form == 'int':
        arg = ctx.int(path)
    elif form == 'float':
        arg = ctx.float(path, [(2, 1)], special=True)
    elif form == 'text':
        arg = ctx.text(path, 0, 1, 'xml')
    elif form in ('array', 'record'):
        words = {'array': ['A', 'aRrAy', 'ARRAY', 'a'], 'record': ['r', 'RECORD', 'R', 'Record']}[form]
        word = ctx.pick(path + '?word', words if wide else words[:2])
        n = ctx.pick(path + '?n', [0, 1, 2] if wide else [1, 2] if depth > 1 else [1])
        inner = [data(ctx, f'{path}.{i}', depth - 1, i == 0 and (wide or depth > 1), wide and depth < 2)
                 for i in range(n)]
        arg = [word] + [a for a, _ in inner]
    value = arg
    if shape != 'plain':
        label = ctx.text(path + '.label', 0, 1, 'xml')
        arg = (label, arg)
    if shape == 'pattern':
        pattern = ctx.int(path + '.pattern', 0)
        arg = arg + (pattern,)

    def match(x, w):
        cls = {'int': E.NumericalValueSpecification, 'float': E.NumericalValueSpecification,
               'text': E.TextValueSpecification, 'none': E.NotAvailableValueSpecification,
               'array': E.ArrayValueSpecification, 'record': E.RecordValueSpecification}[form]
        ctx.check(type(x) is cls, f'{w}: {type(x).__name__} made of {form}')
        if label is None:
            ctx.check(x.label is None, w + ': label from nowhere')
        else:
            ctx.check(isinstance(x.label, str) and ctx.eq(x.label, label), w + ': label')
        if form == 'none':
            ctx.check(x.default_pattern is None if pattern is None else ctx.eq(x.default_pattern, pattern),
                      w + ': default pattern')
        elif form in ('array', 'record'):
            items = x.elements if form == 'array' else x.fields
            ctx.check(len(items) == len(inner), w + ': number of elements')
            for i, (_, m) in enumerate(inner):
                m(items[i], f'{w}[{i}]')
        else:
            ctx.check(ctx.eq(x.value, value), w + ': value')
            if form == 'text':
                ctx.check(isinstance(x.value, str), w + ': value is no text')
            else:
                ctx.check(isinstance(x.value, (int, float)), w + ': value is no number')
    return arg, match


WAYS = ['make_value', 'make_constant', 'with_check', 'sender', 'receiver']


def make(way, arg, **kw):
    """Makes a specification one of the ways there are"""
    if way == 'make_value':
        return E.ValueSpecification.make_value(arg)
    if way == 'make_constant':
        return E.ConstantSpecification.make_constant('N', arg, **kw).value
    if way == 'with_check':
        return E.ValueSpecification.make_value_with_check(arg)
    if way == 'sender':
        return E.ProvidePortComSpec.make_non_queued_sender_com_spec(arg).init_value
    return E.RequirePortComSpec.make_non_queued_receiver_com_spec(arg).init_value


def v02_make(ctx, way, depth, wide):
    arg, match = data(ctx, 'v', depth, wide=wide)
    if way not in ('make_value', 'make_constant') and arg is None:
        ctx.check(make(way, None) is None, 'a value made of nothing')
    else:
        before = repr(snapshot(arg)) if isinstance(arg, list) else None
        match(make(way, arg), way)
        if before is not None:
            ctx.check(repr(snapshot(arg)) == before, 'list of the caller changed')
    ctx.reach('end')


def v02_wide(ctx, way):
    """Wide and deep data: every number in its place"""
    values = [ctx.int(f'v{i}') for i in range(13)]
    shape = ctx.pick('shape', ['array', 'record', 'rows', 'deep'])
    if shape == 'deep':
        arg = values[0]
        for i, v in enumerate(values[1:8]):
            arg = [('A', 'R')[i % 2], (f'L{i}', v), arg]
    elif shape == 'rows':
        arg = ['A'] + [['R'] + values[i:] for i in range(13)]
    else:
        arg = [shape] + [(f'L{i}', v) if i % 5 == 4 else v for i, v in enumerate(values)]

    def number(x, v, label, w):
        ctx.check(type(x) is E.NumericalValueSpecification and ctx.eq(x.value, v), w + ': number')
        ctx.check(x.label == label, w + ': label')
    x = make(way, arg)
    if shape == 'deep':
        for i, v in reversed(list(enumerate(values[1:8]))):
            ctx.check(type(x) is (E.ArrayValueSpecification, E.RecordValueSpecification)[i % 2], 'kind')
            items = x.fields if i % 2 else x.elements
            ctx.check(len(items) == 2, 'number of elements')
            number(items[0], v, f'L{i}', f'level {i}')
            x = items[1]
        number(x, values[0], None, 'innermost')
    elif shape == 'rows':
        ctx.check(type(x) is E.ArrayValueSpecification and len(x.elements) == 13, 'rows')
        for i, row in enumerate(x.elements):
            ctx.check(type(row) is E.RecordValueSpecification and len(row.fields) == 13 - i, 'row')
            for y, v in zip(row.fields, values[i:]):
                number(y, v, None, f'row {i}')
    else:
        ctx.check(type(x) is (E.ArrayValueSpecification if shape == 'array' else E.RecordValueSpecification), 'kind')
        items = x.elements if shape == 'array' else x.fields
        ctx.check(len(items) == 13, 'number of elements')
        for i, (y, v) in enumerate(zip(items, values)):
            number(y, v, f'L{i}' if i % 5 == 4 else None, f'element {i}')
    ctx.reach('end')


def v02_constant(ctx):
    """Constants keep name and common parts"""
    name = ctx.ident('name', 2)
    category = ctx.text('category', 1, 2, 'xml')
    v = ctx.int('v')
    c = E.ConstantSpecification.make_constant(name, ('L', v), category=category)
    ctx.check(type(c) is E.ConstantSpecification and ctx.eq(c.name, name) and ctx.eq(c.category, category), 'constant')
    ctx.check(type(c.value) is E.NumericalValueSpecification and c.value.label == 'L', 'value')
    ctx.check(ctx.eq(c.value.value, v), 'number')
    ctx.reach('end')


def v02_same(ctx, way):
    """Specifications are kept, references to constants wrapped"""
    form = ctx.pick('form', ['ConstantRef'] + spec.VALUE_SPECS)
    path = '/' + ctx.text('path', 1, 2, 'xml')
    if form == 'ConstantRef':
        arg = ar_ref.ConstantRef(path)
        x = make(way, arg)
        ctx.check(type(x) is E.ConstantReference, 'no ConstantReference')
        ctx.check(x.label is None, 'label from nowhere')
        ctx.check(isinstance(x.constant_ref, ar_ref.ConstantRef) and ctx.eq(x.constant_ref.value, path), 'reference')
    else:
        arg = getattr(E, form)(label=path)
        x = make(way, arg)
        ctx.check(x is arg, 'specification replaced')
    ctx.reach('end')


def v02_wrong(ctx, way):
    """Data which stands for nothing"""
    form = ctx.pick('form', ['object', 'word', 'number first', 'label', 'long', 'inner object', 'inner word', 'pattern',
                             'dict'])
    if form == 'object':
        arg = Odd()
    elif form == 'dict':
        arg = {'a': 1}
    elif form in ('word', 'inner word'):
        word = ctx.text('word', 0, 5, 'letters')
        for right in ('A', 'ARRAY', 'R', 'RECORD'):
            if len(word) == len(right):
                ctx.assume(ctx.no(ctx.all([member_of(ctx, c, r + r.lower()) for c, r in zip(word, right)])))
        arg = [word, 1] if form == 'word' else ['A', [word, 1]]
    elif form == 'number first':
        arg = [ctx.int('v'), 2]
    elif form == 'label':
        arg = (ctx.int('v'), 2)
    elif form == 'long':
        arg = ('a', None, 1, ctx.int('v'))
    elif form == 'inner object':
        arg = [ctx.pick('word', ['A', 'R']), 1, Odd()]
    else:
        arg = ('a', None, ctx.int('v', None, -1))
    x, exc = refused(make, way, arg)
    ctx.check(exc is not None, f'{form}: accepted')
    ctx.reach('end')


# ---- V03

LIMITS = {'InternalConstraint': E.InternalConstraint, 'PhysicalConstraint': E.PhysicalConstraint,
          'ScaleConstraint': E.ScaleConstraint}
Kind = ar_enum.IntervalType


def number(ctx, name, real, special=False):
    if real:
        return ctx.float(name, [(1, 1), (2, 1), (2, 0), (3, 3)], special=special)
    return ctx.int(name)


def v03_large(ctx, cls):
    """Integers which are too near to one another for a double to tell"""
    base = ctx.pick('base', [2 ** 53, -2 ** 53, 10 ** 18])
    kw, conds = {}, []
    x = ctx.int('value', base - 2, base + 3)
    for key, less, le in (('lower', 'gt', 'ge'), ('upper', 'lt', 'le')):
        closed = ctx.flag(key + ' closed')
        v = ctx.int(key, base - 2, base + 3)
        kw[key + '_limit'] = v
        kw[key + '_limit_type'] = Kind.CLOSED if closed else Kind.OPEN
        conds.append(ctx.cmp(le if closed else less, x, v))
    inside = ctx.all(conds)
    got = LIMITS[cls](**kw).check_value(x)
    ctx.check(got is True or got is False, 'no truth value')
    ctx.check(inside if got else ctx.no(inside), 'inside' if got else 'outside')
    ctx.reach('end')


def v03_inside(ctx, cls, lower, upper, value):
    """lower, upper, value: 'i' integer, 'f' float, '-' no limit, 'inf' infinite"""
    kw = {}
    ends = {}
    for key, form in (('lower', lower), ('upper', upper)):
        closed = ctx.flag(key + ' closed')
        kw[key + '_limit_type'] = Kind.CLOSED if closed else Kind.OPEN
        if form == '-':
            ends[key] = True
            continue
        if form == 'inf':
            v = float('-inf' if key == 'lower' else 'inf')
        else:
            v = number(ctx, key, form == 'f')
        kw[key + '_limit'] = v
        ends[key] = (v, closed)
    x = number(ctx, 'value', value == 'f')
    obj = LIMITS[cls](**kw)
    conds = []
    for key, less, le in (('lower', 'gt', 'ge'), ('upper', 'lt', 'le')):
        if ends[key] is not True:
            v, closed = ends[key]
            conds.append(ctx.cmp(le if closed else less, x, v))
    inside = ctx.all(conds)
    got = obj.check_value(x)
    ctx.check(got is True or got is False, 'no truth value')
    ctx.check(inside if got else ctx.no(inside), 'inside' if got else 'outside')
    ctx.reach('end')


# ---- V04

def v04_table(ctx, deep):
    """Computation.make_value_table"""
    n = ctx.pick('n', [0, 1, 2, 3] if deep else [0, 1, 2])
    auto = ctx.pick('auto_label', [None, True, False])
    elems, want = [], []
    for i in range(n):
        form = ctx.pick(f'form{i}', ['text', 'two', 'three', 'number'])
        text = ctx.text(f't{i}', 0 if i == 0 else 1, 1, 'xml')
        if form == 'text':
            elems.append(text)
            want.append((i, i, text))
        elif form == 'two':
            v = ctx.int(f'v{i}')
            elems.append((v, text))
            want.append((v, v, text))
        elif form == 'three':
            lo, hi = ctx.int(f'lo{i}'), ctx.int(f'hi{i}')
            elems.append((lo, hi, text))
            want.append((lo, hi, text))
        else:
            lo, value = ctx.int(f'v{i}'), ctx.int(f'w{i}')
            elems.append((lo, value))
            want.append((lo, lo, value))
    kw = {}
    if auto is not None:
        kw['auto_label'] = auto
    default = ctx.pick('default', ['none', 'number', 'text', 'object'])
    dv = None
    if default == 'number':
        dv = kw['default_value'] = ctx.int('d')
    elif default == 'text':
        dv = kw['default_value'] = ctx.text('dt', 0, 1, 'xml')
    elif default == 'object':
        dv = ctx.int('d')
        kw['default_value'] = E.CompuConst(dv)
    count = len(elems)
    comp = E.Computation.make_value_table(elems, **kw)
    ctx.check(len(elems) == count, 'list of the caller changed')
    ctx.check(type(comp) is E.Computation, 'no computation')
    scales = comp.compu_scales or []
    ctx.check(len(scales) == n, 'number of scales')
    for i, (lo, hi, v) in enumerate(want):
        s = scales[i]
        ctx.check(type(s) is E.CompuScale and type(s.content) is E.CompuConst, 'kind of scale')
        ctx.check(ctx.eq(s.lower_limit, lo), f'lower limit {i}')
        ctx.check(ctx.eq(s.upper_limit, hi), f'upper limit {i}')
        ctx.check(s.lower_limit_type is Kind.CLOSED and s.upper_limit_type is Kind.CLOSED, f'kind of limits {i}')
        ctx.check(ctx.eq(s.content.value, v), f'value {i}')
        if auto is not False and isinstance(v, str):
            ctx.check(isinstance(s.label, str) and ctx.eq(s.label, v), f'label {i}')
        else:
            ctx.check(s.label is None, f'label {i} from nowhere')
        ctx.check(s.symbol is None and s.mask is None and s.inverse_value is None and s.desc is None, f'extra {i}')
    check_default(ctx, comp, dv)
    ctx.reach('end')


def check_default(ctx, comp, dv):
    if dv is None:
        ctx.check(comp.default_value is None, 'default value from nowhere')
    else:
        ctx.check(type(comp.default_value) is E.CompuConst and ctx.eq(comp.default_value.value, dv), 'default value')


def v04_table_wrong(ctx):
    good = ctx.pick('before', [[], ['a'], [(1, 'b')]])
    v = ctx.int('v')
    bad = ctx.pick('bad', ['number', 'one', 'four', 'list', 'odd'])
    elem = {'number': v, 'one': (v,), 'four': (v, v, 'a', 'b'), 'list': [v, 'a'], 'odd': Odd()}[bad]
    _, exc = refused(E.Computation.make_value_table, good + [elem])
    ctx.check(exc is not None, f'{bad}: accepted')
    ctx.reach('end')


def v04_rational(ctx, real):
    """Computation.make_rational: physical = offset + factor * internal"""
    kw, want = {}, {'scaling_factor': 1, 'offset': 0}
    for key in ('scaling_factor', 'offset'):
        if ctx.flag(key + '?'):
            kw[key] = want[key] = number(ctx, key, real) if real else ctx.int(key, -10 ** 6, 10 ** 6)
    limits = {'lower_limit': None, 'upper_limit': None}
    types = {'lower_limit_type': Kind.CLOSED, 'upper_limit_type': Kind.CLOSED}
    which = ctx.pick('limits', ['none', 'lower', 'upper', 'both'])
    for key in limits:
        if which in (key[:5], 'both'):
            kw[key] = limits[key] = ctx.int(key)
            types[key + '_type'] = ctx.pick(key + ' type', [Kind.CLOSED, Kind.OPEN])
            kw[key + '_type'] = types[key + '_type']
    dv = None
    if which == 'both':
        dv = kw['default_value'] = ctx.int('default')
    comp = E.Computation.make_rational(**kw)
    ctx.check(type(comp) is E.Computation and len(comp.compu_scales) == 1, 'one scale')
    s = comp.compu_scales[0]
    ctx.check(type(s) is E.CompuScale and type(s.content) is E.CompuRational, 'kind of scale')
    num, den = s.content.numerator, s.content.denominator
    ctx.check(len(num) == 2 and len(den) == 1, 'degree')
    ctx.check(ctx.eq(num[0], want['offset']), 'offset')
    ctx.check(ctx.eq(num[1], want['scaling_factor']), 'factor')
    ctx.check(ctx.eq(den[0], 1), 'denominator')
    for key in limits:
        x = getattr(s, key)
        ctx.check(x is None if limits[key] is None else ctx.eq(x, limits[key]), key)
        ctx.check(getattr(s, key + '_type') is types[key + '_type'], key + ' type')
    check_default(ctx, comp, dv)
    ctx.reach('end')


def v04_constraint(ctx, kind):
    """DataConstraint.make_internal, make_physical"""
    b = Builder(ctx)
    cls = {'internal': 'InternalConstraint', 'physical': 'PhysicalConstraint'}[kind]
    fields = spec.CLASSES[cls].fields
    name = ctx.ident('name', 1)
    keys = ctx.sub('fields', [f.key for f in fields], 1, 2)
    kw, ms = {}, []
    for f in fields:
        if f.key in keys:
            arg, m = b.val(f.kind, f.key, 'lite', 1)
            if f.kind == '*limits':
                kw.update(arg)
                ms.append(m)
            else:
                kw[f.key] = arg
                key = ATTR.get((cls, f.key), f.key)
                ms.append(lambda x, w, m=m, key=key: m(getattr(x, key), f'{w}.{key}'))
        elif f.kind == '*limits':
            ms.append(b.no_limits)
        else:
            key = ATTR.get((cls, f.key), f.key)
            ms.append(lambda x, w, key=key: b.absent(getattr(x, key), f'{w}.{key}'))
    c = getattr(E.DataConstraint, 'make_' + kind)(name, category='C', **kw)
    ctx.check(type(c) is E.DataConstraint and ctx.eq(c.name, name) and c.category == 'C', 'constraint')
    ctx.check(len(c.rules) == 1, 'one rule')
    rule = c.rules[0]
    mine, other = (rule.internal, rule.physical) if kind == 'internal' else (rule.physical, rule.internal)
    ctx.check(other is None and rule.level is None, 'other constraint from nowhere')
    ctx.check(type(mine).__name__ == cls, 'kind of constraint')
    for m in ms:
        m(mine, cls)
    ctx.reach('end')


def prototype_args(ctx, b, cls, skip=()):
    """Arguments of a prototype: one or two fields"""
    fields = [f for f in spec.CLASSES[cls].fields if f.key not in skip]
    keys = ctx.sub('fields', [f.key for f in fields], 0, 2)
    kw, ms = {}, []
    for f in fields:
        key = ATTR.get((cls, f.key), f.key)
        if f.key in keys:
            kw[f.key], m = b.val(f.kind, f.key, 'mark' if len(keys) == 2 and f.key == keys[1] else 'lite', 1)
            ms.append((key, m))
        else:
            ms.append((key, b.absent))
    return kw, ms


# interface, method, list, class of the element, destination, fields set by the method
CREATE = {'SR': ('SenderReceiverInterface', 'create_data_element', 'data_elements', 'VariableDataPrototype', {}),
          'NV': ('NvDataInterface', 'create_data_element', 'data_elements', 'VariableDataPrototype', {}),
          'PRM': ('ParameterInterface', 'create_parameter', 'parameters', 'ParameterDataPrototype', {}),
          'CS': ('ClientServerInterface', 'create_operation', 'operations', 'ClientServerOperation', {}),
          'error': ('ClientServerInterface', 'create_possible_error', 'possible_errors', 'ApplicationError', {}),
          'MS': ('ModeSwitchInterface', 'create_mode_group', 'mode_group', 'ModeDeclarationGroupPrototype', {}),
          'mode': ('ModeDeclarationGroup', 'create_mode_declaration', 'mode_declarations', 'ModeDeclaration', {}),
          'arg': ('ClientServerOperation', 'create_argument', 'arguments', 'ArgumentDataPrototype', {}),
          'in': ('ClientServerOperation', 'create_in_argument', 'arguments', 'ArgumentDataPrototype',
                 {'direction': ar_enum.ArgumentDirection.IN}),
          'inout': ('ClientServerOperation', 'create_inout_argument', 'arguments', 'ArgumentDataPrototype',
                    {'direction': ar_enum.ArgumentDirection.INOUT}),
          'out': ('ClientServerOperation', 'create_out_argument', 'arguments', 'ArgumentDataPrototype',
                  {'direction': ar_enum.ArgumentDirection.OUT}),
          'area': ('SwcInternalBehavior', 'create_exclusive_area', 'exclusive_areas', 'ExclusiveArea', {})}
ITEM_REF = {'VariableDataPrototype': (ar_ref.VariableDataPrototypeRef, Dest.VARIABLE_DATA_PROTOTYPE),
            'ParameterDataPrototype': (ar_ref.ParameterDataPrototypeRef, Dest.PARAMETER_DATA_PROTOTYPE),
            'ClientServerOperation': (ar_ref.ClientServerOperationRef, Dest.CLIENT_SERVER_OPERATION),
            'ApplicationError': (ar_ref.ApplicationErrorRef, Dest.APPLICATION_ERROR),
            'ModeDeclarationGroupPrototype': (ar_ref.ModeDeclarationGroupPrototypeRef,
                                              Dest.MODE_DECLARATION_GROUP_PROTOTYPE),
            'ModeDeclaration': (ar_ref.ModeDeclarationRef, Dest.MODE_DECLARATION),
            'ArgumentDataPrototype': (ar_ref.ArgumentDataPrototypeRef, Dest.ARGUMENT_DATA_PROTOTYPE),
            'ExclusiveArea': (ar_ref.ExclusiveAreaRef, Dest.EXCLUSIVE_AREA)}


def v04_create(ctx, what, deep):
    """The methods which add an element to its container"""
    owner, method, items, cls, preset = CREATE[what]
    b = Builder(ctx)
    ws = autosar.xml.Workspace()
    pkg = ws.make_packages('/P')
    top = obj = getattr(E, owner)('O')
    base = '/P/O/'
    if owner == 'ClientServerOperation':
        top = E.ClientServerInterface('I')
        top.append_operation(obj)
        base = '/P/I/O/'
    elif owner == 'SwcInternalBehavior':
        top = E.ApplicationSoftwareComponentType('I')
        obj = top.create_internal_behavior('O')
        base = '/P/I/O/'
    late = ctx.flag('package last')
    if not late:
        pkg.append(top)
    n1 = ctx.ident('n1', 2)
    n2 = ctx.ident('n2', 1)
    ctx.assume(ctx.no(ctx.eq(n1, n2)))
    kw, ms = prototype_args(ctx, b, cls, preset)
    single = items == 'mode_group'
    first = getattr(obj, method)(n1) if ctx.flag('other first') else None
    made = getattr(obj, method)(n2, **kw)
    last = getattr(obj, method)(n1) if first is None and not single and ctx.flag('other last') else None
    if late:
        pkg.append(top)
    ctx.check(type(made) is getattr(E, cls), 'class of the element')
    ctx.check(ctx.eq(made.name, n2), 'name')
    for key, m in ms:
        m(getattr(made, key), f'{cls}.{key}')
    for key, v in preset.items():
        ctx.check(getattr(made, key) is v, f'{cls}.{key}')
    want = [e for e in (first, made, last) if e is not None]
    if single:
        ctx.check(obj.mode_group is made, 'mode group')
    else:
        have = getattr(obj, items)
        ctx.check(len(have) == len(want), 'number of elements')
        for h, w in zip(have, want):
            ctx.check(h is w, 'elements')
        for other in CREATE.values():
            if other[0] == owner and other[2] != items:
                ctx.check(len(getattr(obj, other[2])) == 0, f'{other[2]} from nowhere')
    ctx.check(made.parent is obj, 'parent')
    ref_cls, dest = ITEM_REF[cls]
    r = made.ref()
    ctx.check(type(r) is ref_cls and r.dest is dest and ctx.eq(r.value, base + n2), 'reference')
    if owner == 'ModeDeclarationGroup':
        ctx.check(obj.find(n2) is made, 'find')
        ctx.check(ws.find(base + n2) is made, 'find by path')
    ctx.reach('end')


def v04_invalidation(ctx):
    iface = E.SenderReceiverInterface('I')
    path = '/' + ctx.text('path', 1, 2, 'xml')
    handle = ctx.pick('handle', list(ar_enum.HandleInvalid))
    form = ctx.pick('form', ['text', 'reference', 'wrong reference', 'wrong handling', 'number'])
    arg = {'text': path, 'number': ctx.int('n'), 'wrong reference': ar_ref.ConstantRef(path)}.get(
        form, ar_ref.VariableDataPrototypeRef(path))
    how = ctx.pick('how', [0, 'KEEP', ar_enum.HandleTimeout.NONE]) if form == 'wrong handling' else handle
    made, exc = refused(iface.create_invalidation_policy, arg, how)
    if form in ('text', 'reference'):
        ctx.check(exc is None, 'refused')
        ctx.check(len(iface.invalidation_policies) == 1 and iface.invalidation_policies[0] is made, 'policies')
        ctx.check(type(made.data_element_ref) is ar_ref.VariableDataPrototypeRef, 'class of reference')
        ctx.check(ctx.eq(made.data_element_ref.value, path), 'path')
        ctx.check(made.data_element_ref.dest is Dest.VARIABLE_DATA_PROTOTYPE, 'destination')
        ctx.check(made.handle_invalid is handle, 'handling')
    else:
        ctx.check(exc is not None, form + ': accepted')
        ctx.check(len(iface.invalidation_policies) == 0, 'policy added although refused')
    ctx.reach('end')


def v04_errors(ctx):
    """Possible errors of operations"""
    op = E.ClientServerOperation('O')
    n = ctx.pick('n', [1, 2])
    paths = ['/' + ctx.text(f'p{i}', 1, 2, 'xml') for i in range(n)]
    for i, p in enumerate(paths):
        if ctx.flag(f'create{i}'):
            made = op.create_possible_error_ref(p)
        else:
            made = ar_ref.ApplicationErrorRef(p)
            op.append_possible_error_ref(made)
        ctx.check(op.possible_error_refs[-1] is made, 'reference not added')
    ctx.check(len(op.possible_error_refs) == n, 'number of references')
    for r, p in zip(op.possible_error_refs, paths):
        ctx.check(type(r) is ar_ref.ApplicationErrorRef and ctx.eq(r.value, p), 'reference')
    _, exc = refused(op.append_possible_error_ref, ctx.pick('wrong', ['/x', 7, ar_ref.ConstantRef('/x')]))
    ctx.check(exc is not None and len(op.possible_error_refs) == n, 'wrong reference accepted')
    ctx.reach('end')


# event class -> (attribute, class of the instance reference, arguments of make -> attributes)
EVENTS = {'DataReceiveErrorEvent': ('data', 'RVariableInAtomicSwcInstanceRef',
                                    {'context_port': 'context_port', 'target_data_element': 'target_data_element'}),
          'DataReceivedEvent': ('data', 'RVariableInAtomicSwcInstanceRef',
                                {'context_port': 'context_port', 'target_data_element': 'target_data_element'}),
          'ExternalTriggerOccurredEvent': ('trigger', 'RTriggerInAtomicSwcInstanceRef',
                                           {'context_port': 'context_port', 'target_trigger': 'target_trigger'}),
          'OperationInvokedEvent': ('operation', 'POperationInAtomicSwcInstanceRef',
                                    {'context_port': 'context_port',
                                     'target_provided_operation': 'target_provided_operation'}),
          'SwcModeManagerErrorEvent': ('mode_group', 'PModeGroupInAtomicSwcInstanceRef',
                                       {'context_port': 'context_port',
                                        'context_mode_declaration_group_prototype': 'target_mode_group'}),
          'SwcModeSwitchEvent': ('mode', 'RModeInAtomicSwcInstanceRef',
                                 {'context_port': 'context_port',
                                  'context_mode_declaration_group_prototype':
                                      'context_mode_declaration_group_prototype',
                                  'target_mode_declaration': 'target_mode_declaration'})}


def v04_event(ctx, cls):
    """EventClass.make"""
    key, iref, names = EVENTS[cls]
    b = Builder(ctx)
    kinds = {f.key: f.kind for f in spec.CLASSES[iref].fields}
    name = ctx.ident('name', 1)
    kw, ms = {}, {}
    for arg, a in names.items():
        kw[arg], ms[a] = b.val(kinds[a], arg, 'lite', 1)
    if ctx.flag('start given'):
        kw['start_on_event'], m_start = b.val('rs:RunnableEntityRef', 'start', 'full', 1)
    else:
        m_start = b.absent
    if cls == 'SwcModeSwitchEvent' and ctx.flag('activation given'):
        kw['activation'], m_act = b.val('e:ModeActivationKind', 'activation', 'lite', 1)
    else:
        m_act = b.absent
    category = ctx.text('category', 1, 1, 'xml')
    made = getattr(E, cls).make(name, category=category, **kw)
    ctx.check(type(made) is getattr(E, cls) and ctx.eq(made.name, name), 'event')
    ctx.check(ctx.eq(made.category, category), 'category')
    m_start(made.start_on_event, 'start_on_event')
    if cls == 'SwcModeSwitchEvent':
        m_act(made.activation, 'activation')
    x = getattr(made, key)
    ctx.check(type(x) is getattr(E, iref), 'kind of instance reference')
    for a, m in ms.items():
        m(getattr(x, a), a)
    ctx.check(len(made.disabled_modes) == 0, 'disabled modes from nowhere')
    ctx.reach('end')


def v04_access(ctx, way):
    """VariableAccess.make_from_port"""
    b = Builder(ctx)
    name = ctx.ident('name', 1)
    port, m_port = b.val('r:PortPrototypeRef', 'port', 'lite', 1)
    target, m_target = b.val('r:DataPrototypeRef', 'target', 'lite', 1)
    scope = ctx.pick('scope', [None] + list(ar_enum.VariableAccessScope))
    args = {} if scope is None else {'scope': scope}
    if way == 'kw':
        x = E.VariableAccess.make_from_port(name, port, target, **args)
    else:
        x = E.VariableAccess.make_from_port_with_args(name, port, target, args or ctx.pick('args', [None, {}]))
    ctx.check(type(x) is E.VariableAccess and ctx.eq(x.name, name), 'access')
    ctx.check(x.scope is scope, 'scope')
    v = x.accessed_variable
    ctx.check(type(v) is E.AutosarVariableRef and v.ar_variable_in_impl_datatype is None and
              v.local_variable_ref is None, 'variable')
    r = v.ar_variable_iref
    ctx.check(type(r) is E.VariableInAtomicSWCTypeInstanceRef, 'instance reference')
    m_port(r.port_prototype_ref, 'port')
    m_target(r.target_data_prototype_ref, 'target')
    b.absent(r.root_variable_data_prototype_ref, 'root')
    b.absent(r.context_data_prototype_refs, 'context')
    ctx.reach('end')


def v04_behavior(ctx):
    """create_internal_behavior: name, owner, one at a time"""
    name = ctx.ident('name', 2)
    swc = E.ApplicationSoftwareComponentType(name)
    ws = autosar.xml.Workspace()
    ws.make_packages('/P').append(swc)
    given = ctx.ident('given', 2) if ctx.flag('named') else None
    if ctx.flag('earlier'):
        swc.create_internal_behavior('Earlier')
    made = swc.create_internal_behavior(given) if given is not None else swc.create_internal_behavior()
    want = given if given is not None else name + '_InternalBehavior'
    ctx.check(type(made) is E.SwcInternalBehavior and ctx.eq(made.name, want), 'name')
    ctx.check(swc.internal_behavior is made and made.parent is swc, 'owner')
    r = made.ref()
    ctx.check(type(r) is ar_ref.SwcInternalBehaviorRef and ctx.eq(r.value, '/P/' + name + '/' + want), 'reference')
    ctx.reach('end')


# ---- cases

def cases(prop, tier):
    deep = tier == 'thorough'
    out = []

    def add(cid, fn, **params):
        limits = {}
        if deep:
            limits['case_s'] = 1800
        out.append(Case(cid, fn, limits, **params))
    if prop == 'V01':
        for name, cs in spec.CLASSES.items():
            if any(f.kind[0] != '*' for f in cs.fields):
                add(f'field-{name}', v01_field, cls_name=name)
            if cs.ident == '-' and not any(f.required for f in cs.fields) and \
                    name not in ('CompuScale', 'NotAvailableValueSpecification'):
                add(f'empty-{name}', v01_empty, cls_name=name)
        add('alignment', v01_alignment, hi=6 if deep else 4)
        for w in ('UNSPECIFIED', 'UNKNOWN', 'BOOLEAN', 'PTR'):
            add(f'alignment-{w}', v01_alignment_word, word=w)
        for kind in WRONG:
            add('special-' + kind[1:], v01_special, kind=kind)
        add('display', v01_display, hi=8 if deep else 6)
    elif prop == 'V02':
        for way in WAYS:
            add(f'data-{way}', v02_make, way=way, depth=1, wide=True)
            if deep or way == 'make_value':
                add(f'nested-{way}', v02_make, way=way, depth=2, wide=deep)
            add(f'wrong-{way}', v02_wrong, way=way)
            add(f'wide-{way}', v02_wide, way=way)
            if way not in ('make_value', 'make_constant'):
                add(f'same-{way}', v02_same, way=way)
        add('constant', v02_constant)
    elif prop == 'V03':
        for cls in LIMITS:
            forms = [('i', 'i', 'i'), ('-', 'i', 'i'), ('i', '-', 'i'), ('-', '-', 'i'), ('inf', 'i', 'i'),
                     ('i', 'inf', 'i'), ('f', 'f', 'i'), ('i', 'i', 'f'), ('f', 'inf', 'f')]
            if deep:
                forms += [(a, b, c) for a in ('i', 'f', '-', 'inf') for b in ('i', 'f', '-', 'inf') for c in 'if'
                          if (a, b, c) not in forms]
            for lo, hi, v in forms:
                add(f'{cls}-{lo}{hi}{v}', v03_inside, cls=cls, lower=lo, upper=hi, value=v)
            add(f'{cls}-large', v03_large, cls=cls)
    else:
        add('table', v04_table, deep=deep)
        add('table-wrong', v04_table_wrong)
        add('rational-int', v04_rational, real=False)
        add('rational-float', v04_rational, real=True)
        for kind in ('internal', 'physical'):
            add(f'constraint-{kind}', v04_constraint, kind=kind)
        for what in CREATE:
            add(f'create-{what}', v04_create, what=what, deep=deep)
        add('invalidation', v04_invalidation)
        add('errors', v04_errors)
        for cls in EVENTS:
            add(f'event-{cls}', v04_event, cls=cls)
        for way in ('kw', 'dict'):
            add(f'access-{way}', v04_access, way=way)
        add('behavior', v04_behavior)
    return out
