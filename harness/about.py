"""
What objects tell about themselves: properties, small look-ups and setters agree with the content (V06).
"""
from sx.case import Case
import autosar.xml
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.exception as ar_exception
import autosar.xml.reference as ar_ref
from harness import spec
from harness.build import ARG, Builder
from harness.comps import make_interface, make_port, names_of, prefixes, INTERFACE_DEST
from harness.docs import snapshot, same

E = ar_element
Dest = ar_enum.IdentifiableSubTypes
LOOKUP = (ValueError, TypeError, KeyError, AssertionError, AttributeError, RuntimeError,
          ar_exception.InvalidReferenceError)


def refused(fn, *args, **kw):
    """Calls; returns result and exception"""
    try:
        return fn(*args, **kw), None
    except LOOKUP as exc:
        return None, exc


def is_one_of(x, items):
    return any(x is i for i in items)


def check_list(ctx, got, want, what):
    got = list(got)
    ctx.check(len(got) == len(want), what + ': number')
    for g, v in zip(got, want):
        ctx.check(g is v, what + ': other object or order')


# ---- wrapped numbers

def t_wrapped(ctx, cls, steps):
    """The value of a wrapped number can be changed under the rules of the constructor"""
    make = getattr(E, cls)
    positive = cls == 'PositiveIntegerValue'
    v = ctx.int('v', 0 if positive else None)
    fmt = ctx.pick('format', [ar_enum.ValueFormat.DEFAULT, ar_enum.ValueFormat.DECIMAL])
    obj = make(v, fmt)
    other = make(7)
    for i in range(steps):
        form = ctx.pick(f'form{i}', ['int', 'text', 'float', 'word', 'None', 'list', 'bytes'])
        new = good = None
        if form in ('int', 'text'):
            new = ctx.int(f'n{i}', -1000 if form == 'text' else None, 1000 if form == 'text' else None)
            arg = str(new) if form == 'text' else new
            good = not positive or not ctx.test(ctx.cmp('lt', new, 0))
        elif form == 'float':
            arg = new = ctx.float(f'n{i}', special=False)
            good = not positive
        else:
            arg = {'word': 'x' + ctx.text(f'n{i}', 0, 2, alphabet='ident'), 'None': None, 'list': [1], 'bytes': b'1'}[form]
            good = False
        exc = None
        try:
            obj.value = arg
        except (ValueError, TypeError) as e:
            exc = e
        if good:
            ctx.check(exc is None, f'{form} refused')
            v = new
        else:
            ctx.check(exc is not None, f'{form} accepted')
        ctx.check(ctx.eq(obj.value, v), 'value')
        ctx.check(obj.value_format is fmt, 'format')
        ctx.check(other.value == 7, 'another object changed')
    ctx.reach('end')


# ---- names and places

def t_place(ctx, what):
    """short_name is the name; root_collection the collection an element belongs to"""
    names = names_of(ctx, 'n', 2)
    root = ctx.pick('root', ['workspace', 'document', 'collection', 'none'])
    col = {'workspace': lambda: autosar.xml.Workspace(), 'document': lambda: autosar.xml.Document(),
           'collection': lambda: E.PackageCollection(), 'none': lambda: None}[root]()
    pkg = E.Package(names[0])
    top = pkg
    if ctx.flag('nested'):
        top = E.Package(names[1])
        top.append(pkg)
    elem = None
    if what == 'package':
        chain = [pkg]
    elif what == 'element':
        elem = E.Unit(names[1])
        chain = [elem]
    elif what == 'port':
        elem = E.ApplicationSoftwareComponentType('Swc')
        port = E.ProvidePortPrototype(names[1])
        elem.append_port(port)
        chain = [elem, port]
    elif what == 'data element':
        elem = E.SenderReceiverInterface('If')
        chain = [elem, elem.create_data_element(names[1])]
    elif what == 'runnable':
        elem = E.ApplicationSoftwareComponentType('Swc')
        behavior = elem.create_internal_behavior()
        runnable = E.RunnableEntity(names[1])
        behavior.append_runnable(runnable)
        chain = [elem, behavior, runnable]
    else:
        elem = E.ImplementationDataType('T')
        inner = E.ImplementationDataTypeElement(names[1])
        outer = E.ImplementationDataTypeElement('outer', sub_elements=[inner])
        elem.append(outer)
        chain = [elem, outer, inner]
    joined = elem is None or ctx.flag('in package')
    early = ctx.flag('asked early')
    if early:
        for x in chain:
            ctx.check(x.root_collection() is None, 'root before it belongs to anything')
    if elem is not None and joined:
        pkg.append(elem)
    if early:
        for x in chain:
            ctx.check(x.root_collection() is None, 'root of a loose package')
    if col is not None:
        col.append(top)
    want = col if joined else None
    for x in chain:
        ctx.check(x.root_collection() is want, 'root of ' + type(x).__name__)
        ctx.check(ctx.eq(x.short_name, x.name), 'short name')
    ctx.check(pkg.root_collection() is col and top.root_collection() is col, 'root of the package')
    if joined and elem is not None and ctx.flag('moved'):
        # into another collection
        new = autosar.xml.Document()
        new.create_package('New').append(elem)
        for x in chain:
            ctx.check(x.root_collection() is new, 'root of a moved element')
    last = chain[-1]
    ctx.check(ctx.eq(last.short_name, names[0] if what == 'package' else names[1]), 'short name')
    last.name = 'Other'
    ctx.check(last.short_name == 'Other', 'short name of a renamed element')
    ctx.reach('end')


# ---- texts, scales, properties

def t_unit_text(ctx, count):
    """A unit name as text is the concatenation of its parts"""
    parts, want, plain = [], '', True
    for i in range(ctx.pick('count', list(range(count + 1)))):
        text = ctx.text(f't{i}', 0, 2)
        form = ctx.pick(f'form{i}', ['str', 'sup', 'sub'])
        if form == 'str':
            parts.append(text)
            want = want + text
        elif form == 'sup':
            parts.append(E.Superscript(text))
            want = want + '^' + text
            ctx.check(ctx.eq(str(parts[-1]), '^' + text), 'superscript')
        else:
            parts.append(E.Subscript(text))
            plain = False
    form = ctx.pick('given', ['list', 'tuple', 'append', 'mixed'])
    if form == 'append':
        obj = E.SingleLanguageUnitNames()
        for p in parts:
            obj.append(p)
    elif form == 'mixed' and parts and isinstance(parts[0], str):
        obj = E.SingleLanguageUnitNames(parts[0])
        for p in parts[1:]:
            obj.append(p)
    else:
        obj = E.SingleLanguageUnitNames(tuple(parts) if form == 'tuple' else list(parts))
    check_list(ctx, obj.parts, parts, 'parts')
    try:
        got = str(obj)
    except ValueError:
        ctx.check(not plain, 'text refused')
        ctx.reach('end')
        return
    if plain:
        ctx.check(ctx.eq(got, want), 'text')
    ctx.reach('end')


def t_scale(ctx):
    """content_type follows the content"""
    C = ar_enum.CompuScaleContent

    def content(tag):
        form = ctx.pick(tag, ['none', 'int', 'float', 'text', 'rational', 'constant rational'])
        if form == 'none':
            return None, C.NONE
        if form == 'int':
            return E.CompuConst(ctx.int(tag + 'v')), C.CONSTANT
        if form == 'float':
            return E.CompuConst(2.5), C.CONSTANT
        if form == 'text':
            return E.CompuConst(ctx.text(tag + 'v', 0, 2)), C.CONSTANT
        if form == 'rational':
            return E.CompuRational((ctx.int(tag + 'v'), ctx.int(tag + 'w')), (1,)), C.RATIONAL
        return E.CompuRational((ctx.int(tag + 'v'),), (ctx.int(tag + 'w'),)), C.RATIONAL
    first, want = content('first')
    lower = ctx.pick('lower', [None, 0, 1])
    obj = E.CompuScale(content=first, lower_limit=lower, label=ctx.pick('label', [None, 'A']))
    ctx.check(obj.content_type is want, 'content type')
    obj.content, want = content('second')
    ctx.check(obj.content_type is want, 'content type of changed content')
    ctx.reach('end')


def t_rational(ctx):
    """Coefficients are kept in order, whichever sequence they came in; other things are refused"""
    args, wants, bad = {}, {}, False
    for key in ('numerator', 'denominator'):
        form = ctx.pick(key, ['none', 'tuple', 'list', 'int', 'str'])
        values = [ctx.int(f'{key}{i}') if i else ctx.pick(key + '0', [0, 1, -2.5]) for i in range(ctx.pick(key + '#', [1, 2] if key == 'numerator' else [0, 1, 2]))] if form in ('tuple', 'list') else []
        args[key] = {'none': None, 'tuple': tuple(values), 'list': list(values), 'int': 1, 'str': '1'}[form]
        wants[key] = None if form == 'none' else values
        bad = bad or form in ('int', 'str')
    obj, exc = refused(E.CompuRational, args['numerator'], args['denominator'])
    if bad:
        ctx.check(exc is not None, 'no sequence, but accepted')
        ctx.reach('end')
        return
    ctx.check(exc is None, f'refused: {exc}')
    for key, want in wants.items():
        got = getattr(obj, key)
        if want is None:
            ctx.check(got is None, key + ' appeared')
        else:
            ctx.check(got is not None and len(got) == len(want), key + ': number')
            ctx.check(ctx.all([ctx.eq(g, v) for g, v in zip(got, want)]), key)
    ctx.reach('end')


def t_props(ctx):
    """is_queued follows the policy; the variants are counted, iterated and indexed"""
    variants, queued = [], []
    for i in range(ctx.pick('count', [0, 1, 2, 3])):
        policy = ctx.pick(f'policy{i}', [None] + list(ar_enum.SwImplPolicy)) if i == 0 else \
            ctx.pick(f'policy{i}', [None, ar_enum.SwImplPolicy.QUEUED])
        variants.append(E.SwDataDefPropsConditional(impl_policy=policy))
        queued.append(policy is ar_enum.SwImplPolicy.QUEUED)
        ctx.check(variants[-1].is_queued is queued[-1], 'is_queued')
    given = ctx.pick('given', ['constructor', 'append', 'one'])
    if given == 'constructor':
        props = E.SwDataDefProps(list(variants))
    elif given == 'append' or not variants:
        props = E.SwDataDefProps()
        for v in variants:
            props.append(v)
    else:
        props = E.SwDataDefProps(variants[0])
        for v in variants[1:]:
            props.append(v)
    ctx.check(len(props) == len(variants), 'len')
    check_list(ctx, props, variants, 'iteration')
    check_list(ctx, props, variants, 'second iteration')
    for i, v in enumerate(variants):
        ctx.check(props[i] is v, 'index')
        ctx.check(props[i - len(variants)] is v, 'index from the end')
    elem = E.VariableDataPrototype('N', sw_data_def_props=props)
    if len(variants) < 2:
        ctx.check(elem.is_queued is (queued == [True]), 'is_queued of the data element')
    elif all(queued) or not any(queued):
        ctx.check(elem.is_queued is queued[0], 'is_queued of the data element')
    if variants:
        # the policy may be changed later
        policy = ctx.pick('new policy', [None, ar_enum.SwImplPolicy.STANDARD, ar_enum.SwImplPolicy.QUEUED])
        for v in variants:
            v.impl_policy = policy
        ctx.check(elem.is_queued is (policy is ar_enum.SwImplPolicy.QUEUED), 'is_queued after a change')
    ctx.check(E.VariableDataPrototype('N').is_queued is False, 'is_queued without properties')
    ctx.reach('end')


def t_composite(ctx):
    """is_composite tells arrays and records from primitive types"""
    cls = ctx.pick('class', ['ApplicationPrimitiveDataType', 'ApplicationArrayDataType', 'ApplicationRecordDataType'])
    b = Builder(ctx)
    obj, _ = b.make(cls, 'x', {}, 'mark')
    ctx.check(obj.is_composite is (cls != 'ApplicationPrimitiveDataType'), cls)
    ctx.reach('end')


DEFAULTS = ('NotAvailableValueSpecification', 'CompuScale')
PLAIN = sorted(n for n, cs in spec.CLASSES.items() if cs.ident == '-' and not any(f.required for f in cs.fields))


def t_empty(ctx, cls):
    """is_empty holds of an object no field of which is given"""
    cs = spec.CLASSES[cls]
    b = Builder(ctx)
    fields = [f for f in cs.fields if not f.kind.startswith(('l:', 's:', '*'))]
    if cls not in DEFAULTS:
        ctx.check(getattr(E, cls)().is_empty is True, cls + ': nothing given')
        ctx.check(getattr(E, cls)(**{ARG.get((cls, f.key), f.key): None for f in fields}).is_empty is True,
                  cls + ': None given')
    for f in fields:
        arg, _ = b.val(f.kind, f.key, 'lite', 1)
        if arg is None:
            continue
        obj = getattr(E, cls)(**{ARG.get((cls, f.key), f.key): arg})
        ctx.check(obj.is_empty is False, f'{cls}.{f.key} given')
    ctx.reach('end')


# ---- components

def t_ports(ctx, most):
    """The ports of a component, by kind and by name"""
    ws = autosar.xml.Workspace()
    iface, _ = make_interface(ws, 'SR', ['a'])
    swc = ctx.pick('class', [E.ApplicationSoftwareComponentType, E.CompositionSwComponentType])('Swc')
    if ctx.flag('in package'):
        ws.make_packages('/Swcs').append(swc)
    count = ctx.pick('count', list(range(most + 1)))
    names = names_of(ctx, 'n', count)
    kinds, ports = [], []
    for i in range(count):
        kinds.append(ctx.pick(f'kind{i}', ['P', 'R', 'PR']))
        if ctx.flag(f'alias{i}') and kinds[i] != 'PR':
            make = swc.create_provide_port if kinds[i] == 'P' else swc.create_require_port
            ports.append(make(names[i], iface))
        else:
            ports.append(make_port(swc, kinds[i], names[i], iface))
    check_list(ctx, swc.ports, ports, 'ports')
    for key, attr in (('P', 'provide_ports'), ('R', 'require_ports'), ('PR', 'pr_ports')):
        check_list(ctx, getattr(swc, attr), [p for p, k in zip(ports, kinds) if k == key], attr)
    for port, kind in zip(ports, kinds):
        ctx.check(type(port) is {'P': E.ProvidePortPrototype, 'R': E.RequirePortPrototype,
                                 'PR': E.PRPortPrototype}[kind], 'class of the port')
    asked = ctx.ident('asked', 2)
    want = [(p, k) for p, k, n in zip(ports, kinds, names) if ctx.test(ctx.eq(n, asked))]
    port, kind = want[0] if want else (None, '')
    ctx.check(swc.find_p_port(asked) is (port if 'P' in kind else None), 'find_p_port')
    ctx.check(swc.find_r_port(asked) is (port if 'R' in kind else None), 'find_r_port')
    ctx.check(swc.find(asked) is port, 'find')
    ctx.reach('end')


def t_in_port(ctx, kind, direction, most):
    """The element of a port is that of the port's own interface, by name or the only one"""
    ws = autosar.xml.Workspace()
    count = ctx.pick('count', list(range((1 if kind == 'MS' else most) + 1)))
    names = names_of(ctx, 'n', count)
    iface, items = make_interface(ws, kind, names)
    other, _ = make_interface(ws, kind, ['o'], name='Other')
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    port = make_port(swc, direction, 'Port', iface)
    make_port(swc, direction, 'Second', other)
    lost = ctx.flag('lost')
    if lost:
        port.port_interface_ref = ar_ref.PortInterfaceRef('/Ifs/Lost', INTERFACE_DEST[kind])
    asked = ctx.pick('asked', ['none', 'empty', 'name'])
    name = {'none': None, 'empty': '', 'name': ctx.ident('asked name', 2)}[asked]
    old = snapshot(ws)
    lookups = {'SR': (swc.get_data_element_in_port, True), 'CS': (swc.get_operation_in_port, True),
               'MS': (swc.get_mode_declaration_group_in_port, False)}
    for key, (fn, named) in lookups.items():
        got, exc = refused(fn, port, name) if named else refused(fn, port)
        if lost or key != kind:
            ctx.check(exc is not None, key + ': found something in ' + ('nothing' if lost else kind))
        elif not named:
            ctx.check(exc is None and got is (items[0] if items else None), key + ': element')
        elif asked == 'name':
            want = [x for x, n in zip(items, names) if ctx.test(ctx.eq(n, name))]
            ctx.check(exc is None and got is (want[0] if want else None), key + ': element named')
        elif count == 1:
            ctx.check(exc is None and got is items[0], key + ': the only element')
        else:
            ctx.check(exc is not None, key + ': one of many')
    same(ctx, old, snapshot(ws), 'looking up changed something')
    ctx.reach('end')


def t_port_refs(ctx):
    """What a reference to a port says about the direction, and the tag of a connector's port"""
    prov = [Dest.ABSTRACT_PROVIDED_PORT_PROTOTYPE, Dest.P_PORT_PROTOTYPE, Dest.PR_PORT_PROTOTYPE]
    req = [Dest.ABSTRACT_REQUIRED_PORT_PROTOTYPE, Dest.R_PORT_PROTOTYPE, Dest.PR_PORT_PROTOTYPE]
    dest = ctx.pick('dest', prov + req[:2])
    ref = ar_ref.PortPrototypeRef('/' + ctx.ident('n', 2), dest)
    ctx.check(ref.is_provide_port_ref is (dest in prov), 'is_provide_port_ref')
    ctx.check(ref.is_require_port_ref is (dest in req), 'is_require_port_ref')
    inner = E.PortInCompositionTypeInstanceRef(port_ref=ref if ctx.flag('port') else None)
    tag = E.DelegationSwConnector('N', inner_port=inner).xml_tag
    if inner.port_ref is None:
        ctx.check(tag is None, 'tag without port')
    elif dest is Dest.PR_PORT_PROTOTYPE:
        ctx.check(tag in ('P-PORT-IN-COMPOSITION-INSTANCE-REF', 'R-PORT-IN-COMPOSITION-INSTANCE-REF'), 'tag')
    else:
        ctx.check(tag == ('P' if dest in prov else 'R') + '-PORT-IN-COMPOSITION-INSTANCE-REF', 'tag')
    ctx.reach('end')


def t_behavior(ctx):
    """A component has the behavior given last, which has it as parent; what runnables and behaviors belong to"""
    ws = autosar.xml.Workspace()
    swc = E.ApplicationSoftwareComponentType('Swc' + ctx.text('n', 0, 1, alphabet='ident'))
    inside = ctx.flag('in package')
    if inside:
        ws.make_packages('/Swcs').append(swc)
    name = ctx.pick('name', [None, 'B'])
    made = swc.create_internal_behavior() if name is None else swc.create_internal_behavior(name)
    ctx.check(ctx.eq(made.name, swc.name + '_InternalBehavior' if name is None else name), 'name')
    ctx.check(swc.internal_behavior is made and made.parent is swc, 'behavior made')
    what = ctx.pick('then', ['nothing', 'other', 'none', 'again'])
    now = made
    if what == 'other':
        now = swc.internal_behavior = E.SwcInternalBehavior('Second')
    elif what == 'none':
        now = swc.internal_behavior = None
    elif what == 'again':
        now = swc.create_internal_behavior('Second')
    ctx.check(swc.internal_behavior is now, 'behavior')
    if now is None:
        ctx.reach('end')
        return
    ctx.check(now.parent is swc, 'parent')
    ctx.check(now.get_valid_parent() is swc, 'valid parent')
    runnable = now.create_runnable('Run') if ctx.flag('create') else E.RunnableEntity('Run')
    if runnable.parent is None:
        _, exc = refused(runnable.get_valid_parent)
        ctx.check(exc is not None, 'parent of a loose runnable')
        now.append_runnable(runnable)
    ctx.check(runnable.get_valid_parent() is now, 'valid parent of the runnable')
    ctx.check(now.find_runnable('Run') is runnable and now.find_runnable('Ru') is None, 'find_runnable')
    _, exc = refused(E.SwcInternalBehavior('Loose').get_valid_parent)
    ctx.check(exc is not None, 'parent of a loose behavior')
    settings, exc = refused(now.get_valid_behavior_settings)
    if inside:
        ctx.check(settings is ws.behavior_settings, 'settings')
    else:
        ctx.check(exc is not None, 'settings without workspace')
    ctx.reach('end')


# ---- collections

def t_settings(ctx, steps):
    """Settings keep what they are given and refuse the rest"""
    ws = autosar.xml.Workspace()
    keys = list(prefixes(autosar.xml.Workspace()))
    where = ctx.pick('where', ['workspace', 'own'])
    obj = ws.behavior_settings if where == 'workspace' else E.BehaviorSettings()
    bystander = E.BehaviorSettings()
    now = {k: None for k in keys}
    for i in range(steps):
        form = ctx.pick(f'form{i}', ['set', 'update', 'unknown', 'wrong', 'unknown in update'])
        first = ctx.pick(f'key{i}', keys if i == 0 else keys[:3])
        text = ctx.text(f't{i}', 0, 2)
        if form == 'set':
            _, exc = refused(obj.set_value, first, text)
            now[first] = text
        elif form == 'update':
            _, exc = refused(obj.update, {first: text, keys[5]: 'Z'})
            now[first] = text
            now[keys[5]] = 'Z'
        elif form == 'wrong':
            bad = ctx.pick(f'bad{i}', [None, 7, b'x', ['x']])
            _, exc = refused(obj.set_value, first, bad)
        elif form == 'unknown':
            _, exc = refused(obj.set_value, ctx.pick(f'name{i}', ['event_prefix', 'x', '']), text)
        else:
            _, exc = refused(obj.update, {first: text, 'x': 'Z'})
            now[first] = text
        ctx.check((exc is None) is (form in ('set', 'update')), form + (' refused' if exc else ' accepted'))
        for k in keys:
            got, exc = refused(obj.get_value, k)
            if now[k] is None:
                ctx.check(exc is not None and getattr(obj, k) is None, k + ' not set')
            else:
                ctx.check(exc is None and ctx.eq(got, now[k]) and ctx.eq(getattr(obj, k), now[k]), k)
            ctx.check(getattr(bystander, k) is None, 'settings of another object changed')
        ctx.check(refused(obj.get_value, 'x')[1] is not None, 'unknown setting')
    if where == 'workspace':
        ctx.check(ws.get_valid_behavior_settings() is obj, 'settings of the workspace')
    ctx.check(refused(autosar.xml.Document().get_valid_behavior_settings)[1] is not None, 'settings of a document')
    ctx.reach('end')


def t_interface(ctx):
    """get_port_interface finds what find finds, and refuses references which lead nowhere"""
    ws = ctx.pick('collection', [autosar.xml.Workspace, autosar.xml.Document])()
    kind = ctx.pick('kind', list(INTERFACE_DEST))
    name = ctx.ident('n', 1)
    iface, _ = make_interface(ws, kind, ['a'], name=name)
    path = '/Ifs/' + ctx.ident('asked', 1)
    ref = {'text': path, 'relative': path[1:],
           'ref': ar_ref.PortInterfaceRef(path, INTERFACE_DEST[kind])}[ctx.pick('form', ['text', 'relative', 'ref'])]
    got, exc = refused(ws.get_port_interface, ref)
    if ctx.test(ctx.eq('/Ifs/' + name, path)):
        ctx.check(exc is None and got is iface, 'interface')
    else:
        ctx.check(isinstance(exc, ar_exception.InvalidReferenceError), 'reference which leads nowhere')
    ctx.reach('end')


def t_modes(ctx, most):
    """find of a mode declaration group finds modes and transitions by name"""
    modes = ctx.pick('modes', list(range(most + 1)))
    moves = ctx.pick('transitions', list(range(most + 1)))
    names = names_of(ctx, 'n', modes + moves)
    items = [E.ModeDeclaration(n) for n in names[:modes]]
    form = ctx.pick('form', ['constructor', 'append'])
    trans = [E.ModeTransition(n) for n in names[modes:]]
    if form == 'constructor':
        group = E.ModeDeclarationGroup('G', mode_declarations=list(items), mode_transitions=list(trans))
    else:
        group = E.ModeDeclarationGroup('G')
        for x in trans:
            group.append_mode_transition(x)
        for x in items:
            group.append_mode_declaratation(x)
    ws = autosar.xml.Workspace()
    ws.make_packages('/P').append(group)
    asked = ctx.ident('asked', 2)
    want = [x for x, n in zip(items + trans, names) if ctx.test(ctx.eq(n, asked))]
    want = want[0] if want else None
    ctx.check(group.find(asked) is want, 'find')
    ctx.check(ws.find('/P/G/' + asked) is want, 'find by path')
    for x in items + trans:
        ctx.check(x.parent is group and x.root_collection() is ws, 'parent')
    ctx.reach('end')


def t_component_name(ctx):
    """A component prototype has the name of its type unless given another"""
    ws = autosar.xml.Workspace()
    n, m = ctx.ident('n', 2), ctx.ident('m', 2)
    cls = ctx.pick('class', [E.ApplicationSoftwareComponentType, E.CompositionSwComponentType])
    swc = cls(n)
    ws.make_packages('/Swcs').append(swc)
    comp = E.CompositionSwComponentType('Comp')
    ws.make_packages('/Comps').append(comp)
    named = ctx.flag('named')
    x = comp.create_component_prototype(swc, m) if named else comp.create_component_prototype(swc)
    ctx.check(ctx.eq(x.name, m if named else n), 'name')
    ctx.check(ctx.eq(str(x.type_ref), '/Swcs/' + n), 'type')
    ctx.check(x.type_ref.dest is (Dest.APPLICATION_SW_COMPONENT_TYPE if cls is E.ApplicationSoftwareComponentType
                                  else Dest.COMPOSITION_SW_COMPONENT_TYPE), 'destination')
    check_list(ctx, comp.components, [x], 'components')
    ctx.check(comp.find(x.name) is x and x.parent is comp and x.root_collection() is ws, 'place')
    ctx.reach('end')


def t_document(ctx):
    """A document has the version given and its schema file"""
    v = ctx.int('v', 42, 60)
    doc = autosar.xml.Document(schema_version=v) if ctx.flag('document') else ar_document.DocumentMeta(v)
    ctx.check(ctx.eq(doc.schema_version, v), 'version')
    ctx.check(ctx.eq(doc.schema_file, 'AUTOSAR_000' + str(v) + '.xsd'), 'file')
    ctx.reach('end')


def cases(prop, tier):
    deep = tier == 'thorough'
    out = [Case(f'wrapped:{c}', t_wrapped, cls=c, steps=2 if deep else 1)
           for c in ('NumericalValue', 'PositiveIntegerValue')]
    for what in ('package', 'element', 'port', 'data element', 'runnable', 'type element'):
        out.append(Case('place:' + what.replace(' ', '-'), t_place, what=what))
    out.append(Case('unit-text', t_unit_text, count=3 if deep else 2))
    out.append(Case('scale', t_scale))
    out.append(Case('rational', t_rational))
    out.append(Case('props', t_props))
    out.append(Case('composite', t_composite))
    for c in PLAIN:
        out.append(Case('empty:' + c, t_empty, cls=c))
    out.append(Case('ports', t_ports, most=3 if deep else 2))
    for kind in ('SR', 'CS', 'MS', 'NV', 'PRM'):
        for d in ('P', 'R', 'PR'):
            if d == 'PR' and kind in ('NV', 'PRM') and not deep:
                continue
            out.append(Case(f'in-port:{kind}-{d}', t_in_port, kind=kind, direction=d, most=3 if deep else 2))
    out.append(Case('port-refs', t_port_refs))
    out.append(Case('behavior', t_behavior))
    out.append(Case('settings', t_settings, steps=2 if deep else 1))
    out.append(Case('interface', t_interface))
    out.append(Case('modes', t_modes, most=2 if deep else 2))
    out.append(Case('component-name', t_component_name))
    out.append(Case('document', t_document))
    return out
