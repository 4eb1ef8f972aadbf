"""
Software components: ports and their com-specs (C01), connectors of compositions (C02), port access of runnables
(C03), runnables and events of behaviors (C04), port API options (C05).
"""
from sx.case import Case
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_ref
from harness import spec
from harness.build import Builder
from harness.checks import data
from harness.docs import snapshot, same

Dest = ar_enum.IdentifiableSubTypes
E = ar_element


def refused(fn, *args, **kw):
    """Calls; returns result and exception"""
    try:
        return fn(*args, **kw), None
    except (ValueError, TypeError, KeyError, RuntimeError, AssertionError, AttributeError, NotImplementedError) as exc:
        return None, exc


def names_of(ctx, prefix, count, hi=1, other=()):
    """Identifiers, all different"""
    out = []
    for i in range(count):
        # one name may be the beginning of another
        n = ctx.ident(f'{prefix}{i}', 2 if hi == 1 and count > 1 and i == count - 1 else hi)
        for o in list(other) + out:
            ctx.assume(ctx.no(ctx.eq(n, o)))
        out.append(n)
    return out


def index_of(ctx, names, name):
    for i, n in enumerate(names):
        if ctx.test(ctx.eq(n, name)):
            return i
    return None


def check_ref(ctx, ref, path, dest, what):
    ctx.check(ref is not None, what + ': no reference')
    ctx.check(ctx.eq(str(ref), path), what + ': path')
    ctx.check(ref.dest is dest, what + ': destination')


def prefixes(ws):
    """Name prefixes, all different"""
    names = {'background_event_prefix': 'BT', 'data_receive_error_event_prefix': 'DRET',
             'data_receive_event_prefix': 'DRT', 'init_event_prefix': 'IT', 'operation_invoked_event_prefix': 'OIT',
             'swc_mode_manager_error_event_prefix': 'MMET', 'swc_mode_switch_event_prefix': 'MST',
             'timing_event_prefix': 'TMT', 'data_read_access_prefix': 'READ', 'data_receive_point_prefix': 'REC',
             'data_send_point_prefix': 'SEND', 'data_write_access_prefix': 'WRITE',
             'mode_access_point_prefix': 'ACCESS', 'mode_switch_point_prefix': 'SWITCH',
             'parameter_access_prefix': 'PRM', 'server_call_point_prefix': 'CALL'}
    ws.behavior_settings.update(names)
    return names


# ---- interfaces

ITEM_DEST = {'SR': Dest.VARIABLE_DATA_PROTOTYPE, 'NV': Dest.VARIABLE_DATA_PROTOTYPE,
             'CS': Dest.CLIENT_SERVER_OPERATION, 'MS': Dest.MODE_DECLARATION_GROUP_PROTOTYPE,
             'PRM': Dest.PARAMETER_DATA_PROTOTYPE}
PORT_DEST = {'P': Dest.P_PORT_PROTOTYPE, 'R': Dest.R_PORT_PROTOTYPE, 'PR': Dest.PR_PORT_PROTOTYPE}
PORT_CLASS = {'P': E.ProvidePortPrototype, 'R': E.RequirePortPrototype, 'PR': E.PRPortPrototype}
INTERFACE_DEST = {'SR': Dest.SENDER_RECEIVER_INTERFACE, 'NV': Dest.NV_DATA_INTERFACE,
                  'CS': Dest.CLIENT_SERVER_INTERFACE, 'MS': Dest.MODE_SWITCH_INTERFACE,
                  'PRM': Dest.PARAMETER_INTERFACE}


def make_interface(ws, kind, names, queued=(), name='If', where='/Ifs'):
    """An interface of the kind in a package; returns it and its items"""
    pkg = ws.make_packages(where)
    if kind == 'SR':
        iface = E.SenderReceiverInterface(name)
        for i, n in enumerate(names):
            policy = ar_enum.SwImplPolicy.QUEUED if i < len(queued) and queued[i] else None
            props = E.SwDataDefPropsConditional(impl_policy=policy) if policy else None
            iface.create_data_element(n, sw_data_def_props=props)
        items = iface.data_elements
    elif kind == 'NV':
        iface = E.NvDataInterface(name)
        for n in names:
            iface.create_data_element(n)
        items = iface.data_elements
    elif kind == 'CS':
        iface = E.ClientServerInterface(name)
        for n in names:
            iface.create_operation(n)
        items = iface.operations
    elif kind == 'PRM':
        iface = E.ParameterInterface(name)
        for n in names:
            iface.create_parameter(n)
        items = iface.parameters
    else:
        group = ws.find('/Modes/Group')
        if group is None:
            group = E.ModeDeclarationGroup('Group', ['On', 'Off'])
            ws.make_packages('/Modes').append(group)
        iface = E.ModeSwitchInterface(name)
        if names:
            iface.create_mode_group(names[0], group.ref())
        items = [iface.mode_group] if names else []
    pkg.append(iface)
    return iface, list(items)


def make_port(swc, direction, name, iface, **kw):
    if direction == 'P':
        return swc.create_p_port(name, iface, **kw)
    if direction == 'R':
        return swc.create_r_port(name, iface, **kw)
    return swc.create_pr_port(name, iface, **kw)


# ---- C01

COM_SPEC = {('SR', 'P', False): 'NonqueuedSenderComSpec', ('SR', 'P', True): 'QueuedSenderComSpec',
            ('SR', 'R', False): 'NonqueuedReceiverComSpec', ('SR', 'R', True): 'QueuedReceiverComSpec',
            ('CS', 'P', False): 'ServerComSpec', ('CS', 'R', False): 'ClientComSpec',
            ('MS', 'P', False): 'ModeSwitchSenderComSpec', ('MS', 'R', False): 'ModeSwitchReceiverComSpec'}
REF_KEY = {'SR': 'data_element_ref', 'CS': 'operation_ref', 'MS': 'mode_group_ref'}


def com_spec_args(ctx, b, cls, tag, field, level, python=False):
    """Arguments of one com-spec and their matcher; the value of field has the level given"""
    args, matchers = {}, {}
    for f in spec.CLASSES[cls].fields:
        if f.key not in REF_KEY.values() and f.key == field:
            args[f.key], matchers[f.key] = b.val(f.kind, f'{tag}.{f.key}', level, 1)
            if python and f.key == 'init_value' and cls in ('NonqueuedSenderComSpec', 'NonqueuedReceiverComSpec') and \
                    ctx.flag(tag + '?data'):
                args[f.key], matchers[f.key] = data(ctx, f'{tag}.data', 0, True, True, False)

    def match(x, w):
        ctx.check(type(x).__name__ == cls, f'{w}: {type(x).__name__} instead of {cls}')
        for f in spec.CLASSES[cls].fields:
            if f.key in matchers:
                matchers[f.key](getattr(x, f.key), f'{w}.{f.key}')
            elif f.key not in REF_KEY.values():
                b.absent(getattr(x, f.key), f'{w}.{f.key}')
    return args, match


def check_item_ref(ctx, kind, com_spec, iface, name, w):
    dest = Dest.VARIABLE_DATA_PROTOTYPE if kind == 'SR' else ITEM_DEST[kind]
    check_ref(ctx, getattr(com_spec, REF_KEY[kind]), f'/Ifs/{iface.name}/' + name, dest, w)


def check_port(ctx, swc, port, direction, name, iface, kind):
    ctx.check(type(port) is PORT_CLASS[direction], 'kind of port')
    ctx.check(len(swc.ports) >= 1 and swc.ports[-1] is port and port.parent is swc, 'port is not in the component')
    ctx.check(ctx.eq(port.name, name), 'name of port')
    check_ref(ctx, port.port_interface_ref, '/Ifs/' + iface.name, INTERFACE_DEST[kind], 'interface of port')
    check_ref(ctx, port.ref(), '/Swcs/Swc/' + name, PORT_DEST[direction], 'reference of port')
    ctx.check(swc.find(name) is port, 'port is not found')
    if direction != 'P':
        ctx.check(swc.find_r_port(name) is port, 'find_r_port')
    else:
        ctx.check(swc.find_r_port(name) is None, 'find_r_port finds a P-PORT')
    if direction != 'R':
        ctx.check(swc.find_p_port(name) is port, 'find_p_port')
    else:
        ctx.check(swc.find_p_port(name) is None, 'find_p_port finds an R-PORT')


def spec_lists(port, direction):
    if direction == 'PR':
        return {'P': port.provided_com_spec, 'R': port.required_com_spec}
    return {direction: port.com_spec}


def t_one_spec(ctx, kind, direction, queued, field, level):
    """One item: the dict holds the arguments of its com-spec"""
    b = Builder(ctx)
    ws = autosar.xml.Workspace()
    (item,) = names_of(ctx, 'item', 1)
    iface, _ = make_interface(ws, kind, [item], [queued])
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    name = ctx.ident('port', 1)
    other = swc.create_r_port('Other_port', iface)
    matchers = {}
    kw = {}
    for side in ('P', 'R') if direction == 'PR' else (direction,):
        cls = COM_SPEC[kind, side, queued]
        args, matchers[side] = com_spec_args(ctx, b, cls, side, field, level, True)
        kw['com_spec' if direction != 'PR' else 'provided_com_spec' if side == 'P' else 'required_com_spec'] = args
    before = snapshot(iface)
    given = [[k, sorted(v)] for k, v in kw.items()]
    allow = None
    if direction == 'R' and field is None:
        allow = ctx.pick('allow', [None, True, False])
        kw['allow_unconnected'] = allow
        given = None
    long_form = field is None and direction != 'PR' and ctx.flag('alias')
    if long_form:
        port = swc.create_provide_port(name, iface, **kw) if direction == 'P' else \
            swc.create_require_port(name, iface, **kw)
    else:
        port = make_port(swc, direction, name, iface, **kw)
    check_port(ctx, swc, port, direction, name, iface, kind)
    ctx.check(swc.ports[0] is other and len(swc.ports) == 2, 'other ports')
    if direction == 'R':
        ctx.check(port.allow_unconnected is allow, 'allow unconnected')
    for side, lst in spec_lists(port, direction).items():
        ctx.check(len(lst) == 1, 'number of com-specs')
        matchers[side](lst[0], 'com-spec')
        check_item_ref(ctx, kind, lst[0], iface, item, 'com-spec')
    if given is not None:
        ctx.check(given == [[k, sorted(v)] for k, v in kw.items()], 'arguments changed')
    same(ctx, snapshot(iface), before, 'interface changed')
    ctx.reach('end')


def t_no_spec(ctx, kind, direction):
    """Without com-spec there is none; an interface without items has no com-specs to be made"""
    ws = autosar.xml.Workspace()
    count = ctx.pick('items', [0, 1] if kind == 'MS' else [0, 1, 2])
    iface, _ = make_interface(ws, kind, names_of(ctx, 'item', count))
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    name = ctx.ident('port', 2)
    if ctx.flag('spec'):
        sides = ['P', 'R'] if direction == 'PR' else [direction]
        side = ctx.pick('side', sides)
        key = 'com_spec' if direction != 'PR' else 'provided_com_spec' if side == 'P' else 'required_com_spec'
        port, exc = refused(make_port, swc, direction, name, iface, **{key: {}})
        if count == 0:
            ctx.check(isinstance(exc, ValueError), 'com-spec without an item of the interface accepted')
            ctx.check(len(swc.ports) == 0, 'port was added')
        else:
            ctx.check(exc is None, 'com-spec refused')
            check_port(ctx, swc, port, direction, name, iface, kind)
            for s, lst in spec_lists(port, direction).items():
                ctx.check(len(lst) == (1 if count == 1 and s == side else 0), 'number of com-specs')
    else:
        port = make_port(swc, direction, name, iface)
        check_port(ctx, swc, port, direction, name, iface, kind)
        for lst in spec_lists(port, direction).values():
            ctx.check(len(lst) == 0, 'com-spec nobody asked for')
    ctx.reach('end')


ONE_FIELD = {'NonqueuedSenderComSpec': 'init_value', 'QueuedSenderComSpec': 'uses_end_to_end_protection',
             'NonqueuedReceiverComSpec': 'alive_timeout', 'QueuedReceiverComSpec': 'queue_length',
             'ServerComSpec': 'queue_length', 'ClientComSpec': 'e2e_call_respone_timeout'}


def t_many_specs(ctx, kind, direction, items, asked, form):
    """Several items: com-specs by name, in the order of the interface"""
    b = Builder(ctx)
    ws = autosar.xml.Workspace()
    names = names_of(ctx, 'item', items)
    queued = [False] * items
    if kind == 'SR':
        which = ctx.pick('queued', [None, 0, items - 1])
        queued = [i == which for i in range(items)]
    iface, _ = make_interface(ws, kind, names, queued)
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    name = 'port'
    sides = ['P', 'R'] if direction == 'PR' else [direction]
    side = ctx.pick('side', sides)
    keys = names_of(ctx, 'ask', asked)
    want = {}
    unknown = False
    com = {}
    for j, key in enumerate(keys):
        i = index_of(ctx, names, key)
        cls = COM_SPEC[kind, side, i is not None and queued[i]]
        level = 'lite' if j == 0 else 'mark'
        args, match = com_spec_args(ctx, b, cls, f'c{j}', ONE_FIELD[cls], level)
        com[key] = args
        unknown = unknown or i is None
        want[i] = match
    if form == 'dict':
        arg = com
    else:
        arg = list(com.items()) if form == 'list' else tuple(com.items())
    made = None
    if form == 'mixed':
        cls = getattr(E, COM_SPEC[kind, side, False])
        made = cls()
        arg = [made] + list(com.items()) if ctx.flag('first') else list(com.items()) + [made]
    key = 'com_spec' if direction != 'PR' else 'provided_com_spec' if side == 'P' else 'required_com_spec'
    port, exc = refused(make_port, swc, direction, name, iface, **{key: arg})
    if unknown:
        ctx.check(isinstance(exc, ValueError), 'com-spec of an unknown item accepted')
        ctx.check(len(swc.ports) == 0, 'port was added')
    else:
        ctx.check(exc is None, 'com-spec refused')
        check_port(ctx, swc, port, direction, name, iface, kind)
        for s, lst in spec_lists(port, direction).items():
            if s != side:
                ctx.check(len(lst) == 0, 'com-spec nobody asked for')
                continue
            rest = list(lst)
            if made is not None:
                ctx.check(len([x for x in lst if x is made]) == 1, 'com-spec object given')
                rest = [x for x in lst if x is not made]
            ctx.check(len(rest) == len(want), 'number of com-specs')
            for x, i in zip(rest, sorted(want)):
                want[i](x, 'com-spec')
                check_item_ref(ctx, kind, x, iface, names[i], 'com-spec')
    ctx.reach('end')


def t_spec_objects(ctx, direction):
    """Com-spec objects are taken as they are, those of the other direction are refused"""
    ws = autosar.xml.Workspace()
    iface, _ = make_interface(ws, 'SR', ['a', 'b'])
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    sides = ['P', 'R'] if direction == 'PR' else [direction]
    side = ctx.pick('side', sides)
    key = 'com_spec' if direction != 'PR' else 'provided_com_spec' if side == 'P' else 'required_com_spec'
    classes = {'P': spec.P_COM_SPECS, 'R': spec.R_COM_SPECS}[side]
    others = {'R': spec.P_COM_SPECS, 'P': spec.R_COM_SPECS}[side]
    count = ctx.pick('count', [1, 2])
    objs = [getattr(E, ctx.pick(f'class{i}', classes if i == 0 else classes[:2]))() for i in range(count)]
    wrong = ctx.pick('wrong', [None] + (others[:2] + ['text'] if direction != 'PR' else ['text']))
    form = list(objs)
    if wrong is not None:
        form.append(5 if wrong == 'text' else getattr(E, wrong)())
    elif count == 1 and ctx.flag('plain'):
        form = objs[0]
    elif ctx.flag('tuple'):
        form = tuple(objs)
    port, exc = refused(make_port, swc, direction, 'port', iface, **{key: form})
    if wrong is not None:
        ctx.check(isinstance(exc, TypeError), 'com-spec of another kind accepted')
        ctx.check(len(swc.ports) == 0, 'port was added')
    else:
        ctx.check(exc is None, 'com-spec objects refused')
        for s, lst in spec_lists(port, direction).items():
            want = objs if s == side else []
            ctx.check(len(lst) == len(want) and all(x is y for x, y in zip(lst, want)), 'com-spec objects')
        check_port(ctx, swc, port, direction, 'port', iface, 'SR')
    ctx.reach('end')


def t_odd_specs(ctx, kind, direction, items):
    """Com-specs which are no arguments of anything are refused and no port is added"""
    ws = autosar.xml.Workspace()
    names = names_of(ctx, 'item', items)
    iface, _ = make_interface(ws, kind, names)
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    swc.create_p_port('first', iface)
    before = snapshot(swc)
    key = 'com_spec' if direction != 'PR' else ctx.pick('side', ['provided_com_spec', 'required_com_spec'])
    name = names[-1] if names else 'x'
    what = ctx.pick('what', ['number', 'text', 'list', 'none', 'unknown argument', 'triple', 'single', 'no pair'])
    if what in ('triple', 'single', 'no pair'):
        arg = [{'triple': (name, {}, 1), 'single': (name,), 'no pair': 7}[what]]
    elif items < 2:
        # the arguments of the com-spec themselves
        arg = {'no_such_argument': 1}
    else:
        arg = {name: {'number': 7, 'text': 'x', 'list': [{}], 'none': None,
                      'unknown argument': {'no_such_argument': 1}}[what]}
        if ctx.flag('good one first'):
            arg = {names[0]: {}, **arg}
    _, exc = refused(make_port, swc, direction, 'port', iface, **{key: arg})
    ctx.check(exc is not None, 'accepted')
    same(ctx, snapshot(swc), before, 'component changed')
    ctx.reach('end')


def t_port_items(ctx, kind, direction):
    """Elements, operations and mode groups of ports; components with several ports"""
    ws = autosar.xml.Workspace()
    count = 1 if kind == 'MS' else ctx.pick('items', [1, 2])
    names = names_of(ctx, 'item', count)
    iface, items = make_interface(ws, kind, names)
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    ports = names_of(ctx, 'port', 2)
    made = [make_port(swc, 'R' if direction == 'P' else 'P', ports[0], iface),
            make_port(swc, direction, ports[1], iface)]
    ask = ctx.ident('ask', 1)
    hit = index_of(ctx, ports, ask)
    for find, kinds in ((swc.find_r_port, ('R', 'PR')), (swc.find_p_port, ('P', 'PR'))):
        want = None
        if hit is not None and ('R' if direction == 'P' else 'P', direction)[hit] in kinds:
            want = made[hit]
        ctx.check(find(ask) is want, 'port by name and direction')
    ctx.check(swc.find(ask) is (None if hit is None else made[hit]), 'port by name')
    ctx.check(list(swc.provide_ports) == [p for p in made if type(p) is E.ProvidePortPrototype], 'provide ports')
    ctx.check(list(swc.require_ports) == [p for p in made if type(p) is E.RequirePortPrototype], 'require ports')
    ctx.check(list(swc.pr_ports) == [p for p in made if type(p) is E.PRPortPrototype], 'PR ports')
    what = ctx.pick('what', ['named', 'none', 'empty'])
    key = ctx.ident('key', 1) if what == 'named' else None if what == 'none' else ''
    if kind == 'MS':
        ctx.check(swc.get_mode_declaration_group_in_port(made[1]) is items[0], 'mode group of port')
        _, exc = refused(swc.get_data_element_in_port, made[1], key)
        ctx.check(isinstance(exc, TypeError), 'data element in port of another kind')
        _, exc = refused(swc.get_operation_in_port, made[1], key)
        ctx.check(isinstance(exc, TypeError), 'operation in port of another kind')
    else:
        get = swc.get_data_element_in_port if kind == 'SR' else swc.get_operation_in_port
        got, exc = refused(get, made[1], key)
        if what == 'named':
            i = index_of(ctx, names, key)
            ctx.check(exc is None and got is (None if i is None else items[i]), 'item by name')
        elif count == 1:
            ctx.check(exc is None and got is items[0], 'only item')
        else:
            ctx.check(isinstance(exc, ValueError), 'item without a name')
        other = swc.get_operation_in_port if kind == 'SR' else swc.get_data_element_in_port
        _, exc = refused(other, made[1], key)
        ctx.check(isinstance(exc, TypeError), 'item of another kind')
        _, exc = refused(swc.get_mode_declaration_group_in_port, made[1])
        ctx.check(isinstance(exc, TypeError), 'mode group in port of another kind')
    ctx.reach('end')


# ---- C02

def composition(ctx, ws, plan, names):
    """
    A composition and its inner components; plan holds (place, direction) of the ports, place being the number of
    the component or None. names: those of the components, then those of the ports
    """
    iface, _ = make_interface(ws, 'SR', ['a'])
    pkg = ws.make_packages('/Swcs')
    inner = [place for place, _ in plan if place is not None]
    types, protos = {}, {}
    comp = E.CompositionSwComponentType('Comp')
    pkg.append(comp)
    for place in sorted(set(inner)):
        swc = E.ApplicationSoftwareComponentType('TU'[place])
        pkg.append(swc)
        types[place] = swc
        protos[place] = comp.create_component_prototype(swc, names[0][place])
    ports = []
    for i, (place, direction) in enumerate(plan):
        owner = comp if place is None else types[place]
        ports.append(make_port(owner, direction, names[1][i], iface))
    return comp, types, protos, ports


def expected(ctx, plan, names):
    """What a connector between the two ports has to be: (class, name, {field: (path, dest, component path)}), None"""
    (place1, dir1), (place2, dir2) = plan
    comp = ['' if p is None else names[0][p] for p, _ in plan]
    path = ['/Swcs/Comp/' + names[1][i] if p is None else f'/Swcs/{"TU"[p]}/' + names[1][i]
            for i, (p, _) in enumerate(plan)]
    dest = [PORT_DEST[d] for _, d in plan]

    def end(i):
        return (path[i], dest[i], None if plan[i][0] is None else '/Swcs/Comp/' + comp[i])
    if place1 is None and place2 is None:
        order = [0, 1]
        if dir1 == 'R' or dir2 == 'P':
            order = [1, 0]
        if plan[order[0]][1] == 'R' or plan[order[1]][1] == 'P':
            return None
        return (E.PassThroughSwConnector, names[1][order[0]] + '_' + names[1][order[1]],
                {'provide_port': end(order[0]), 'require_port': end(order[1])})
    if place1 is None or place2 is None:
        i, o = (1, 0) if place1 is None else (0, 1)
        if plan[o][1] == 'P':
            name = comp[i] + '_' + names[1][i] + '_' + names[1][o]
        else:
            name = names[1][o] + '_' + comp[i] + '_' + names[1][i]
        return E.DelegationSwConnector, name, {'inner_port': end(i), 'outer_port': end(o)}
    if dir1 in ('R', 'PR') and dir2 in ('P', 'PR'):
        r, p = 0, 1
    elif dir1 in ('P', 'PR') and dir2 in ('R', 'PR'):
        r, p = 1, 0
    else:
        return None
    return (E.AssemblySwConnector, '_'.join([comp[p], names[1][p], comp[r], names[1][r]]),
            {'provide_port': end(p), 'require_port': end(r)})


def check_end(ctx, x, want, w):
    path, dest, comp = want
    if comp is None:
        check_ref(ctx, x, path, dest, w)
    else:
        ctx.check(type(x) is E.PortInCompositionTypeInstanceRef, w + ': kind of reference')
        check_ref(ctx, x.port_ref, path, dest, w + ' port')
        check_ref(ctx, x.component_ref, comp, Dest.SW_COMPONENT_PROTOTYPE, w + ' component')


def check_connector(ctx, comp, x, want):
    cls, name, ends = want
    ctx.check(type(x) is cls, f'{type(x).__name__} instead of {cls.__name__}')
    ctx.check(ctx.eq(x.name, name), 'name of connector')
    for key, end in ends.items():
        check_end(ctx, getattr(x, key), end, key)
    ctx.check(x.parent is comp and comp.connectors[-1] is x, 'connector is not in the composition')
    ctx.check(comp.find(name) is x, 'connector is not found')


PLANS = {'assembly': (0, 1), 'within': (0, 0), 'to inner': (None, 0), 'from inner': (0, None), 'outer': (None, None)}


def t_connector(ctx, places, hi, twice):
    """The connector made between two ports, whatever their order"""
    dirs = ctx.pick('dirs', [(a, b) for a in ('P', 'R', 'PR') for b in ('P', 'R', 'PR')])
    plan = [(places[0], dirs[0]), (places[1], dirs[1])]
    comps = names_of(ctx, 'comp', 2 if 1 in places else 1 if 0 in places else 0, hi)
    # ports of different components may have the same name, and that of a component within the composition
    ports = names_of(ctx, 'a', 1, hi, comps if places[0] is None else [])
    ports += names_of(ctx, 'b', 1, hi, (comps if places[1] is None else []) + (ports if places[0] == places[1] else []))
    names = (comps, ports)
    ws = autosar.xml.Workspace()
    comp, _, protos, objs = composition(ctx, ws, plan, names)
    before = snapshot(ws.packages)
    want = expected(ctx, plan, names)
    text = ['' if p is None else comps[p] + '/' for p in places]
    refs = [text[0] + ports[0], text[1] + ports[1]]
    # identifiers such as these take the place of a connector
    taken = want is not None and ctx.test(ctx.any([ctx.eq(want[1], n) for n in comps + [
        ports[i] for i in (0, 1) if places[i] is None]]))
    got, exc = refused(comp.create_connector, refs[0], refs[1], ws)
    if want is None or taken:
        ctx.check(isinstance(exc, ValueError), 'connector accepted')
        same(ctx, snapshot(ws.packages), before, 'composition changed')
    else:
        ctx.check(exc is None, 'connector refused')
        ctx.check(len(comp.connectors) == 1, 'number of connectors')
        ctx.check(got is None or got is comp.connectors[0], 'another connector returned')
        check_connector(ctx, comp, comp.connectors[0], want)
        first = comp.connectors[0]
        same(ctx, [snapshot(p) for p in objs], [snapshot(p) for p in objs], 'ports')
        if twice:
            after = snapshot(ws.packages)
            swap = ctx.flag('swap') and 'PR' not in dirs
            a, b = (refs[1], refs[0]) if swap else refs
            got, exc = refused(comp.create_connector, a, b, ws)
            ctx.check(isinstance(exc, ValueError), 'the same connector again')
            ctx.check(len(comp.connectors) == 1 and comp.connectors[0] is first, 'connectors')
            same(ctx, snapshot(ws.packages), after, 'composition changed')
    ctx.reach('end')


def t_name_in_use(ctx, places):
    """A port, component or connector of the composition may have the name the connector would get"""
    dirs = ctx.pick('dirs', [('P', 'R'), ('R', 'P'), ('PR', 'R'), ('P', 'PR')])
    plan = [(places[0], dirs[0]), (places[1], dirs[1])]
    names = (['c', 'd'], ['a', 'b'])
    ws = autosar.xml.Workspace()
    comp, types, _, _ = composition(ctx, ws, plan, names)
    want = expected(ctx, plan, names)
    other = ctx.text('other', len(want[1]) - 1, len(want[1]) + 1, 'ident', first='ident1')
    kind = ctx.pick('kind', ['port', 'component', 'connector'])
    if kind == 'port':
        make_port(comp, ctx.pick('direction', ['P', 'R', 'PR']), other, ws.find('/Ifs/If'))
    elif kind == 'component':
        swc = E.ApplicationSoftwareComponentType('Other')
        ws.find('/Swcs').append(swc)
        comp.create_component_prototype(swc, other)
    else:
        comp.append_connector(E.PassThroughSwConnector(other))
    count = len(comp.connectors)
    before = snapshot(ws.packages)
    got, exc = refused(comp.create_connector, *[('' if p is None else names[0][p] + '/') + n
                                                for p, n in zip(places, names[1])], ws)
    if ctx.test(ctx.eq(other, want[1])):
        ctx.check(isinstance(exc, ValueError), 'name in use')
        same(ctx, snapshot(ws.packages), before, 'composition changed')
    else:
        ctx.check(exc is None and len(comp.connectors) == count + 1, 'connector refused')
        check_connector(ctx, comp, comp.connectors[-1], want)
    ctx.reach('end')


def t_bad_connector(ctx):
    """References which lead to no port"""
    ws = autosar.xml.Workspace()
    comps, ports = ['c0', 'c1'], ['q0', 'q1']
    comp, types, protos, objs = composition(ctx, ws, [(0, 'P'), (1, 'R')], (comps, ports))
    iface, _ = make_interface(ws, 'SR', ['a'], name='If2')
    comp.create_r_port('outer', iface)
    for label, path in (('dangling', '/Swcs/Nothing'), ('odd', '/Ifs/If')):
        comp.append_component(E.SwComponentPrototype(label, ar_ref.SwComponentTypeRef(
            path, Dest.APPLICATION_SW_COMPONENT_TYPE)))
    # a composition among the components, which has a component and a connector of its own
    deep = E.CompositionSwComponentType('Deep')
    ws.find('/Swcs').append(deep)
    deep.create_component_prototype(types[0], 'd0')
    deep.append_connector(E.PassThroughSwConnector('d1'))
    comp.create_component_prototype(deep, 'deep')
    before = snapshot(ws.packages)
    name = ctx.ident('name', 2)
    form = ctx.pick('form', ['port', 'inner', 'component', 'three', 'dangling', 'odd', 'lone', 'deep'])
    bad = {'deep': 'deep/' + name,
           'port': 'c0/' + name, 'inner': name + '/q0', 'component': 'c0', 'three': 'c0/q0/' + name,
           'dangling': 'dangling/' + name, 'odd': 'odd/' + name, 'lone': name}[form]
    fine = (form == 'port' and ctx.test(ctx.eq(name, 'q0'))) or (form == 'inner' and ctx.test(ctx.eq(name, 'c0')))
    good = ctx.pick('other', ['c1/q1', 'outer'])
    a, b = (bad, good) if ctx.flag('first') else (good, bad)
    got, exc = refused(comp.create_connector, a, b, ws)
    if fine:
        ctx.check(exc is None and len(comp.connectors) == 1, 'connector refused')
    else:
        ctx.check(isinstance(exc, ValueError), 'reference to no port accepted')
        same(ctx, snapshot(ws.packages), before, 'composition changed')
    ctx.reach('end')


def t_connectors(ctx, hi):
    """Several connectors: each has its name, none is lost, a name already in use is refused"""
    ws = autosar.xml.Workspace()
    comps = names_of(ctx, 'comp', 2, hi)
    ports = names_of(ctx, 'port', 2, hi)
    iface, _ = make_interface(ws, 'SR', ['a'])
    pkg = ws.make_packages('/Swcs')
    comp = E.CompositionSwComponentType('Comp')
    pkg.append(comp)
    left, right = E.ApplicationSoftwareComponentType('Left'), E.ApplicationSoftwareComponentType('Right')
    for swc in (left, right):
        pkg.append(swc)
        for p in ports:
            make_port(swc, 'P' if swc is left else 'R', p, iface)
    comp.create_component_prototype(left, comps[0])
    comp.create_component_prototype(right, comps[1])
    made = []
    used = list(comps)
    for i in range(2):
        k, m = ctx.pick(f'from{i}', [0, 1]), ctx.pick(f'to{i}', [0, 1])
        name = '_'.join([comps[0], ports[k], comps[1], ports[m]])
        refs = [comps[0] + '/' + ports[k], comps[1] + '/' + ports[m]]
        if ctx.flag(f'order{i}'):
            refs.reverse()
        got, exc = refused(comp.create_connector, refs[0], refs[1], ws)
        if ctx.test(ctx.any([ctx.eq(name, u) for u in used])):
            ctx.check(isinstance(exc, ValueError), 'name used twice')
        else:
            ctx.check(exc is None, 'connector refused')
            made.append((comp.connectors[-1], name))
            used.append(name)
        ctx.check(len(comp.connectors) == len(made), 'number of connectors')
        for (x, n), c in zip(made, comp.connectors):
            ctx.check(x is c and ctx.test(ctx.eq(x.name, n)), 'earlier connector')
            ctx.check(comp.find(n) is x, 'connector is not found')
    ctx.reach('end')


# ---- C03

LISTS = ['data_read_access', 'data_receive_point_by_argument', 'data_receive_point_by_value', 'data_send_point',
         'data_write_access', 'mode_access_point', 'mode_switch_point', 'parameter_access', 'server_call_point',
         'argument', 'async_server_call_result_point', 'external_triggering_point', 'internal_triggering_point',
         'read_local_variable', 'write_local_variable', 'wait_point']
#  (interface, direction, prefix) -> (list, name prefix, class)
ACCESS = {}
for _p in (None, 'ARG', 'ARGUMENT'):
    ACCESS['SR', 'R', _p] = ('data_receive_point_by_argument', 'REC', E.VariableAccess)
for _p in ('VAL', 'VALUE'):
    ACCESS['SR', 'R', _p] = ('data_receive_point_by_value', 'REC', E.VariableAccess)
ACCESS['SR', 'R', 'READ'] = ('data_read_access', 'READ', E.VariableAccess)
ACCESS['SR', 'P', None] = ACCESS['SR', 'P', 'SEND'] = ('data_send_point', 'SEND', E.VariableAccess)
ACCESS['SR', 'P', 'WRITE'] = ('data_write_access', 'WRITE', E.VariableAccess)
for _k in list(ACCESS):
    ACCESS[('NV',) + _k[1:]] = ACCESS[_k]
for _d in ('R', 'PR'):
    ACCESS['CS', _d, None] = ACCESS['CS', _d, 'SYNC'] = ('server_call_point', 'CALL', E.SynchronousServerCallPoint)
    ACCESS['CS', _d, 'ASYNC'] = ('server_call_point', 'CALL', E.AsynchronousServerCallPoint)
for _d in ('R', 'P'):
    ACCESS['MS', _d, None] = ('mode_access_point', None, E.ModeAccessPoint)
    ACCESS['MS', _d, 'ACCESS'] = ('mode_access_point', 'ACCESS', E.ModeAccessPoint)
ACCESS['MS', 'P', 'SWITCH'] = ('mode_switch_point', 'SWITCH', E.ModeSwitchPoint)
for _d in ('R', 'P', 'PR'):
    ACCESS['PRM', _d, None] = ('parameter_access', 'PRM', E.ParameterAccess)
EXTRA = {E.VariableAccess: ('desc', None), E.ModeAccessPoint: ('return_value_provision', 'e'),
         E.ModeSwitchPoint: ('return_value_provision', 'e'), E.SynchronousServerCallPoint: ('timeout', 'f'),
         E.AsynchronousServerCallPoint: ('timeout', 'f'), E.ParameterAccess: ('return_value_provision', 'e')}


def access_target(x):
    """(port reference, item reference) of a port access"""
    if type(x) is E.VariableAccess:
        iref = x.accessed_variable.ar_variable_iref
        return iref.port_prototype_ref, iref.target_data_prototype_ref
    if type(x) is E.ParameterAccess:
        iref = x.accessed_parameter.autosar_parameter
        return iref.port_prototype, iref.target_data_prototype
    if isinstance(x, E.ServerCallPoint):
        return x.operation.context_port, x.operation.target_required_operation
    group = x.mode_group
    return group.context_port, group.target_mode_group


def access_name(x):
    if type(x) is E.ModeAccessPoint:
        return None if x.ident is None else x.ident.name
    return x.name


def runnable_of(ws, swc, name='Run'):
    behavior = swc.create_internal_behavior('Behavior')
    return behavior, behavior.create_runnable(name)


def cased(ctx, text, tag):
    """The text in some mixture of cases"""
    how = ctx.pick(tag, ['as is', 'lower', 'title'])
    return text if how == 'as is' else text.lower() if how == 'lower' else text.title()


def t_access(ctx, kind, direction, items):
    """One access: the list it goes to, its class, name and references"""
    ws = autosar.xml.Workspace()
    settings = prefixes(ws)
    names = names_of(ctx, 'item', items)
    iface, objs = make_interface(ws, kind, names)
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    port_name = ctx.ident('port', 1)
    make_port(swc, 'R', 'Other_port', iface)
    port = make_port(swc, direction, port_name, iface)
    _, run = runnable_of(ws, swc)
    prefix = ctx.pick('prefix', [k[2] for k in ACCESS if k[:2] == (kind, direction)])
    where, head, cls = ACCESS[kind, direction, prefix]
    ask = ctx.ident('ask', 1)
    short = ctx.flag('short')
    hit = index_of(ctx, names, ask) if not short else 0 if items == 1 else None
    text = port_name if short else port_name + '/' + ask
    if prefix is not None:
        text = cased(ctx, prefix, 'case') + ctx.pick('colon', [':', ': ']) + text
    how = ctx.pick('how', ['text', 'list', 'name', 'args'] if hit is not None else ['text', 'name'])
    own = None
    extra = None
    if how in ('name', 'args'):
        args = {}
        if how == 'name':
            own = ctx.ident('own', 1)
            args['name'] = own
        else:
            key, k = EXTRA[cls]
            extra = (key, {'e': ar_enum.RteApiReturnValueProvision.RETURN_VALUE_PROVIDED, 'f': 0.5,
                           None: 'Text'}[k]) if not (kind == 'MS' and prefix is None) else None
            if extra is not None:
                args[key] = extra[1]
        given = list(args.items())
        arg = [(text, args)] if ctx.flag('in list') else (text, args)
    else:
        arg = [text] if how == 'list' else text
    before = snapshot(swc.ports), snapshot(iface)
    _, exc = refused(run.create_port_access, arg)
    if how in ('name', 'args'):
        ctx.check(list(args.items()) == given, 'arguments of the caller changed')
    if hit is None:
        ctx.check(isinstance(exc, (RuntimeError, ValueError)), 'access to no item accepted')
        for other in LISTS:
            ctx.check(len(getattr(run, other)) == 0, 'access added')
    else:
        ctx.check(exc is None, 'access refused')
        for other in LISTS:
            ctx.check(len(getattr(run, other)) == (1 if other == where else 0), f'{other} instead of {where}')
        x = getattr(run, where)[0]
        ctx.check(type(x) is cls, 'kind of access')
        want = None if head is None else head + '_' + port_name + '_' + names[hit] if own is None else own
        got = access_name(x)
        ctx.check((got is None) == (want is None), 'name of access')
        if want is not None:
            ctx.check(ctx.eq(got, want), 'name of access')
        port_ref, item_ref = access_target(x)
        check_ref(ctx, port_ref, '/Swcs/Swc/' + port_name, PORT_DEST[direction], 'port of access')
        check_ref(ctx, item_ref, '/Ifs/If/' + names[hit], ITEM_DEST[kind], 'item of access')
        if extra is not None:
            holder = x.ident if cls is E.ModeAccessPoint else x
            value = getattr(holder, extra[0])
            if extra[0] == 'desc':
                ctx.check(value is not None and len(value.elements) == 1, 'argument of access')
            else:
                ctx.check(value == extra[1], 'argument of access')
        elif cls is not E.ModeAccessPoint:
            value = getattr(x, EXTRA[cls][0])
            ctx.check(value is None, 'argument nobody gave')
        if cls is not E.ModeAccessPoint:
            ctx.check(x.parent is run, 'parent of access')
    same(ctx, snapshot(swc.ports), before[0], 'ports changed')
    same(ctx, snapshot(iface), before[1], 'interface changed')
    ctx.reach('end')


def t_access_text(ctx, hi):
    """Texts with any prefix and any port name: one access to the port named, or refused"""
    ws = autosar.xml.Workspace()
    prefixes(ws)
    iface, _ = make_interface(ws, 'SR', ['e'])
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    names = names_of(ctx, 'port', 2)
    for n in names:
        make_port(swc, 'R', n, iface)
    _, run = runnable_of(ws, swc)
    prefix = ctx.text('prefix', 0, hi, 'upper')
    ask = ctx.ident('ask', 1)
    hit = index_of(ctx, names, ask)
    known = ctx.test(ctx.any([ctx.eq(prefix, p) for p in ('ARG', 'ARGUMENT', 'VAL', 'VALUE', 'READ', 'WRITE', 'SEND',
                                                          'ASYNC', 'SYNC', 'ACCESS', 'SWITCH') if len(p) <= hi]))
    _, exc = refused(run.create_port_access, prefix + ':' + ask)
    count = sum(len(getattr(run, n)) for n in LISTS)
    if hit is None or not known:
        ctx.check(isinstance(exc, ValueError), 'text accepted')
        ctx.check(count == 0, 'access added')
    elif ctx.test(ctx.any([ctx.eq(prefix, p) for p in ('ARG', 'VAL', 'READ', 'VALUE', 'ARGUMENT')])):
        ctx.check(exc is None and count == 1, 'text refused')
        lst = run.data_receive_point_by_value if ctx.test(ctx.any([ctx.eq(prefix, 'VAL'), ctx.eq(prefix, 'VALUE')])) \
            else run.data_read_access if ctx.test(ctx.eq(prefix, 'READ')) else run.data_receive_point_by_argument
        ctx.check(len(lst) == 1, 'list of the access')
        check_ref(ctx, access_target(lst[0])[0], '/Swcs/Swc/' + names[hit], Dest.R_PORT_PROTOTYPE, 'port')
    ctx.reach('end')


def t_access_many(ctx, count):
    """Several accesses in one call or one by one: all there, in order, with names of their own"""
    ws = autosar.xml.Workspace()
    prefixes(ws)
    iface, _ = make_interface(ws, 'SR', ['x', 'y'])
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    ports = names_of(ctx, 'port', 2)
    dirs = ['P', 'R']
    for n, d in zip(ports, dirs):
        make_port(swc, d, n, iface)
    _, run = runnable_of(ws, swc)
    texts, want = [], {n: [] for n in LISTS}
    for i in range(count):
        d, item = ctx.pick(f'which{i}', [0, 1]), ctx.pick(f'item{i}', ['x', 'y'])
        prefix = ctx.pick(f'prefix{i}', [None, 'READ' if d else 'WRITE'])
        where, head, _ = ACCESS['SR', dirs[d], prefix]
        texts.append(('' if prefix is None else prefix + ':') + ports[d] + '/' + item)
        want[where].append((d, item, head + '_' + ports[d] + '_' + item))
    if ctx.flag('one call'):
        run.create_port_access(texts)
    else:
        for t in texts:
            run.create_port_access(t)
    for where in LISTS:
        lst = getattr(run, where)
        ctx.check(len(lst) == len(want[where]), 'number of accesses')
        for x, (d, item, name) in zip(lst, want[where]):
            port_ref, item_ref = access_target(x)
            check_ref(ctx, port_ref, '/Swcs/Swc/' + ports[d], PORT_DEST[dirs[d]], 'port of access')
            check_ref(ctx, item_ref, '/Ifs/If/' + item, Dest.VARIABLE_DATA_PROTOTYPE, 'item of access')
            if len([w for w in want[where] if w[:2] == (d, item)]) == 1:
                ctx.check(ctx.eq(x.name, name), 'name of access')
        for i, x in enumerate(lst):
            for y in lst[:i]:
                ctx.check(ctx.no(ctx.eq(x.name, y.name)), 'name used twice')
    ctx.reach('end')


# ---- C04

def behavior_of(ctx, kind, direction, names, ports, **kw):
    ws = autosar.xml.Workspace()
    settings = prefixes(ws)
    iface, items = make_interface(ws, kind, names)
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    made = [make_port(swc, d, n, iface) for n, d in zip(ports, direction)]
    behavior = swc.create_internal_behavior('Behavior')
    return ws, settings, iface, items, swc, made, behavior


def check_event(ctx, behavior, x, cls, name, run, kw):
    ctx.check(type(x) is cls, f'{type(x).__name__} instead of {cls.__name__}')
    ctx.check(ctx.eq(x.name, name), 'name of event')
    check_ref(ctx, x.start_on_event, '/Swcs/Swc/Behavior/' + run, Dest.RUNNABLE_ENTITY, 'runnable of event')
    ctx.check(isinstance(x.category, str) and ctx.eq(x.category, kw['category']), 'further arguments of event')
    ctx.check(len(behavior.events) == 1 and behavior.events[-1] is x and x.parent is behavior,
              'event is not in the behavior')
    ctx.check(len(x.disabled_modes) == 0, 'disabled modes nobody gave')


SIMPLE = {'background': ('create_background_event', E.BackgroundEvent, 'background_event_prefix'),
          'init': ('create_init_event', E.InitEvent, 'init_event_prefix'),
          'timing': ('create_timing_event', E.TimingEvent, 'timing_event_prefix')}
TARGET = {'receive': ('create_data_received_event', E.DataReceivedEvent, 'data_receive_event_prefix', 'SR', 'R'),
          'error': ('create_data_receive_error_event', E.DataReceiveErrorEvent, 'data_receive_error_event_prefix',
                    'SR', 'R'),
          'invoked': ('create_operation_invoked_event', E.OperationInvokedEvent, 'operation_invoked_event_prefix',
                      'CS', 'P'),
          'manager': ('create_swc_mode_manager_error_event', E.SwcModeManagerErrorEvent,
                      'swc_mode_manager_error_event_prefix', 'MS', 'P')}


def event_names(ctx, ws, key, settings):
    """(keyword arguments, name given or None, prefix or None)"""
    how = ctx.pick('name', ['given', 'made', 'no prefix', 'empty prefix'])
    further = {'category': ctx.text('category', 1, 1, 'xml')}
    if how == 'given':
        own = ctx.ident('own', 1)
        return {'event_name': own, **further}, own, None
    if how == 'made':
        prefix = ctx.ident('prefix', 1)
        ws.behavior_settings.set_value(key, prefix)
        return further, None, prefix
    setattr(ws.behavior_settings, key, None if how == 'no prefix' else '')
    return further, None, None


def t_simple_event(ctx, kind):
    """Background, init and timing events"""
    method, cls, key = SIMPLE[kind]
    runs = names_of(ctx, 'run', 2)
    ws, settings, _, _, swc, _, behavior = behavior_of(ctx, 'SR', ['P'], ['a'], ['p'])
    objs = [behavior.create_runnable(r) for r in runs]
    kw, own, prefix = event_names(ctx, ws, key, settings)
    ask = ctx.ident('ask', 1)
    hit = index_of(ctx, runs, ask)
    ctx.check(behavior.find_runnable(ask) is (None if hit is None else objs[hit]), 'runnable by name')
    values, match = {}, {}
    b = Builder(ctx)
    if kind == 'timing':
        if own is not None:
            for k in ('period', 'offset'):
                if ctx.flag('with ' + k):
                    values[k], match[k] = b.val('f', k, 'lite', 1)
        else:
            values['period'] = 0
            match['period'] = lambda x, w: ctx.check(x is not None and ctx.test(ctx.eq(x, 0)), w)
    before = snapshot(swc)
    got, exc = refused(getattr(behavior, method), ask, **kw, **values)
    if hit is None:
        ctx.check(isinstance(exc, KeyError), 'event of an unknown runnable')
        same(ctx, snapshot(swc), before, 'component changed')
    elif own is None and prefix is None:
        ctx.check(isinstance(exc, RuntimeError), 'event without a name')
        same(ctx, snapshot(swc), before, 'component changed')
    else:
        ctx.check(exc is None, 'event refused')
        check_event(ctx, behavior, got, cls, prefix + '_' + runs[hit] if own is None else own, runs[hit], kw)
        for k in ('period', 'offset') if kind == 'timing' else ():
            if k in values:
                match[k](getattr(got, k), k)
            else:
                b.absent(getattr(got, k), k)
    ctx.reach('end')


def t_target_event(ctx, kind, direction, items):
    """Events of data elements, operations and modes"""
    method, cls, key, iface_kind, side = TARGET[kind]
    names = names_of(ctx, 'item', items)
    ports = names_of(ctx, 'port', 2)
    ws, settings, iface, objs, swc, made, behavior = behavior_of(
        ctx, iface_kind, [direction, 'R' if side == 'P' else 'P'], names, ports)
    behavior.create_runnable('Other')
    behavior.create_runnable('Run')
    kw, own, prefix = event_names(ctx, ws, key, settings)
    port = ctx.ident('port', 1)
    found = index_of(ctx, ports, port) == 0 and direction in (side, 'PR')
    hit = None
    if iface_kind == 'MS':
        text = port
        hit = 0
    elif ctx.flag('short'):
        text = port
        hit = 0 if items == 1 else None
    else:
        ask = ctx.ident('ask', 1)
        text = port + '/' + ask
        hit = index_of(ctx, names, ask)
    run = ctx.pick('run', ['Run', 'Nothing'])
    before = snapshot(swc)
    got, exc = refused(getattr(behavior, method), run, text, **kw)
    if run == 'Nothing':
        ctx.check(isinstance(exc, KeyError), 'event of an unknown runnable')
    elif not found or hit is None:
        ctx.check(isinstance(exc, ValueError), 'event of nothing accepted')
    elif own is None and prefix is None:
        ctx.check(isinstance(exc, RuntimeError), 'event without a name')
    else:
        ctx.check(exc is None, 'event refused')
        name = prefix + '_Run_' + ports[0] + '_' + names[hit] if own is None else own
        check_event(ctx, behavior, got, cls, name, 'Run', kw)
        if kind in ('receive', 'error'):
            port_ref, item = got.data.context_port, got.data.target_data_element
        elif kind == 'invoked':
            port_ref, item = got.operation.context_port, got.operation.target_provided_operation
        else:
            port_ref, item = got.mode_group.context_port, got.mode_group.target_mode_group
        check_ref(ctx, port_ref, '/Swcs/Swc/' + ports[0], PORT_DEST[direction], 'port of event')
        check_ref(ctx, item, '/Ifs/If/' + names[hit], ITEM_DEST[iface_kind], 'target of event')
    if exc is not None:
        same(ctx, snapshot(swc), before, 'component changed')
    ctx.reach('end')


def t_mode_event(ctx, direction, form):
    """Mode switch events: one mode or a transition"""
    ports = names_of(ctx, 'port', 2)
    ports = ports + ['Third']
    ws, settings, iface, objs, swc, made, behavior = behavior_of(ctx, 'MS', [direction, 'P', 'R'], ['Mode'], ports)
    behavior.create_runnable('Other')
    behavior.create_runnable('Run')
    kw, own, prefix = event_names(ctx, ws, 'swc_mode_switch_event_prefix', settings)
    group = ws.find('/Modes/Group')
    modes = names_of(ctx, 'mode', 2)
    for m in modes:
        group.create_mode_declaration(m)
    count = 2 if form != 'text' else 1
    good = True
    texts, want = [], []
    for i in range(count):
        port = ctx.ident('port0?', 1) if i == 0 else ports[ctx.pick('second port', [0, 2])]
        ask = ctx.ident(f'ask{i}', 1)
        p, m = index_of(ctx, ports, port), index_of(ctx, modes, ask)
        if i == 0 and ctx.flag('no mode'):
            texts.append(port)
            good = False
        else:
            texts.append(port + '/' + ask)
        good = good and (p == 0 and direction != 'P' or p == 2) and m is not None
        want.append((p, m))
    activation = ctx.pick('activation', [None] + list(ar_enum.ModeActivationKind)) if own is not None else None
    before = snapshot(swc)
    arg = texts[0] if form == 'text' else texts if form == 'list' else tuple(texts)
    got, exc = refused(behavior.create_swc_mode_mode_switch_event, 'Run', arg, activation, **kw)
    if own is None and prefix is None:
        ctx.check(isinstance(exc, RuntimeError if good else (RuntimeError, ValueError)), 'event without a name')
    elif not good:
        ctx.check(isinstance(exc, ValueError), 'event of nothing accepted')
    else:
        ctx.check(exc is None, 'event refused')
        check_event(ctx, behavior, got, E.SwcModeSwitchEvent, prefix + '_Run' if own is None else own, 'Run', kw)
        ctx.check(got.activation is activation, 'activation')
        irefs = [got.mode] if form == 'text' else got.mode
        ctx.check(form == 'text' or (isinstance(got.mode, tuple) and len(got.mode) == 2), 'transition')
        for iref, (p, m) in zip(irefs, want):
            ctx.check(type(iref) is E.RModeInAtomicSwcInstanceRef, 'reference to a mode')
            check_ref(ctx, iref.context_port, '/Swcs/Swc/' + ports[p], PORT_DEST['R' if p else direction],
                      'port of event')
            check_ref(ctx, iref.context_mode_declaration_group_prototype, '/Ifs/If/Mode',
                      Dest.MODE_DECLARATION_GROUP_PROTOTYPE, 'mode group of event')
            check_ref(ctx, iref.target_mode_declaration, '/Modes/Group/' + modes[m], Dest.MODE_DECLARATION,
                      'mode of event')
    if exc is not None:
        same(ctx, snapshot(swc), before, 'component changed')
    ctx.reach('end')


def t_odd_mode_event(ctx):
    """What is neither one mode nor two is refused"""
    port, mode = ctx.ident('port', 1), ctx.ident('mode', 1)
    ws, settings, iface, objs, swc, made, behavior = behavior_of(ctx, 'MS', ['R'], ['Mode'], [port])
    ws.find('/Modes/Group').create_mode_declaration(mode)
    behavior.create_runnable('Run')
    good = port + '/' + mode
    arg = ctx.pick('arg', [[], [good], [good, good, good], [good, 7], [None, good], [good, ''], ['', good], '', None, 7,
                           (good, port + '/'), (good, '/' + mode), [good, mode], {'a': good}])
    before = snapshot(swc)
    kw = {} if ctx.flag('default name') else {'event_name': 'Event'}
    if not kw:
        ws.behavior_settings.swc_mode_switch_event_prefix = 'MST'
    _, exc = refused(behavior.create_swc_mode_mode_switch_event, 'Run', arg, None, **kw)
    ctx.check(exc is not None, 'accepted')
    same(ctx, snapshot(swc), before, 'component changed')
    ctx.reach('end')


def t_runnable(ctx, areas):
    """Runnables: symbol, values and exclusive areas by name"""
    names = names_of(ctx, 'area', areas)
    ws, _, _, _, swc, _, behavior = behavior_of(ctx, 'SR', [], ['a'], [])
    for n in names:
        behavior.create_exclusive_area(n)
    name = ctx.ident('name', 1)
    kw = {}
    symbol = ctx.pick('which symbol', ['left', 'empty', 'none', 'given'])
    want = name
    if symbol == 'none':
        kw['symbol'] = want = None
    elif symbol == 'empty':
        kw['symbol'] = ''
    elif symbol == 'given':
        kw['symbol'] = want = ctx.ident('symbol', 1)
    other = ctx.pick('other', [None, 'can_be_invoked_concurrently', 'minimum_start_interval', 'reentrancy_level'])
    value = None
    if other is not None:
        value = {'can_be_invoked_concurrently': False, 'minimum_start_interval': 0,
                 'reentrancy_level': ar_enum.ReentrancyLevel.NON_REENTRANT}[other]
        kw[other] = value
    asked, extra = [], []
    if areas:
        count = ctx.pick('asked', [0, 1, 2])
        asked = [ctx.ident(f'ask{i}', 1) for i in range(count)]
        kw['can_enter_leave'] = asked[0] if count == 1 and ctx.flag('plain') else list(asked)
        if other is None and symbol == 'left' and isinstance(kw['can_enter_leave'], list):
            form = ctx.pick('reference', [None, 'reference', 'conditional'])
            if form is not None:
                given = ar_ref.ExclusiveAreaRef('/Other/' + ctx.ident('ref', 1))
                kw['can_enter_leave'].insert(ctx.pick('at', list(range(count + 1))), given if form == 'reference' else
                                             E.ExclusiveAreaRefConditional(given))
                extra.append(str(given))
    hits = [index_of(ctx, names, a) for a in asked]
    before = snapshot(swc)
    got, exc = refused(behavior.create_runnable, name, **kw)
    if None in hits:
        ctx.check(isinstance(exc, ValueError), 'unknown exclusive area accepted')
        same(ctx, snapshot(swc), before, 'component changed')
    else:
        ctx.check(exc is None, 'runnable refused')
        ctx.check(type(got) is E.RunnableEntity and behavior.runnables == [got] and got.parent is behavior, 'runnable')
        ctx.check(ctx.eq(got.name, name), 'name of runnable')
        ctx.check((got.symbol is None) == (want is None), 'symbol')
        if want is not None:
            ctx.check(ctx.eq(got.symbol, want), 'symbol')
        ctx.check(behavior.find_runnable(name) is got, 'runnable is not found')
        check_ref(ctx, got.ref(), '/Swcs/Swc/Behavior/' + name, Dest.RUNNABLE_ENTITY, 'reference of runnable')
        ctx.check(len(got.can_enter_leave) == len(set(hits)) + len(extra), 'number of exclusive areas')
        for path in ['/Swcs/Swc/Behavior/' + names[i] for i in set(hits)] + extra:
            paths = [str(x.exclusive_area) for x in got.can_enter_leave]
            ctx.check(ctx.any([ctx.eq(p, path) for p in paths]), 'exclusive area missing')
        for k in ('can_be_invoked_concurrently', 'minimum_start_interval', 'reentrancy_level'):
            x = getattr(got, k)
            ctx.check(x is value or x == value if k == other else x is None, k)
    ctx.reach('end')


def t_event_names(ctx, count):
    """Events which would have the same name have names of their own"""
    ws, _, _, _, swc, _, behavior = behavior_of(ctx, 'SR', ['R'], ['a'], ['p'])
    runs = names_of(ctx, 'run', 2)
    for r in runs:
        behavior.create_runnable(r)
    for kind, direction, port in (('CS', 'P', 'server'), ('MS', 'P', 'manager'), ('MS', 'R', 'user')):
        make_port(swc, direction, port, make_interface(ws, kind, ['x'], name='If_' + port)[0])
    want = []
    for i in range(count):
        k = ctx.pick(f'kind{i}', ['init', 'timing', 'receive', 'background', 'error', 'invoked', 'manager', 'switch'])
        r = ctx.pick(f'which{i}', [0, 1])
        kw = {'event_name': ctx.ident(f'own{i}', 1)} if i and ctx.flag(f'named{i}') else {}
        kw['category'] = ctx.text(f'category{i}', 1, 1, 'xml')
        method, args = {'init': ('create_init_event', []), 'timing': ('create_timing_event', [1]),
                        'receive': ('create_data_received_event', ['p/a']),
                        'background': ('create_background_event', []),
                        'error': ('create_data_receive_error_event', ['p/a']),
                        'invoked': ('create_operation_invoked_event', ['server/x']),
                        'manager': ('create_swc_mode_manager_error_event', ['manager']),
                        'switch': ('create_swc_mode_mode_switch_event', ['user/On'])}[k]
        x = getattr(behavior, method)(runs[r], *args, **kw)
        want.append((x, r, kw['category']))
        ctx.check(len(behavior.events) == len(want), 'number of events')
    for (x, r, c), y in zip(want, behavior.events):
        ctx.check(x is y, 'order of events')
        ctx.check(isinstance(x.category, str) and ctx.eq(x.category, c), 'further arguments of event')
        check_ref(ctx, x.start_on_event, '/Swcs/Swc/Behavior/' + runs[r], Dest.RUNNABLE_ENTITY, 'runnable of event')
        for z, _, _ in want:
            ctx.check(z is x or ctx.test(ctx.no(ctx.eq(x.name, z.name))), 'name used twice')
    ctx.reach('end')


# ---- C05

OPTION = [('enable_take_address', 'b'), ('indirect_api', 'b'), ('error_handling', 'e:DataTransformationErrorHandling'),
          ('port_arg_values', 's:o:PortDefinedArgumentValue'),
          ('supported_features', 's:o:CommunicationBufferLocking'),
          ('transformer_status_forwarding', 'e:DataTransformationStatusForwarding')]


def t_options(ctx, ports, steps):
    """Options of the ports named, one each, the last given"""
    b = Builder(ctx)
    names = names_of(ctx, 'port', ports)
    ws, _, _, _, swc, made, behavior = behavior_of(ctx, 'SR', [('P', 'R', 'PR')[i % 3] for i in range(ports)], ['a'],
                                                   names)
    want = {}
    for step in range(steps):
        how = ctx.pick(f'how{step}', ['all', 'one', 'list'] if step == steps - 1 else ['all', 'one'])
        if how == 'all':
            arg, hits = '*', list(range(ports))
        else:
            asked = [ctx.ident(f'ask{step}.{i}', 1) for i in range(1 if how == 'one' else 2)]
            arg = asked[0] if how == 'one' else asked if ctx.flag(f'tuple{step}') else tuple(asked)
            hits = [index_of(ctx, names, a) for a in asked]
        full = step == 0 and steps == 1
        key, kind = OPTION[ctx.pick(f'option{step}', list(range(len(OPTION))) if full else [step, 2])]
        value, match = b.val(kind, f'o{step}.{key}', 'lite' if full else 'mark', 1)
        before = snapshot(behavior)
        _, exc = refused(behavior.create_port_api_options, arg, **{key: value})
        if None in hits:
            ctx.check(isinstance(exc, ValueError), 'options of an unknown port')
            same(ctx, snapshot(behavior), before, 'behavior changed')
        else:
            ctx.check(exc is None, 'options refused')
            for i in hits:
                want[i] = (key, match)
        options = list(behavior.port_api_options.values())
        ctx.check(len(options) == len(want), 'number of options')
        for i, (key, match) in want.items():
            hits = [o for o in options if ctx.test(ctx.eq(str(o.port), '/Swcs/Swc/' + names[i]))]
            ctx.check(len(hits) == 1, 'options of the port')
            check_ref(ctx, hits[0].port, '/Swcs/Swc/' + names[i], PORT_DEST[('P', 'R', 'PR')[i % 3]], 'port of options')
            for k, _ in OPTION:
                if k == key:
                    match(getattr(hits[0], k), k)
                else:
                    b.absent(getattr(hits[0], k), k)
    ctx.reach('end')


def t_odd_options(ctx):
    """Port names of a wrong type are refused"""
    names = names_of(ctx, 'port', 2)
    ws, _, _, _, swc, made, behavior = behavior_of(ctx, 'SR', ['P', 'R'], ['a'], names)
    if ctx.flag('some'):
        behavior.create_port_api_options(names[0], enable_take_address=True)
    before = snapshot(swc)
    arg = ctx.pick('name', [None, 7, 2.5, True, [7], (None,), made[0]])
    _, exc = refused(behavior.create_port_api_options, [names[0], arg] if ctx.flag('among others') else arg,
                     indirect_api=True)
    ctx.check(exc is not None, 'accepted')
    same(ctx, snapshot(swc), before, 'component changed')
    bad = ctx.pick('option', [None, 7, 'x', made[0], swc])
    _, exc = refused(behavior.append_port_api_option, bad)
    ctx.check(exc is not None, 'option accepted')
    same(ctx, snapshot(swc), before, 'component changed')
    ctx.reach('end')


# ---- many ports, items, components, runnables

CROWD = 13


def crowd(tag):
    """More names than there are digits: each name is the beginning of others, and sorting mixes them up"""
    return [f'{tag}{i}' for i in range(CROWD)]


def t_crowd_specs(ctx, kind, direction):
    """Com-specs for items of an interface with many, asked for in any order"""
    b = Builder(ctx)
    ws = autosar.xml.Workspace()
    names = crowd('e')
    queued = [i % 3 == 2 if kind == 'SR' else False for i in range(CROWD)]
    iface, _ = make_interface(ws, kind, names, queued)
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    k = ctx.pick('which', list(range(CROWD)))
    how = ctx.pick('how', ['this', 'rest', 'all', 'pair'])
    asked = {'this': [k], 'rest': [i for i in range(CROWD) if i != k], 'all': list(range(k, CROWD)) + list(range(k)),
             'pair': [CROWD - 1, k] if k < CROWD - 1 else [k, 0]}[how]
    com, want = {}, {}
    for i in asked:
        cls = COM_SPEC[kind, direction, queued[i]]
        com[names[i]], want[i] = com_spec_args(ctx, b, cls, f'c{i}', ONE_FIELD[cls], 'mark')
    port = make_port(swc, direction, 'port', iface, com_spec=com)
    check_port(ctx, swc, swc.ports[0], direction, 'port', iface, kind)
    ctx.check(port is None or port is swc.ports[0], 'another port returned')
    lst = swc.ports[0].com_spec
    ctx.check(len(lst) == len(asked), 'number of com-specs')
    for x, i in zip(lst, sorted(want)):
        want[i](x, 'com-spec')
        check_item_ref(ctx, kind, x, iface, names[i], 'com-spec')
    # the ports of a component with many
    for n in crowd('p')[:k]:
        make_port(swc, 'PR', n, iface)
    for n, x in zip(['port'] + crowd('p')[:k], swc.ports):
        ctx.check(swc.find(n) is x and x.name == n, 'port by its name')
        ctx.check(n == 'port' or swc.find_p_port(n) is x and swc.find_r_port(n) is x, 'port by name and direction')
    ctx.reach('end')


def t_crowd_connectors(ctx):
    """Connectors between the ports of many components, each the one asked for"""
    ws = autosar.xml.Workspace()
    iface, _ = make_interface(ws, 'SR', ['a'])
    pkg = ws.make_packages('/Swcs')
    comp = E.CompositionSwComponentType('Comp')
    pkg.append(comp)
    names, ports, paths = crowd('c'), crowd('p'), []
    for i, n in enumerate(names):
        # types of the same name in different packages
        swc = E.ApplicationSoftwareComponentType(f'T{i // 2}')
        ws.make_packages('/Swcs/Odd' if i % 2 else '/Swcs').append(swc)
        paths.append(str(swc.ref()))
        for j, q in enumerate(ports):
            make_port(swc, 'RP'[(i + j) % 2], q, iface)
        comp.create_component_prototype(swc, n)
    for q in ports:
        make_port(comp, 'R', 'o' + q, iface)
    k = ctx.pick('which', list(range(CROWD)))
    far = ctx.pick('far', [1, 2, CROWD - 1])
    want = []
    for step in range(CROWD):
        i, j = (k + step) % CROWD, (k + step + far) % CROWD
        if step % 3 == 0:
            # from outside to a require port
            q = ports[[x for x in range(CROWD) if (i + x) % 2 == 0][(k + step) % 6]]
            comp.create_connector('o' + ports[i], names[i] + '/' + q, ws)
            want.append((E.DelegationSwConnector, f'o{ports[i]}_{names[i]}_{q}',
                         {'inner_port': (f'{paths[i]}/{q}', PORT_DEST['R'], '/Swcs/Comp/' + names[i]),
                          'outer_port': ('/Swcs/Comp/o' + ports[i], PORT_DEST['R'], None)}))
        else:
            a = ports[[x for x in range(CROWD) if (i + x) % 2 == 1][(k + step) % 6]]
            c = ports[[x for x in range(CROWD) if (j + x) % 2 == 0][(k + step) % 6]]
            refs = [names[i] + '/' + a, names[j] + '/' + c]
            comp.create_connector(refs[step % 2], refs[1 - step % 2], ws)
            want.append((E.AssemblySwConnector, '_'.join([names[i], a, names[j], c]),
                         {'provide_port': (f'{paths[i]}/{a}', PORT_DEST['P'], '/Swcs/Comp/' + names[i]),
                          'require_port': (f'{paths[j]}/{c}', PORT_DEST['R'], '/Swcs/Comp/' + names[j])}))
        check_connector(ctx, comp, comp.connectors[-1], want[-1])
    ctx.check(len(comp.connectors) == CROWD, 'number of connectors')
    for x, (cls, name, ends) in zip(comp.connectors, want):
        ctx.check(type(x) is cls and x.name == name and comp.find(name) is x, 'connectors')
        for key, end in ends.items():
            check_end(ctx, getattr(x, key), end, key)
    ctx.reach('end')


def t_crowd_access(ctx, direction):
    """Accesses to many ports with many items, in one call or one by one"""
    ws = autosar.xml.Workspace()
    prefixes(ws)
    names, ports = crowd('e'), crowd('p')
    # interfaces of the same name in different packages, with different items
    half = [make_interface(ws, 'SR', names[i::2], where=('/Ifs', '/Ifs/More')[i])[0] for i in (0, 1)]
    swc = E.ApplicationSoftwareComponentType('Swc')
    ws.make_packages('/Swcs').append(swc)
    for i, p in enumerate(ports):
        make_port(swc, direction, p, half[i % 2])
    _, run = runnable_of(ws, swc)
    k = ctx.pick('which', list(range(CROWD)))
    back = ctx.flag('back')
    order = [(k - i if back else k + i) % CROWD for i in range(CROWD)]
    prefix = {'P': 'WRITE', 'R': 'READ'}[direction]
    texts, want = [], {n: [] for n in LISTS}
    for step, i in enumerate(order):
        item = names[i % 2::2][(k + 2 * i) % (CROWD // 2)]
        p = prefix if step % 4 == 3 else None
        where, head, _ = ACCESS['SR', direction, p]
        texts.append(('' if p is None else p + ':') + ports[i] + '/' + item)
        want[where].append((ports[i], ('/Ifs/If/', '/Ifs/More/If/')[i % 2] + item, head + '_' + ports[i] + '_' + item))
    if ctx.flag('one call'):
        run.create_port_access(texts)
    else:
        for x in texts:
            run.create_port_access(x)
    for where in LISTS:
        lst = getattr(run, where)
        ctx.check(len(lst) == len(want[where]), 'number of accesses')
        for x, (port, item, name) in zip(lst, want[where]):
            port_ref, item_ref = access_target(x)
            check_ref(ctx, port_ref, '/Swcs/Swc/' + port, PORT_DEST[direction], 'port of access')
            check_ref(ctx, item_ref, item, Dest.VARIABLE_DATA_PROTOTYPE, 'item of access')
            ctx.check(x.name == name and x.parent is run, 'name of access')
    ctx.reach('end')


def t_crowd_events(ctx):
    """Events of many runnables, ports and items"""
    runs, ports, names = crowd('run'), crowd('p'), crowd('e')
    ws, settings, iface, _, swc, _, behavior = behavior_of(ctx, 'SR', ['R'] * CROWD, names, ports)
    half = [make_interface(ws, 'CS', names[i::2], name='Server', where=('/Ifs', '/Ifs/More')[i])[0] for i in (0, 1)]
    for i, p in enumerate(ports):
        make_port(swc, 'P', 's' + p, half[i % 2])
    objs = [behavior.create_runnable(r) for r in runs]
    k = ctx.pick('which', list(range(CROWD)))
    want = []
    for step in range(CROWD):
        i, j, m = (k + step) % CROWD, (k + 5 * step) % CROWD, (k + 2 * step) % CROWD
        kind = step % 4
        ctx.check(behavior.find_runnable(runs[i]) is objs[i], 'runnable by name')
        if kind == 0:
            x = behavior.create_init_event(runs[i])
            want.append((x, E.InitEvent, f'IT_{runs[i]}', i, None, None))
        elif kind == 1:
            x = behavior.create_timing_event(runs[i], j)
            want.append((x, E.TimingEvent, f'TMT_{runs[i]}', i, None, None))
            ctx.check(x.period == j, 'period')
        elif kind == 2:
            x = behavior.create_data_received_event(runs[i], ports[j] + '/' + names[m])
            want.append((x, E.DataReceivedEvent, f'DRT_{runs[i]}_{ports[j]}_{names[m]}', i, j, m))
        else:
            m = names.index(names[j % 2::2][m % (CROWD // 2)])
            x = behavior.create_operation_invoked_event(runs[i], 's' + ports[j] + '/' + names[m])
            want.append((x, E.OperationInvokedEvent, f'OIT_{runs[i]}_s{ports[j]}_{names[m]}', i, j, m))
    ctx.check(len(behavior.events) == CROWD, 'number of events')
    for y, (x, cls, name, i, j, m) in zip(behavior.events, want):
        ctx.check(x is y and type(x) is cls and x.parent is behavior, 'order of events')
        ctx.check(x.name == name, 'name of event')
        check_ref(ctx, x.start_on_event, '/Swcs/Swc/Behavior/' + runs[i], Dest.RUNNABLE_ENTITY, 'runnable of event')
        if cls is E.DataReceivedEvent:
            check_ref(ctx, x.data.context_port, '/Swcs/Swc/' + ports[j], PORT_DEST['R'], 'port of event')
            check_ref(ctx, x.data.target_data_element, '/Ifs/If/' + names[m], ITEM_DEST['SR'], 'target of event')
        elif cls is E.OperationInvokedEvent:
            check_ref(ctx, x.operation.context_port, '/Swcs/Swc/s' + ports[j], PORT_DEST['P'], 'port of event')
            check_ref(ctx, x.operation.target_provided_operation, ('/Ifs', '/Ifs/More')[j % 2] + '/Server/' + names[m],
                      ITEM_DEST['CS'], 'target of event')
    ctx.reach('end')


def t_crowd_options(ctx):
    """Options of some of many ports"""
    # names which differ in nothing but their case are sorted next to each other
    names = [n.upper() if i % 4 == 1 else n for i, n in enumerate(crowd('p'))] + ['P0', 'Q0', 'q0']
    dirs = [('P', 'R', 'PR')[i % 3] for i in range(len(names))]
    ws, _, _, _, swc, made, behavior = behavior_of(ctx, 'SR', dirs, ['a'], names)
    k = ctx.pick('which', list(range(len(names))))
    how = ctx.pick('how', ['one', 'rest', 'some'])
    asked = {'one': [k], 'rest': [i for i in range(len(names)) if i != k],
             'some': sorted({k, len(names) - 1 - k, (k + 5) % len(names)}, reverse=True)}[how]
    first = ctx.flag('all before')
    if first:
        behavior.create_port_api_options('*', indirect_api=True)
    behavior.create_port_api_options(names[k] if how == 'one' else [names[i] for i in asked],
                                     enable_take_address=False)
    options = {str(x.port): x for x in behavior.port_api_options.values()}
    ctx.check(len(options) == len(behavior.port_api_options) == (len(names) if first else len(asked)),
              'number of options')
    for i, n in enumerate(names):
        x = options.get('/Swcs/Swc/' + n)
        if i in asked:
            ctx.check(x is not None and x.enable_take_address is False and x.indirect_api is None, 'options given')
        elif first:
            ctx.check(x is not None and x.enable_take_address is None and x.indirect_api is True, 'options kept')
        else:
            ctx.check(x is None, 'options nobody asked for')
        if x is not None:
            check_ref(ctx, x.port, '/Swcs/Swc/' + n, PORT_DEST[dirs[i]], 'port of options')
    ctx.reach('end')


# ---- cases

def cases(prop, tier):
    deep = tier == 'thorough'
    out = []
    if prop == 'C01':
        for (kind, side, queued), cls in COM_SPEC.items():
            fields = [f.key for f in spec.CLASSES[cls].fields if f.key not in REF_KEY.values()]
            for direction in (side, 'PR'):
                for field in fields if direction != 'PR' or deep else []:
                    out.append(Case(f'one:{cls}:{direction}:{field}', t_one_spec, kind=kind, direction=direction,
                                    queued=queued, field=field, level='lite'))
                if direction != 'PR' or side == 'P':
                    out.append(Case(f'one:{cls}:{direction}', t_one_spec, kind=kind, direction=direction,
                                    queued=queued, field=None, level='lite'))
        for kind in ('SR', 'CS', 'MS'):
            for direction in ('P', 'R', 'PR'):
                out.append(Case(f'none:{kind}:{direction}', t_no_spec, kind=kind, direction=direction))
        for kind in ('SR', 'CS'):
            for direction in ('P', 'R', 'PR'):
                for form in ('dict', 'list', 'tuple', 'mixed'):
                    if direction == 'PR' and form != 'dict':
                        continue
                    for items, asked in ((2, 1), (2, 2)) + (((3, 2), (3, 3)) if deep else ()):
                        out.append(Case(f'many:{kind}:{direction}:{form}:{items}:{asked}', t_many_specs, kind=kind,
                                        direction=direction, items=items, asked=asked, form=form,
                                        limits={'weight': 3 ** asked}))
        for direction in ('P', 'R', 'PR'):
            out.append(Case(f'objects:{direction}', t_spec_objects, direction=direction))
            for kind in ('SR', 'CS', 'MS'):
                out.append(Case(f'items:{kind}:{direction}', t_port_items, kind=kind, direction=direction,
                                limits={'weight': 3}))
        for kind in ('SR', 'CS'):
            for direction in ('P', 'R'):
                out.append(Case(f'crowd:{kind}:{direction}', t_crowd_specs, kind=kind, direction=direction,
                                limits={'weight': 4}))
        for kind, counts in (('SR', (0, 1, 2)), ('CS', (0, 1, 2)), ('MS', (1,))):
            for direction in ('P', 'R', 'PR'):
                for items in counts:
                    out.append(Case(f'odd:{kind}:{direction}:{items}', t_odd_specs, kind=kind, direction=direction,
                                    items=items))
    elif prop == 'C02':
        for key, places in PLANS.items():
            for hi in (1, 3) if deep else (1,):
                out.append(Case(f'connector:{key}:{hi}', t_connector, places=places, hi=hi, twice=False,
                                limits={'weight': 6 * hi}))
            out.append(Case(f'twice:{key}', t_connector, places=places, hi=1, twice=True, limits={'weight': 8}))
        for key, places in PLANS.items():
            out.append(Case(f'in use:{key}', t_name_in_use, places=places))
        out.append(Case('bad', t_bad_connector, limits={'weight': 4}))
        out.append(Case('crowd', t_crowd_connectors, limits={'weight': 20}))
        out.append(Case('several:1', t_connectors, hi=1, limits={'weight': 9}))
        out.append(Case('several:3', t_connectors, hi=3, limits={'weight': 30}))
    elif prop == 'C03':
        for kind, direction in sorted({k[:2] for k in ACCESS}):
            for items in ((1,) if kind == 'MS' else (1, 2, 3) if deep else (1, 2)):
                out.append(Case(f'access:{kind}:{direction}:{items}', t_access, kind=kind, direction=direction,
                                items=items, limits={'weight': 5 * items}))
        out.append(Case('text', t_access_text, hi=8 if deep else 5, limits={'weight': 9}))
        for n in (2, 3) if deep else (2,):
            out.append(Case(f'many:{n}', t_access_many, count=n, limits={'weight': 6 ** n}))
        out += [Case(f'crowd:{d}', t_crowd_access, direction=d, limits={'weight': 9}) for d in ('P', 'R')]
    elif prop == 'C04':
        out = [Case(f'simple:{k}', t_simple_event, kind=k, limits={'weight': 3}) for k in SIMPLE]
        for k in TARGET:
            for d in ('P', 'R', 'PR'):
                for n in (1,) if k == 'manager' else (1, 2):
                    out.append(Case(f'target:{k}:{d}:{n}', t_target_event, kind=k, direction=d, items=n,
                                    limits={'weight': 4 * n}))
        for d in ('P', 'R', 'PR'):
            for f in ('text', 'list', 'tuple'):
                if deep or d == 'R' or f == 'text':
                    out.append(Case(f'mode:{d}:{f}', t_mode_event, direction=d, form=f, limits={'weight': 9}))
        out.append(Case('mode:odd', t_odd_mode_event))
        out.append(Case('crowd', t_crowd_events, limits={'weight': 20}))
        out += [Case(f'runnable:{n}', t_runnable, areas=n, limits={'weight': 9}) for n in ((0, 1, 2, 3) if deep else (0, 2))]
        out += [Case(f'names:{n}', t_event_names, count=n, limits={'weight': 9 ** n}) for n in ((2, 3) if deep else (2,))]
    else:
        for ports in (1, 2, 3) if deep else (1, 2):
            for steps in (1, 2):
                out.append(Case(f'options:{ports}:{steps}', t_options, ports=ports, steps=steps,
                                limits={'weight': 3 ** (ports + steps)}))
        out.append(Case('odd', t_odd_options))
        out.append(Case('crowd', t_crowd_options, limits={'weight': 20}))
    return out
