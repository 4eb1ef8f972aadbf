"""
Names and references: uniqueness in containers (N01), references and find (N02), generated names (N03).
"""
import re
from sx.case import Case
import autosar.xml
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum

Dest = ar_enum.IdentifiableSubTypes
REFUSED = (ValueError, KeyError)


# ---- N01

KINDS = ['Unit', 'SwAddrMethod', 'CompuMethod', 'DataConstraint', 'SwBaseType', 'ImplementationDataType']


def clash(ctx, have, name):
    for entry in have:
        if ctx.test(ctx.eq(entry[0], name)):
            return entry
    return None


def same_objects(ctx, got, want, what):
    ctx.check(len(got) == len(want), what + ': wrong number')
    for g, w in zip(got, want):
        ctx.check(g is w, what + ': wrong item or order')


def audit(ctx, box, have):
    """The container holds exactly the items that were accepted, in order"""
    same_objects(ctx, box.packages, [o for _, k, o in have if k == 'package'], 'packages')
    if isinstance(box, ar_element.Package):
        same_objects(ctx, box.elements, [o for _, k, o in have if k == 'element'], 'elements')
    for name, _, obj in have:
        ctx.check(ctx.eq(obj.name, name), 'name changed')
        ctx.check(obj.parent is box, 'parent')
        ctx.check(box.find(name) is obj, 'find gives another item')


def step(ctx, i, box, have, ops):
    name = ctx.ident(f'n{i}', 2)
    op = ctx.pick(f'op{i}', ops)
    other = clash(ctx, have, name)
    new = home = None
    try:
        if op in ('element', 'package'):
            new = (ar_element.Package if op == 'package' else ar_element.Unit if i % 2 else ar_element.SwAddrMethod)(name)
            if i == 1:
                # it is already in another place
                home = ar_element.Package('Home')
                home.append(new)
            box.append(new)
        elif op == 'create':
            new = box.create_package(name)
        else:
            new = box.make_packages(name)
        accepted = True
    except REFUSED:
        accepted = False
    if op == 'make' and other is not None and other[1] == 'package':
        ctx.check(accepted, 'existing package not accepted by make_packages')
        ctx.check(new is other[2], 'make_packages gives another package')
    elif other is not None:
        ctx.check(not accepted, f'{op}: name used twice')
        ctx.check(op not in ('element', 'package') or new.parent is home, 'refused item has another parent')
    else:
        ctx.check(accepted, f'{op}: free name refused')
        ctx.check(isinstance(new, ar_element.Unit if op == 'element' and i % 2 else
                             ar_element.SwAddrMethod if op == 'element' else ar_element.Package), 'kind of item')
        have.append((name, 'element' if op == 'element' else 'package', new))


def t_history(ctx, root, steps):
    ws = autosar.xml.Workspace() if root != 'document' else ar_document.Document()
    box = ws
    ops = ['package', 'create', 'make']
    if root == 'package':
        box = ws.create_package('Top')
        ops = ['element'] + ops
    elif root == 'sub':
        box = ws.create_package('Top').create_package('Sub')
        ops = ['element'] + ops
    elif root == 'loose':
        box = ar_element.Package('Loose')
        ops = ['element'] + ops
    have = []
    for i in range(steps):
        step(ctx, i, box, have, ops)
        audit(ctx, box, have)
    probe = ctx.ident('probe', 2)
    want = clash(ctx, have, probe)
    ctx.check(box.find(probe) is (None if want is None else want[2]), 'find by name')
    ctx.check(box.find('/' + probe) is (None if want is None else want[2]), 'find by name with slash')
    ctx.reach('end')


CROWD = 12


def t_crowd(ctx, root):
    """A container with many items, the names of which begin alike"""
    ws = autosar.xml.Workspace() if root == 'workspace' else ar_document.Document()
    box = ws if root == 'workspace' else ws.create_package('Top')
    have = []
    order = ctx.pick('order', ['up', 'down'])
    for i in range(CROWD):
        name = f'N{i if order == "up" else CROWD - i}'
        if root == 'workspace' or i % 3 == 0:
            have.append((name, 'package', box.create_package(name)))
        else:
            obj = (ar_element.Unit if i % 2 else ar_element.SwAddrMethod)(name)
            box.append(obj)
            have.append((name, 'element', obj))
    audit(ctx, box, have)
    name = 'N' + ctx.text('digits', 1, 2, 'digit')
    other = clash(ctx, have, name)
    ctx.check(box.find(name) is (None if other is None else other[2]), 'find by name')
    ops = ['package', 'create', 'make'] + ([] if root == 'workspace' else ['element'])
    op = ctx.pick('op', ops)
    try:
        if op in ('element', 'package'):
            new = (ar_element.Package if op == 'package' else ar_element.Unit)(name)
            box.append(new)
        else:
            new = box.create_package(name) if op == 'create' else box.make_packages(name)
        accepted = True
    except REFUSED:
        accepted = False
    if other is None:
        ctx.check(accepted, 'free name refused')
        have.append((name, 'element' if op == 'element' else 'package', new))
    elif op == 'make' and other[1] == 'package':
        ctx.check(accepted and new is other[2], 'make_packages gives another package')
    else:
        ctx.check(not accepted, 'name used twice')
    audit(ctx, box, have)
    ctx.reach('end')


def t_make_path(ctx, root):
    """make_packages with paths creates exactly the missing packages"""
    ws = autosar.xml.Workspace() if root == 'workspace' else ar_document.Document()
    paths = []
    tree = {}
    for i in range(3):
        depth = 1 + ctx.pick(f'd{i}', [0, 1])
        names = [ctx.ident(f'p{i}_{j}', 1) for j in range(depth)]
        slash = '/' if ctx.flag(f's{i}') else ''
        pkg = ws.make_packages(slash + '/'.join(names))
        ctx.check(isinstance(pkg, ar_element.Package), 'not a package')
        node, box = tree, ws
        for n in names:
            key = None
            for k in node:
                if ctx.test(ctx.eq(k, n)):
                    key = k
            if key is None:
                key = n
                node[n] = {}
            node = node[key]
            hits = [p for p in box.packages if ctx.test(ctx.eq(p.name, n))]
            ctx.check(len(hits) == 1, 'package missing or there twice')
            ctx.check(hits[0].parent is box, 'parent of package')
            box = hits[0]
        ctx.check(pkg is box, 'another package returned')
        ctx.check(ctx.eq(str(pkg.ref()), '/' + '/'.join(names)), 'reference of package')
        ctx.check(ws.find('/'.join(names)) is pkg, 'find package')
        paths.append(pkg)
    n = count(tree)
    ctx.check(total(ws) == n, 'number of packages')
    ctx.reach('end')


def count(tree):
    return sum(1 + count(t) for t in tree.values())


def total(box):
    return sum(1 + total(p) for p in box.packages)


def t_make_many(ctx):
    """make_packages with several arguments gives them in order; a package map leads to the same packages"""
    ws = autosar.xml.Workspace()
    a, b = ctx.ident('a', 2), ctx.ident('b', 2)
    got = ws.make_packages(a, a + '/' + b, '/' + b)
    ctx.check(isinstance(got, list) and len(got) == 3, 'list of packages')
    ctx.check(ctx.eq(str(got[0].ref()), '/' + a), 'first')
    ctx.check(ctx.eq(str(got[1].ref()), '/' + a + '/' + b), 'second')
    ctx.check(ctx.eq(str(got[2].ref()), '/' + b), 'third')
    ctx.check(got[1].parent is got[0], 'second lies in first')
    ws.create_package_map({'X': '/' + a + '/' + b, 'Y': b})
    ctx.check(ws.get_package('X') is got[1], 'package map')
    ctx.check(ws.get_package('Y') is got[2], 'package map without slash')
    name = ctx.ident('e', 2)
    ctx.assume(ctx.no(ctx.eq(name, b)))
    unit = ar_element.Unit(name)
    ws.add_element('X', unit)
    ctx.check(ws.find_element('X', name) is unit, 'element by package key')
    ctx.check(ws.find_element('Y', name) is None, 'element of another package')
    ctx.check(ctx.eq(str(unit.ref()), '/' + a + '/' + b + '/' + name), 'reference of element')
    ctx.reach('end')


def t_filter(ctx):
    """filter gives exactly the elements with one of the names, in order"""
    pkg = ar_element.Package('P')
    items = []
    for i in range(3):
        n = ctx.ident(f'n{i}', 2)
        for e in items:
            ctx.assume(ctx.no(ctx.eq(e.name, n)))
        e = ar_element.Unit(n)
        pkg.append(e)
        items.append(e)
    q1, q2 = ctx.ident('q1', 2), ctx.ident('q2', 2)
    want = [e for e in items if ctx.test(ctx.any([ctx.eq(e.name, q1), ctx.eq(e.name, q2)]))]
    same_objects(ctx, list(pkg.filter(q1, q2)), want, 'filter')
    ctx.reach('end')


PATTERNS = {'A': lambda n: n[0:1] == 'A', 'A$': lambda n: n == 'A', '.B': lambda n: n[1:2] == 'B',
            '.*B': lambda n: 'B' in n, '[AB]_?$': lambda n: n in ('A', 'B', 'A_', 'B_'),
            'A|B.': lambda n: n[0:1] == 'A' or (n[0:1] == 'B' and len(n) > 1), '': lambda n: True}


def t_filter_regex(ctx):
    """filter_regex gives exactly the elements whose name the pattern matches from its start, in order"""
    pkg = ar_element.Package('P')
    items = []
    for i in range(2):
        n = ctx.ident(f'n{i}', 2)
        for e in items:
            ctx.assume(ctx.no(ctx.eq(e.name, n)))
        e = ar_element.Unit(n)
        pkg.append(e)
        items.append(e)
    pkg.append(ar_element.Package('ABC'))
    source = ctx.pick('pattern', sorted(PATTERNS))
    pattern = re.compile(source) if ctx.flag('compiled') else source
    want = [e for e in items if ctx.test(PATTERNS[source](e.name))]
    same_objects(ctx, list(pkg.filter_regex(pattern)), want, 'filter_regex')
    try:
        list(pkg.filter_regex(ctx.pick('wrong', [None, 5, ['A']])))
        ctx.fail('a pattern of wrong type was accepted')
    except TypeError:
        pass
    ctx.reach('end')


# ---- N02: one way of nesting for every class which has references
#      (leaf class, [containers from outermost], how each child is given, destination, findable)

E = ar_element


def _kw(arg, many=True):
    def put(cls, name, child, how):
        box = cls(name, **{arg: [child] if many else child})
        return box
    return put


def _call(method):
    def put(cls, name, child, how):
        box = cls(name)
        getattr(box, method)(child)
        return box
    return put


def _attr(attr):
    def put(cls, name, child, how):
        box = cls(name)
        setattr(box, attr, child)
        return box
    return put


NEST = {
    ('ImplementationDataTypeElement', 'ImplementationDataType'): [_kw('sub_elements'), _call('append')],
    ('ImplementationDataTypeElement', 'ImplementationDataTypeElement'): [_kw('sub_elements'), _call('append')],
    ('ApplicationArrayElement', 'ApplicationArrayDataType'): [_kw('element', False)],
    ('ApplicationRecordElement', 'ApplicationRecordDataType'): [_kw('elements'), _kw('elements', False),
                                                                _call('append')],
    ('VariableDataPrototype', 'SenderReceiverInterface'): [_kw('data_elements'), _kw('data_elements', False),
                                                           _call('append_data_element')],
    ('VariableDataPrototype', 'NvDataInterface'): [_kw('data_elements'), _kw('data_elements', False),
                                                   _call('append_data_element')],
    ('ParameterDataPrototype', 'ParameterInterface'): [_kw('parameters'), _kw('parameters', False),
                                                       _call('append_parameter')],
    ('ClientServerOperation', 'ClientServerInterface'): [_kw('operations'), _kw('operations', False),
                                                         _call('append_operation')],
    ('ApplicationError', 'ClientServerInterface'): [_kw('possible_errors'), _call('append_possible_errors')],
    ('ArgumentDataPrototype', 'ClientServerOperation'): [_kw('arguments'), _kw('arguments', False),
                                                         _call('append_argument')],
    ('ModeDeclaration', 'ModeDeclarationGroup'): [_kw('mode_declarations'), _kw('mode_declarations', False),
                                                  _call('append_mode_declaratation')],
    ('ModeDeclarationGroupPrototype', 'ModeSwitchInterface'): [_kw('mode_group', False)],
    ('ProvidePortPrototype', 'ApplicationSoftwareComponentType'): [_kw('ports'), _kw('ports', False),
                                                                   _call('append_port')],
    ('RequirePortPrototype', 'ApplicationSoftwareComponentType'): [_kw('ports'), _call('append_port')],
    ('PRPortPrototype', 'ApplicationSoftwareComponentType'): [_kw('ports'), _call('append_port')],
    ('ProvidePortPrototype', 'CompositionSwComponentType'): [_kw('ports'), _call('append_port')],
    ('SwComponentPrototype', 'CompositionSwComponentType'): [_kw('components'), _kw('components', False),
                                                             _call('append_component')],
    ('SwcInternalBehavior', 'ApplicationSoftwareComponentType'): [_kw('internal_behavior', False),
                                                                  _attr('internal_behavior')],
    ('RunnableEntity', 'SwcInternalBehavior'): [_kw('runnables'), _kw('runnables', False), _call('append_runnable')],
    ('ExclusiveArea', 'SwcInternalBehavior'): [_kw('exclusive_areas'), _kw('exclusive_areas', False),
                                               _call('append_exclusive_area')],
    ('AsynchronousServerCallPoint', 'RunnableEntity'): [_kw('server_call_point'), _kw('server_call_point', False),
                                                        _call('append_server_call_point')],
    ('AsynchronousServerCallResultPoint', 'RunnableEntity'): [_kw('async_server_call_result_point'),
                                                              _call('append_async_server_call_result_point')],
    ('ModeSwitchPoint', 'RunnableEntity'): [_kw('mode_switch_point'), _call('append_mode_switch_point')],
    ('VariableAccess', 'RunnableEntity'): [
        f for a in ('data_read_access', 'data_receive_point_by_argument', 'data_receive_point_by_value',
                    'data_send_point', 'data_write_access', 'read_local_variable', 'write_local_variable')
        for f in (_kw(a), _call('append_' + a))],
}
EVENTS = {'AsynchronousServerCallReturnsEvent': 'ASYNCHRONOUS_SERVER_CALL_RETURNS_EVENT',
          'BackgroundEvent': 'BACKGROUND_EVENT', 'DataReceiveErrorEvent': 'DATA_RECEIVE_ERROR_EVENT',
          'DataReceivedEvent': 'DATA_RECEIVED_EVENT', 'DataSendCompletedEvent': 'DATA_SEND_COMPLETED_EVENT',
          'DataWriteCompletedEvent': 'DATA_WRITE_COMPLETED_EVENT',
          'ExternalTriggerOccurredEvent': 'EXTERNAL_TRIGGER_OCCURRED_EVENT', 'InitEvent': 'INIT_EVENT',
          'InternalTriggerOccurredEvent': 'INTERNAL_TRIGGER_OCCURRED_EVENT',
          'ModeSwitchedAckEvent': 'MODE_SWITCHED_ACK_EVENT', 'OperationInvokedEvent': 'OPERATION_INVOKED_EVENT',
          'SwcModeManagerErrorEvent': 'SWC_MODE_MANAGER_ERROR_EVENT', 'SwcModeSwitchEvent': 'SWC_MODE_SWITCH_EVENT',
          'TimingEvent': 'TIMING_EVENT', 'TransformerHardErrorEvent': 'TRANSFORMER_HARD_ERROR_EVENT'}
for _e in EVENTS:
    NEST[(_e, 'SwcInternalBehavior')] = [_kw('events'), _call('append_event')]

SWC = 'ApplicationSoftwareComponentType'
BEH = ['SwcInternalBehavior', SWC]
# chain from the leaf outwards -> destination, whether find reaches the leaf
CHAINS = [
    (['ApplicationArrayDataType'], 'APPLICATION_ARRAY_DATA_TYPE', True),
    (['ApplicationPrimitiveDataType'], 'APPLICATION_PRIMITIVE_DATA_TYPE', True),
    (['ApplicationRecordDataType'], 'APPLICATION_RECORD_DATA_TYPE', True),
    ([SWC], 'APPLICATION_SW_COMPONENT_TYPE', True),
    (['ClientServerInterface'], 'CLIENT_SERVER_INTERFACE', True),
    (['CompositionSwComponentType'], 'COMPOSITION_SW_COMPONENT_TYPE', True),
    (['CompuMethod'], 'COMPU_METHOD', True),
    (['ConstantSpecification'], 'CONSTANT_SPECIFICATION', True),
    (['DataConstraint'], 'DATA_CONSTR', True),
    (['DataTypeMappingSet'], 'DATA_TYPE_MAPPING_SET', True),
    (['E2EProfileCompatibilityProps'], 'E2E_PROFILE_COMPATIBILITY_PROPS', True),
    (['ImplementationDataType'], 'IMPLEMENTATION_DATA_TYPE', True),
    (['ModeDeclarationGroup'], 'MODE_DECLARATION_GROUP', True),
    (['ModeSwitchInterface'], 'MODE_SWITCH_INTERFACE', True),
    (['NvDataInterface'], 'NV_DATA_INTERFACE', True),
    (['ParameterInterface'], 'PARAMETER_INTERFACE', True),
    (['SenderReceiverInterface'], 'SENDER_RECEIVER_INTERFACE', True),
    (['SwAddrMethod'], 'SW_ADDR_METHOD', True),
    (['SwBaseType'], 'SW_BASE_TYPE', True),
    (['SwcImplementation'], 'SWC_IMPLEMENTATION', True),
    (['Unit'], 'UNIT', True),
    (['ImplementationDataTypeElement', 'ImplementationDataType'], 'IMPLEMENTATION_DATA_TYPE_ELEMENT', True),
    (['ImplementationDataTypeElement', 'ImplementationDataTypeElement', 'ImplementationDataType'],
     'IMPLEMENTATION_DATA_TYPE_ELEMENT', True),
    (['ApplicationArrayElement', 'ApplicationArrayDataType'], 'APPLICATION_ARRAY_ELEMENT', None),
    (['ApplicationRecordElement', 'ApplicationRecordDataType'], 'APPLICATION_RECORD_ELEMENT', None),
    (['VariableDataPrototype', 'SenderReceiverInterface'], 'VARIABLE_DATA_PROTOTYPE', None),
    (['VariableDataPrototype', 'NvDataInterface'], 'VARIABLE_DATA_PROTOTYPE', None),
    (['ParameterDataPrototype', 'ParameterInterface'], 'PARAMETER_DATA_PROTOTYPE', None),
    (['ClientServerOperation', 'ClientServerInterface'], 'CLIENT_SERVER_OPERATION', None),
    (['ApplicationError', 'ClientServerInterface'], 'APPLICATION_ERROR', None),
    (['ArgumentDataPrototype', 'ClientServerOperation', 'ClientServerInterface'], 'ARGUMENT_DATA_PROTOTYPE', None),
    (['ModeDeclaration', 'ModeDeclarationGroup'], 'MODE_DECLARATION', True),
    (['ModeDeclarationGroupPrototype', 'ModeSwitchInterface'], 'MODE_DECLARATION_GROUP_PROTOTYPE', None),
    (['ProvidePortPrototype', SWC], 'P_PORT_PROTOTYPE', True),
    (['RequirePortPrototype', SWC], 'R_PORT_PROTOTYPE', True),
    (['PRPortPrototype', SWC], 'PR_PORT_PROTOTYPE', True),
    (['ProvidePortPrototype', 'CompositionSwComponentType'], 'P_PORT_PROTOTYPE', True),
    (['SwComponentPrototype', 'CompositionSwComponentType'], 'SW_COMPONENT_PROTOTYPE', True),
    (['SwcInternalBehavior', SWC], 'SWC_INTERNAL_BEHAVIOR', None),
    (['RunnableEntity'] + BEH, 'RUNNABLE_ENTITY', None),
    (['ExclusiveArea'] + BEH, 'EXCLUSIVE_AREA', None),
    (['AsynchronousServerCallPoint', 'RunnableEntity'] + BEH, 'ASYNCHRONOUS_SERVER_CALL_POINT', None),
    (['AsynchronousServerCallResultPoint', 'RunnableEntity'] + BEH, 'ASYNCHRONOUS_SERVER_CALL_RESULT_POINT', None),
    (['ModeSwitchPoint', 'RunnableEntity'] + BEH, 'MODE_SWITCH_POINT', None),
    (['VariableAccess', 'RunnableEntity'] + BEH, 'VARIABLE_ACCESS', None),
] + [([e] + BEH, d, None) for e, d in EVENTS.items()]


def plain(cls, name):
    if cls == 'ConstantSpecification':
        return E.ConstantSpecification(name, E.TextValueSpecification(value='v'))
    return getattr(E, cls)(name)


def check_ref(ctx, leaf, path, dest, what):
    ref = leaf.ref()
    ctx.check(ref is not None, what + ': no reference')
    ctx.check(ctx.eq(str(ref), path), what + ': path of reference')
    ctx.check(ref.dest is getattr(Dest, dest), what + ': destination of reference')


def t_chain(ctx, chain, dest, findable):
    names = [ctx.ident(f'n{i}', 1) for i in range(len(chain))]
    obj = leaf = plain(chain[0], names[0])
    ctx.check(leaf.ref() is None, 'reference without a package')
    for i in range(1, len(chain)):
        ways = NEST[(chain[i - 1], chain[i])]
        put = ways[ctx.pick(f'way{i}', list(range(len(ways))))]
        box = put(getattr(E, chain[i]), names[i], obj, None)
        ctx.check(obj.parent is box, 'parent of nested element')
        obj = box
        ctx.check(leaf.ref() is None, 'reference without a package')
    root = ctx.pick('root', ['workspace', 'document', 'read'])
    col = autosar.xml.Workspace() if root == 'workspace' else ar_document.Document()
    top = ctx.ident('top', 1)
    if ctx.flag('deep'):
        sub = ctx.ident('sub', 1)
        pkg = col.make_packages(top + '/' + sub)
        path = '/' + top + '/' + sub
    else:
        pkg = ar_element.Package(top)
        col.append(pkg)
        path = '/' + top
    pkg.append(obj)
    path = '/'.join([path] + list(reversed(names)))
    if root == 'read':
        # the same after writing and reading the document
        col2 = autosar.xml.Reader().read_str(autosar.xml.Writer().write_str(col))
        ctx.check(col2 is not col, 'another document')
        if findable:
            leaf2 = col2.find(path)
            ctx.check(type(leaf2) is type(leaf), 'found after reading')
            check_ref(ctx, leaf2, path, dest, 'after reading')
            ctx.check(col2.find(leaf2.ref()) is leaf2, 'find its own reference after reading')
        obj2 = col2.find(path.rsplit('/', len(chain) - 1)[0]) if len(chain) > 1 else col2.find(path)
        ctx.check(type(obj2) is type(obj), 'element found after reading')
        deep2 = descend(ctx, obj2, chain)
        check_ref(ctx, deep2, path, dest, 'nested after reading')
        ctx.reach('end')
        return
    check_ref(ctx, leaf, path, dest, 'placed')
    ctx.check(leaf.root_collection() is col, 'root collection')
    want = leaf if findable else None
    for form in (path, path[1:], leaf.ref()):
        got = col.find(form)
        if findable:
            ctx.check(got is leaf, 'find gives another item')
        else:
            ctx.check(got is None or got is leaf, 'find gives another item')
    # a path which differs in one name
    other = ctx.ident('other', 1)
    at = ctx.pick('at', list(range(len(names))))
    parts = list(names)
    parts[at] = other
    q = '/'.join([path.rsplit('/', len(names))[0]] + list(reversed(parts)))
    got = col.find(q)
    if ctx.test(ctx.eq(other, names[at])):
        ctx.check(got is want or got is leaf, 'find by equal path')
    else:
        ctx.check(got is None, 'find by a path that names nothing')
    ctx.check(col.find(path + '/' + other) is None, 'find beyond the element')
    ctx.reach('end')


def t_deep_path(ctx, root):
    """An element many packages deep"""
    depth = 9
    at = ctx.pick('at', list(range(depth + 1)))
    name = ctx.ident('name', 2)
    names = [name if i == at else f'P{i % 3}' for i in range(depth + 1)]
    ws = autosar.xml.Workspace() if root == 'workspace' else ar_document.Document()
    if ctx.flag('path'):
        pkg = ws.make_packages('/'.join(names[:-1]))
    else:
        pkg = ws
        for n in names[:-1]:
            pkg = pkg.create_package(n)
    elem = ar_element.ConstantSpecification(names[-1])
    pkg.append(elem)
    path = '/' + '/'.join(names)
    check_ref(ctx, elem, path, 'CONSTANT_SPECIFICATION', 'placed')
    ctx.check(ctx.eq(str(pkg.ref()), '/' + '/'.join(names[:-1])), 'reference of package')
    ctx.check(elem.root_collection() is ws, 'root collection')
    ctx.check(ws.find(path) is elem and ws.find(path[1:]) is elem and ws.find(elem.ref()) is elem, 'find')
    other = ctx.ident('other', 2)
    k = ctx.pick('k', [0, 3, depth - 1, depth])
    parts = list(names)
    parts[k] = other
    ctx.check(ws.find('/'.join(parts)) is (elem if ctx.test(ctx.eq(other, names[k])) else None),
              'find by a path with another name')
    ctx.check(ws.find('/'.join(names[:k + 1])) is not ws.find('/'.join(names[:k])), 'find by part of the path')
    ctx.reach('end')


DOWN = {'ImplementationDataTypeElement': ['sub_elements'], 'ApplicationArrayElement': ['element'],
        'ApplicationRecordElement': ['elements'], 'VariableDataPrototype': ['data_elements'],
        'ParameterDataPrototype': ['parameters'], 'ClientServerOperation': ['operations'],
        'ApplicationError': ['possible_errors'], 'ArgumentDataPrototype': ['arguments'],
        'ModeDeclaration': ['mode_declarations'], 'ModeDeclarationGroupPrototype': ['mode_group'],
        'ProvidePortPrototype': ['ports'], 'RequirePortPrototype': ['ports'], 'PRPortPrototype': ['ports'],
        'SwComponentPrototype': ['components'], 'SwcInternalBehavior': ['internal_behavior'],
        'RunnableEntity': ['runnables'], 'ExclusiveArea': ['exclusive_areas'],
        'AsynchronousServerCallPoint': ['server_call_point'],
        'AsynchronousServerCallResultPoint': ['async_server_call_result_point'],
        'ModeSwitchPoint': ['mode_switch_point'],
        'VariableAccess': ['data_read_access', 'data_receive_point_by_argument', 'data_receive_point_by_value',
                           'data_send_point', 'data_write_access', 'read_local_variable', 'write_local_variable']}


def descend(ctx, obj, chain):
    for cls in reversed(chain[:-1]):
        found = []
        for attr in DOWN.get(cls, ['events']):
            v = getattr(obj, attr)
            if isinstance(v, list):
                found += v
            elif v is not None:
                found.append(v)
        ctx.check(len(found) == 1, 'nested element lost')
        ctx.check(found[0].parent is obj, 'parent after reading')
        obj = found[0]
    return obj


CREATE = {
    'SenderReceiverInterface': ('create_data_element', 'VARIABLE_DATA_PROTOTYPE'),
    'NvDataInterface': ('create_data_element', 'VARIABLE_DATA_PROTOTYPE'),
    'ParameterInterface': ('create_parameter', 'PARAMETER_DATA_PROTOTYPE'),
    'ClientServerInterface:op': ('create_operation', 'CLIENT_SERVER_OPERATION'),
    'ClientServerInterface:err': ('create_possible_error', 'APPLICATION_ERROR'),
    'ModeDeclarationGroup': ('create_mode_declaration', 'MODE_DECLARATION'),
    'ModeSwitchInterface': ('create_mode_group', 'MODE_DECLARATION_GROUP_PROTOTYPE'),
    'ApplicationSoftwareComponentType': ('create_internal_behavior', 'SWC_INTERNAL_BEHAVIOR'),
}


def t_create(ctx, key):
    """Elements made by create methods can be referenced"""
    method, dest = CREATE[key]
    cls = key.partition(':')[0]
    a, b, p = ctx.ident('a', 2), ctx.ident('b', 2), ctx.ident('p', 2)
    ws = autosar.xml.Workspace()
    box = getattr(E, cls)(a)
    first = ctx.flag('placed_first')
    if first:
        ws.create_package(p).append(box)
    if method in ('create_mode_declaration', 'create_possible_error'):
        made = getattr(box, method)(b, 3)
    elif method == 'create_mode_group':
        made = box.create_mode_group(b, E.ModeDeclarationGroupRef('/x'))
    else:
        made = getattr(box, method)(b)
    if not first:
        ctx.check(made.ref() is None, 'reference without a package')
        ws.create_package(p).append(box)
    ctx.check(ctx.eq(made.name, b), 'name')
    check_ref(ctx, made, '/' + p + '/' + a + '/' + b, dest, 'created')
    ctx.reach('end')


def t_rename(ctx):
    """A reference follows the names of the element and of everything around it"""
    ws = autosar.xml.Workspace()
    p, t, e, n = (ctx.ident(x, 1) for x in ('p', 't', 'e', 'n'))
    elem = E.ImplementationDataTypeElement(e)
    typ = E.ImplementationDataType(t, sub_elements=[elem])
    pkg = ws.create_package(p)
    pkg.append(typ)
    check_ref(ctx, elem, '/'.join(['', p, t, e]), 'IMPLEMENTATION_DATA_TYPE_ELEMENT', 'before')
    elem.name = n
    check_ref(ctx, elem, '/'.join(['', p, t, n]), 'IMPLEMENTATION_DATA_TYPE_ELEMENT', 'after')
    ctx.check(ws.find(elem.ref()) is elem, 'find by new name')
    ctx.reach('end')


# ---- N03

POINTS = [('append_async_server_call_result_point', 'async_server_call_result_point',
           'AsynchronousServerCallResultPoint'),
          ('append_data_read_access', 'data_read_access', 'VariableAccess'),
          ('append_data_receive_point_by_argument', 'data_receive_point_by_argument', 'VariableAccess'),
          ('append_data_receive_point_by_value', 'data_receive_point_by_value', 'VariableAccess'),
          ('append_data_send_point', 'data_send_point', 'VariableAccess'),
          ('append_data_write_access', 'data_write_access', 'VariableAccess'),
          ('append_internal_triggering_point', 'internal_triggering_point', 'InternalTriggeringPoint'),
          ('append_mode_switch_point', 'mode_switch_point', 'ModeSwitchPoint'),
          ('append_parameter_access', 'parameter_access', 'ParameterAccess'),
          ('append_read_local_variable', 'read_local_variable', 'VariableAccess'),
          ('append_write_local_variable', 'write_local_variable', 'VariableAccess'),
          ('append_server_call_point', 'server_call_point', 'AsynchronousServerCallPoint'),
          ('append_wait_point', 'wait_point', 'WaitPoint')]


def distinct(ctx, items, what):
    for i, x in enumerate(items):
        for y in items[:i]:
            ctx.check(ctx.no(ctx.eq(x.name, y.name)), what + ': two items with the same name')


def follows(ctx, name, base, what):
    """The name is the base, or the base and a number"""
    if ctx.test(ctx.eq(name, base)):
        return
    ctx.check(name.startswith(base + '_') and name[len(base) + 1:].isdigit(), what)


def some_name(ctx, tag, bases):
    """A symbolic name, or one which looks like a generated one"""
    form = ctx.pick(tag + '?form', ['any', 'numbered', 'same'] if bases else ['any'])
    if form == 'any':
        return ctx.ident(tag, 2)
    base = bases[0]
    if form == 'same':
        return base
    return base + '_' + ctx.text(tag, 1, 2, 'digit')


def t_points(ctx, method, attr, cls, n):
    runnable = E.RunnableEntity('R')
    given = []
    bases = []
    for i in range(n):
        name = some_name(ctx, f'n{i}', bases)
        bases.append(name)
        point = getattr(E, cls)(name)
        before = [(x, x.name) for x in getattr(runnable, attr)]
        getattr(runnable, method)(point)
        given.append(point)
        items = getattr(runnable, attr)
        same_objects(ctx, items, given, attr)
        ctx.check(point.parent is runnable, 'parent')
        distinct(ctx, items, attr)
        follows(ctx, point.name, name, 'name does not follow the one given')
        for x, old in before:
            if not ctx.test(ctx.eq(old, name)):
                ctx.check(ctx.eq(x.name, old), 'unrelated item renamed')
            else:
                follows(ctx, x.name, old, 'renamed beyond recognition')
    ctx.reach('end')


def t_events(ctx, n, first, dyn):
    ws = autosar.xml.Workspace()
    pkg = ws.create_package('P')
    swc = E.ApplicationSoftwareComponentType('S')
    pkg.append(swc)
    beh = swc.create_internal_behavior('B')
    beh.create_runnable('R')
    bases = []
    given = []
    for i in range(n):
        kind = ctx.pick(f'k{i}', ['init', 'timing', 'background'] if i < 2 else ['init', 'timing']) if i else first
        name = some_name(ctx, f'n{i}', bases)
        bases.append(name)
        before = [(x, x.name) for x in beh.events]
        if ctx.flag(f'dyn{i}') if i else dyn:
            setattr(ws.behavior_settings, {'init': 'init_event_prefix', 'timing': 'timing_event_prefix',
                                           'background': 'background_event_prefix'}[kind], name)
            base = name + '_R'
            kw = {}
        else:
            base = name
            kw = {'event_name': name}
        if kind == 'init':
            ev = beh.create_init_event('R', **kw)
        elif kind == 'timing':
            ev = beh.create_timing_event('R', 1, **kw)
        else:
            ev = beh.create_background_event('R', **kw)
        given.append(ev)
        same_objects(ctx, beh.events, given, 'events')
        distinct(ctx, beh.events, 'events')
        follows(ctx, ev.name, base, 'name does not follow the pattern')
        ctx.check(ctx.eq(str(ev.ref()), '/P/S/B/' + ev.name), 'reference of event')
        for x, old in before:
            if not ctx.test(ctx.eq(old, base)):
                ctx.check(ctx.eq(x.name, old), 'unrelated event renamed')
            else:
                follows(ctx, x.name, old, 'renamed beyond recognition')
    ctx.reach('end')


def t_crowded_points(ctx, method, attr, cls):
    """Many access points of one name"""
    runnable = E.RunnableEntity('R')
    base = 'x_1' if ctx.flag('base with number') else 'x'
    for i in range(CROWD):
        getattr(runnable, method)(getattr(E, cls)(base))
    items = getattr(runnable, attr)
    ctx.check(len(items) == CROWD, 'number of items')
    for i, x in enumerate(items):
        ctx.check(not any(x.name == y.name for y in items[:i]), 'names')
        follows(ctx, x.name, base, 'name does not follow the one given')
    before = [(x, x.name) for x in items]
    name = ctx.pick('form', ['x', 'x_1', None])
    if name is None:
        name = 'x_' + ctx.text('digits', 1, 2, 'digit')
    point = getattr(E, cls)(name)
    getattr(runnable, method)(point)
    items = getattr(runnable, attr)
    same_objects(ctx, items, [x for x, _ in before] + [point], attr)
    distinct(ctx, items, attr)
    follows(ctx, point.name, name, 'name does not follow the one given')
    for x, old in before:
        if not ctx.test(ctx.eq(old, name)):
            ctx.check(ctx.eq(x.name, old), 'unrelated item renamed')
        else:
            follows(ctx, x.name, old, 'renamed beyond recognition')
    ctx.reach('end')


def t_unique(ctx, n):
    """make_unique_name_in_list over any list of distinct names"""
    base = ctx.ident('base', 2)
    items = []
    for i in range(n):
        name = some_name(ctx, f'n{i}', [base])
        for x in items:
            ctx.assume(ctx.no(ctx.eq(x.name, name)))
        items.append(E.Unit(name))
    old = [x.name for x in items]
    new = ar_element.make_unique_name_in_list(items, base)
    for x in items:
        ctx.check(ctx.no(ctx.eq(x.name, new)), 'new name is taken')
    distinct(ctx, items, 'list')
    follows(ctx, new, base, 'name does not follow the pattern')
    for x, o in zip(items, old):
        if not ctx.test(ctx.eq(o, base)):
            ctx.check(ctx.eq(x.name, o), 'unrelated item renamed')
    ctx.reach('end')


def cases(prop, tier):
    deep = tier == 'thorough'
    if prop == 'N01':
        out = [Case(f'history:{r}', t_history, root=r, steps=4 if deep else 3, limits={'weight': 9})
               for r in ('workspace', 'document', 'package', 'sub', 'loose')]
        out += [Case(f'make_path:{r}', t_make_path, root=r, limits={'weight': 5}) for r in ('workspace', 'document')]
        out += [Case(f'crowd:{r}', t_crowd, root=r, limits={'weight': 5}) for r in ('workspace', 'package')]
        out += [Case('make_many', t_make_many), Case('filter', t_filter), Case('filter_regex', t_filter_regex)]
        return out
    if prop == 'N02':
        out = [Case('chain:' + '<'.join(c), t_chain, chain=c, dest=d, findable=f, limits={'weight': len(c)})
               for c, d, f in CHAINS]
        out += [Case(f'create:{k}', t_create, key=k) for k in CREATE]
        out.append(Case('rename', t_rename))
        out += [Case(f'deep:{r}', t_deep_path, root=r, limits={'weight': 3}) for r in ('workspace', 'document')]
        return out
    out = [Case(f'points:{a}', t_points, method=m, attr=a, cls=c, n=4 if deep else 3, limits={'weight': 3})
           for m, a, c in POINTS]
    out += [Case(f'events:{k}:{"prefix" if d else "name"}', t_events, n=3, first=k, dyn=d, limits={'weight': 20})
            for k in ('init', 'timing', 'background') for d in (True, False)]
    out += [Case(f'crowd:{a}', t_crowded_points, method=m, attr=a, cls=c) for m, a, c in POINTS]
    out.append(Case('unique', t_unique, n=4 if deep else 3, limits={'weight': 10}))
    return out
