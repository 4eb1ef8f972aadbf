"""
Objects put into others one at a time with the append methods: the same result as giving them to the constructor (V05).
"""
from sx.case import Case
import autosar.xml.element as ar_element
from harness import spec
from harness.build import ATTR, Builder
from harness.checks import Odd, refused
from harness.docs import snapshot, same
from harness.roundtrip import read, wrapped, write

E = ar_element

# class  parameter  method  kind of element
TABLE = '''
Code artifact_descriptors append_artifact_descriptor o:AutosarEngineeringObject
SwcImplementation code_descriptors append_code_descriptor o:Code
ModeDeclarationGroup mode_declarations append_mode_declaratation o:ModeDeclaration
ModeDeclarationGroup mode_transitions append_mode_transition o:ModeTransition
SenderReceiverInterface data_elements append_data_element o:VariableDataPrototype
SenderReceiverInterface invalidation_policies append_invalidation_policy o:InvalidationPolicy
NvDataInterface data_elements append_data_element o:VariableDataPrototype
ParameterInterface parameters append_parameter o:ParameterDataPrototype
ClientServerOperation arguments append_argument o:ArgumentDataPrototype
ClientServerOperation possible_error_refs append_possible_error_ref r:ApplicationErrorRef
ClientServerInterface operations append_operation o:ClientServerOperation
ClientServerInterface possible_errors append_possible_errors o:ApplicationError
ServerComSpec transformation_com_spec_props append_transformation_com_spec_props o:EndToEndTransformationComSpecProps
NonqueuedReceiverComSpec transformation_com_spec_props append_transformation_com_spec_props o:EndToEndTransformationComSpecProps
QueuedReceiverComSpec transformation_com_spec_props append_transformation_com_spec_props o:EndToEndTransformationComSpecProps
ClientComSpec transformation_com_spec_props append_transformation_com_spec_props o:EndToEndTransformationComSpecProps
ProvidePortPrototype com_spec append_com_spec *pcomspec
RequirePortPrototype com_spec append_com_spec *rcomspec
PRPortPrototype provided_com_spec append_com_spec *pcomspec
PRPortPrototype required_com_spec append_com_spec *rcomspec
ApplicationSoftwareComponentType ports append_port o:ProvidePortPrototype|RequirePortPrototype|PRPortPrototype
CompositionSwComponentType ports append_port o:ProvidePortPrototype|RequirePortPrototype|PRPortPrototype
CompositionSwComponentType components append_component o:SwComponentPrototype
CompositionSwComponentType connectors append_connector o:AssemblySwConnector|DelegationSwConnector|PassThroughSwConnector
ArVariableInImplementationDataInstanceRef context_data_prototype_refs append_context_data_protype_ref r:AbstractImplementationDataTypeElementRef
VariableInAtomicSWCTypeInstanceRef context_data_prototype_refs append_context_data_protype_ref r:ApplicationCompositeElementDataPrototypeRef
RunnableEntity activation_reasons append_activation_reason o:ExecutableEntityActivationReason
RunnableEntity can_enter_leave append_can_enter_leave o:ExclusiveAreaRefConditional
RunnableEntity runs_insides append_runs_insides o:ExclusiveAreaRefConditional
RunnableEntity exclusive_area_nesting_order append_exclusive_area_nesting_order r:ExclusiveAreaNestingOrderRef
RunnableEntity argument append_argument o:RunnableEntityArgument
RunnableEntity async_server_call_result_point append_async_server_call_result_point o:AsynchronousServerCallResultPoint
RunnableEntity data_read_access append_data_read_access o:VariableAccess
RunnableEntity data_receive_point_by_argument append_data_receive_point_by_argument o:VariableAccess
RunnableEntity data_receive_point_by_value append_data_receive_point_by_value o:VariableAccess
RunnableEntity data_send_point append_data_send_point o:VariableAccess
RunnableEntity data_write_access append_data_write_access o:VariableAccess
RunnableEntity external_triggering_point append_external_triggering_point o:ExternalTriggeringPoint
RunnableEntity internal_triggering_point append_internal_triggering_point o:InternalTriggeringPoint
RunnableEntity mode_access_point append_mode_access_point o:ModeAccessPoint
RunnableEntity mode_switch_point append_mode_switch_point o:ModeSwitchPoint
RunnableEntity parameter_access append_parameter_access o:ParameterAccess
RunnableEntity read_local_variable append_read_local_variable o:VariableAccess
RunnableEntity write_local_variable append_write_local_variable o:VariableAccess
RunnableEntity server_call_point append_server_call_point o:AsynchronousServerCallPoint|SynchronousServerCallPoint
RunnableEntity wait_point append_wait_point o:WaitPoint
TimingEvent disabled_modes append_disabled_mode o:RModeInAtomicSwcInstanceRef
SwcModeSwitchEvent disabled_modes append_disabled_mode o:RModeInAtomicSwcInstanceRef
OperationInvokedEvent disabled_modes append_disabled_mode o:RModeInAtomicSwcInstanceRef
PortApiOption port_arg_values append_port_arg_value o:PortDefinedArgumentValue
PortApiOption supported_features append_supported_feature o:CommunicationBufferLocking
SwcInternalBehavior data_type_mappings append_data_type_mapping r:DataTypeMappingSetRef
SwcInternalBehavior exclusive_areas append_exclusive_area o:ExclusiveArea
SwcInternalBehavior runnables append_runnable o:RunnableEntity
SwcInternalBehavior events append_event *event
ImplementationDataType sub_elements append o:ImplementationDataTypeElement
ImplementationDataTypeElement sub_elements append o:ImplementationDataTypeElement
ApplicationRecordDataType elements append o:ApplicationRecordElement
DataTypeMappingSet data_type_maps append o:DataTypeMap
ArrayValueSpecification elements append vs
RecordValueSpecification fields append vs
ValueList values append number
SwValues values append swvalue
DocumentationBlock elements append o:MultiLanguageParagraph|MultiLanguageVerbatim
MultilanguageLongName elements append o:LanguageLongName
MultiLanguageOverviewParagraph elements append o:LanguageOverviewParagraph
MultiLanguageParagraph elements append o:LanguageParagraph
MultiLanguageVerbatim elements append o:LanguageVerbatim
LanguageLongName parts append part:TechnicalTerm|EmphasisText|Subscript|Superscript|IndexEntry
LanguageOverviewParagraph parts append part:TechnicalTerm|Break|EmphasisText|Subscript|Superscript|IndexEntry
LanguageParagraph parts append part:TechnicalTerm|Break|EmphasisText|Subscript|Superscript|IndexEntry
LanguageVerbatim parts append part:TechnicalTerm|Break|EmphasisText
SingleLanguageUnitNames parts append part:Superscript|Subscript
'''
# the first element alone is given to the constructor
FIRST = {'DocumentationBlock': 'element', 'MultilanguageLongName': 'long_name',
         'MultiLanguageOverviewParagraph': 'paragraph', 'MultiLanguageParagraph': 'paragraph',
         'MultiLanguageVerbatim': 'element'}


def element(ctx, b, kind, path, lv, text_before):
    """An element to append with its matcher, and whether it is a text"""
    if kind == 'number':
        arg, v = b.numerical(path, lv)
        return arg, lambda x, w: b.same(b.number_of(x), v, w), False
    if kind == 'swvalue':
        return b.sw_value(path, lv, 0, True) + (False,)
    if kind[:5] == 'part:':
        forms = kind[5:].split('|')
        if lv == 'lite':
            form = ctx.pick(path + '?form', forms + ([] if text_before else ['text']))
        else:
            form = forms[b.count() % len(forms)]
        return b.part(form, path, lv) + (form == 'text',)
    return b.val(kind, path, lv, 0) + (False,)


def strangers(kind):
    """Objects which do not belong into a list of that kind"""
    pool = [E.SwTextProps(), E.SymbolProps('N'), E.Unit('N'), Odd(), None]
    if kind not in ('number', 'swvalue'):
        pool += [7, 2.5]
    if kind[:2] == 'o:' and 'ExclusiveAreaRefConditional' not in kind:
        pool.append('x')
    return pool


def t_append(ctx, cls, key, method, kind, most):
    b = Builder(ctx)
    attr = ATTR.get((cls, key), key)
    before = ctx.pick('before', [0, 1])
    after = ctx.pick('after', list(range(1, most + 1)))
    items = []
    for i in range(before + after):
        items.append(element(ctx, b, kind, f'e{i}', 'lite' if i == before else 'mark', bool(items) and items[-1][2]))
    args = [a for a, _, _ in items]
    if cls in FIRST:
        obj = getattr(E, cls)(**({FIRST[cls]: args[0]} if before else {}))
        bystander = getattr(E, cls)()

        def rest(x, w):
            ctx.check(type(x).__name__ == cls, w + ': class')
    else:
        extra = {key: args[:before]} if before else {key: None}
        if cls == 'LanguageLongName' or cls.startswith('Language'):
            extra = {key: args[:before]}
        obj, rest = b.make(cls, 'x', {}, 'mark', extra=extra)
        bystander, _ = b.make(cls, 'y', {}, 'mark')
    wrong = ctx.pick('wrong', ['no', 'first', 'last'])
    stranger = ctx.pick('stranger', strangers(kind)) if wrong != 'no' else None
    put = getattr(obj, method)

    def try_wrong():
        old = snapshot(obj)
        _, exc = refused(put, stranger)
        ctx.check(exc is not None, f'{cls}.{method}: {type(stranger).__name__} accepted')
        same(ctx, old, snapshot(obj), f'{cls}.{method}: refused element left something')
    if wrong == 'first':
        try_wrong()
    former = None
    if wrong == 'no' and not isinstance(args[-1], (int, float, str)) and ctx.flag('owned'):
        # the last one already belongs to another object
        former = getattr(E, cls)(**{FIRST[cls]: args[-1]}) if cls in FIRST else b.make(
            cls, 'z', {}, 'mark', extra={key: [args[-1]]})[0]
    for a in args[before:]:
        put(a)
    if wrong == 'last':
        try_wrong()
    if wrong == 'no':
        ctx.check(former is None or any(o is args[-1] for o in getattr(former, attr)), 'taken out of another object')
    what = f'{cls}.{attr}'

    def contents(x, w):
        x = getattr(x, attr)
        ctx.check(len(x) == len(items), w + ': number of elements')
        for i, (_, m, _) in enumerate(items):
            m(x[i], f'{w}[{i}]')
    contents(obj, what)
    rest(obj, what)
    for i, a in enumerate(args):
        if not isinstance(a, (int, float, str)):
            ctx.check(getattr(obj, attr)[i] is a, what + ': another object than the one given')
        name = type(a).__name__
        if name in spec.CLASSES and spec.CLASSES[name].ident == 'I':
            ctx.check(a.parent is obj, f'{what}: {name} has another parent')
        elif name in ('ModeAccessPoint', 'ExternalTriggeringPoint') and a.ident is not None:
            ctx.check(a.ident.parent is obj, f'{what}: identifier of {name} has another parent')
    left = getattr(bystander, attr)
    ctx.check(left is None or len(left) == 0, what + ': element in another object as well')
    if cls != 'ModeRequestTypeMap':
        outer, whole, get = wrapped(cls, obj)
        back = get(read(outer, write(outer, whole)))
        contents(back, what + ' read back')
        rest(back, what + ' read back')
    ctx.reach('end')


def t_area(ctx, key, method, most):
    """Exclusive areas of runnables given as path, reference or conditional reference"""
    b = Builder(ctx)
    obj, rest = b.make('RunnableEntity', 'x', {}, 'mark', extra={key: None})
    paths = []
    for i in range(ctx.pick('number', list(range(1, most + 1)))):
        path = '/' + b.text(f'p{i}', 'lite')
        paths.append(path)
        form = ctx.pick(f'form{i}', ['path', 'reference', 'conditional', 'conditional path'])
        ref = ar_element.ExclusiveAreaRef(path)
        getattr(obj, method)({'path': path, 'reference': ref, 'conditional': E.ExclusiveAreaRefConditional(ref),
                              'conditional path': E.ExclusiveAreaRefConditional(path)}[form])

    def contents(x, w):
        x = getattr(x, key)
        ctx.check(len(x) == len(paths), w + ': number of areas')
        for a, path in zip(x, paths):
            ctx.check(ctx.eq(a.exclusive_area.value, path), w + ': path')
            ctx.check(a.exclusive_area.dest is ar_element.ar_enum.IdentifiableSubTypes.EXCLUSIVE_AREA, w + ': kind')
    contents(obj, key)
    rest(obj, key)
    back = read('RunnableEntity', write('RunnableEntity', obj))
    contents(back, key + ' read back')
    rest(back, key + ' read back')
    ctx.reach('end')


def t_extend(ctx, most):
    """Record elements added in a list"""
    b = Builder(ctx)
    n0, n1 = ctx.pick('before', [0, 1]), ctx.pick('after', list(range(most + 1)))
    items = [b.val('o:ApplicationRecordElement', f'e{i}', 'lite' if i == n0 else 'mark', 0) for i in range(n0 + n1)]
    obj = E.ApplicationRecordDataType('T', [a for a, _ in items[:n0]])
    obj.extend([a for a, _ in items[n0:]])
    _, exc = refused(obj.extend, [ctx.pick('wrong', [E.Unit('N'), Odd(), 'x', 7])])
    ctx.check(exc is not None, 'something else accepted as record element')
    ctx.check(len(obj.elements) == len(items), 'number of elements')
    for (a, m), x in zip(items, obj.elements):
        ctx.check(x is a and a.parent is obj, 'element or its parent')
        m(x, 'element')
    ctx.reach('end')


def cases(prop, tier):
    most = 3 if tier == 'thorough' else 2
    out = []
    for line in TABLE.strip().splitlines():
        cls, key, method, kind = line.split(' ')
        out.append(Case(f'{cls}:{key}', t_append, cls=cls, key=key, method=method, kind=kind, most=most))
    for key, method in (('can_enter_leave', 'append_can_enter_leave'), ('runs_insides', 'append_runs_insides')):
        out.append(Case(f'area:{key}', t_area, key=key, method=method, most=most))
    out.append(Case('extend', t_extend, most=most))
    return out
