"""
Writing a model object and reading it back gives an object of the same class with the same value
in every field (R01..R07).
"""
from sx.case import Case
import autosar.xml
import autosar.xml.element as ar_element
from harness import spec
from harness.build import Builder

GROUPS = {
    'R01': 'Annotation Break DocumentationBlock EmphasisText IndexEntry MultilanguageLongName '
           'MultiLanguageOverviewParagraph MultiLanguageParagraph MultiLanguageVerbatim LanguageLongName '
           'LanguageParagraph LanguageOverviewParagraph LanguageVerbatim SingleLanguageUnitNames Superscript '
           'Subscript TechnicalTerm',
    'R02': 'CompuMethod Computation CompuRational CompuConst CompuScale ScaleConstraint InternalConstraint '
           'PhysicalConstraint DataConstraintRule DataConstraint Unit',
    'R03': 'ApplicationArrayDataType ApplicationRecordDataType ApplicationPrimitiveDataType SwBaseType SwAddrMethod '
           'ImplementationDataType DataTypeMappingSet SwDataDefPropsConditional SwBitRepresentation SwTextProps '
           'SwPointerTargetProps SymbolProps ImplementationDataTypeElement ApplicationArrayElement '
           'ApplicationRecordElement DataTypeMap VariableDataPrototype ParameterDataPrototype ArgumentDataPrototype '
           'ModeRequestTypeMap',
    'R04': 'TextValueSpecification NumericalValueSpecification NotAvailableValueSpecification '
           'ArrayValueSpecification RecordValueSpecification ApplicationValueSpecification ConstantReference '
           'ConstantSpecification ValueList SwValues ValueGroup SwAxisCont SwValueCont',
    'R05': 'NvDataInterface ParameterInterface SenderReceiverInterface ClientServerInterface ModeSwitchInterface '
           'ModeDeclarationGroup E2EProfileCompatibilityProps InvalidationPolicy ApplicationError '
           'ClientServerOperation ModeDeclaration ModeErrorBehavior ModeTransition ModeDeclarationGroupPrototype',
    'R06': 'DataFilter AutosarEngineeringObject Code ApplicationSoftwareComponentType CompositionSwComponentType '
           'SwcImplementation ModeSwitchSenderComSpec QueuedSenderComSpec NonqueuedSenderComSpec NvProvideComSpec '
           'ParameterProvideComSpec ServerComSpec QueuedReceiverComSpec NonqueuedReceiverComSpec NvRequireComSpec '
           'ParameterRequireComSpec ModeSwitchReceiverComSpec ClientComSpec EndToEndTransformationComSpecProps '
           'ModeSwitchedAckRequest TransmissionAcknowledgementRequest TransmissionComSpecProps ReceptionComSpecProps '
           'ProvidePortPrototype RequirePortPrototype PRPortPrototype SwComponentPrototype '
           'PortInCompositionTypeInstanceRef AssemblySwConnector DelegationSwConnector PassThroughSwConnector',
    'R07': 'POperationInAtomicSwcInstanceRef PModeGroupInAtomicSwcInstanceRef PTriggerInAtomicSwcTypeInstanceRef '
           'ROperationInAtomicSwcInstanceRef RTriggerInAtomicSwcInstanceRef RVariableInAtomicSwcInstanceRef '
           'RModeInAtomicSwcInstanceRef RModeGroupInAtomicSwcInstanceRef ArVariableInImplementationDataInstanceRef '
           'VariableInAtomicSWCTypeInstanceRef AutosarVariableRef VariableAccess SwcInternalBehavior ExclusiveArea '
           'ExecutableEntityActivationReason ExclusiveAreaRefConditional RunnableEntityArgument RunnableEntity '
           + ' '.join(spec.EVENTS) +
           ' PortDefinedArgumentValue CommunicationBufferLocking PortApiOption AsynchronousServerCallPoint '
           'SynchronousServerCallPoint AsynchronousServerCallResultPoint ExternalTriggeringPointIdent '
           'ExternalTriggeringPoint InternalTriggeringPoint ModeAccessPointIdent ModeAccessPoint ModeSwitchPoint '
           'ParameterInAtomicSwcTypeInstanceRef AutosarParameterRef ParameterAccess WaitPoint',
}

# element tag to ask the writer for
TAGS = {'DataFilter': 'DATA-FILTER', 'AutosarEngineeringObject': 'AUTOSAR-ENGINEERING-OBJECT',
        'DocumentationBlock': 'ANNOTATION-TEXT', 'MultilanguageLongName': 'LABEL',
        'MultiLanguageOverviewParagraph': 'DESC', 'SingleLanguageUnitNames': 'DISPLAY-NAME',
        'Computation': 'COMPU-INTERNAL-TO-PHYS', 'SymbolProps': 'SYMBOL-PROPS',
        'VariableDataPrototype': 'VARIABLE-DATA-PROTOTYPE', 'ParameterDataPrototype': 'PARAMETER-DATA-PROTOTYPE',
        'ModeErrorBehavior': 'MODE-MANAGER-ERROR-BEHAVIOR',
        'ModeDeclarationGroupPrototype': 'MODE-DECLARATION-GROUP-PROTOTYPE',
        'AutosarVariableRef': 'ACCESSED-VARIABLE',
        'VariableAccess': 'VARIABLE-ACCESS', 'AutosarParameterRef': 'ACCESSED-PARAMETER'}
# class name to tell the reader where the tag is ambiguous
READ_AS = ('ApplicationArrayElement', 'ParameterDataPrototype', 'VariableDataPrototype')
# classes which only exist inside another one
WRAP = {'LanguageOverviewParagraph': ('MultiLanguageOverviewParagraph', 'paragraph', 'elements'),
        'CompuConst': ('CompuScale', 'content', 'content'),
        'ValueGroup': ('SwValues', 'values', 'values'),
        'POperationInAtomicSwcInstanceRef': ('OperationInvokedEvent', 'operation', 'operation'),
        'PModeGroupInAtomicSwcInstanceRef': ('SwcModeManagerErrorEvent', 'mode_group', 'mode_group'),
        'PTriggerInAtomicSwcTypeInstanceRef': ('ExternalTriggeringPoint', 'trigger', 'trigger'),
        'ROperationInAtomicSwcInstanceRef': ('SynchronousServerCallPoint', 'operation', 'operation'),
        'RTriggerInAtomicSwcInstanceRef': ('ExternalTriggerOccurredEvent', 'trigger', 'trigger'),
        'RVariableInAtomicSwcInstanceRef': ('DataReceivedEvent', 'data', 'data'),
        'ExclusiveArea': ('SwcInternalBehavior', 'exclusive_areas', 'exclusive_areas'),
        'ExternalTriggeringPointIdent': ('ExternalTriggeringPoint', 'ident', 'ident'),
        'ModeAccessPointIdent': ('ModeAccessPoint', 'ident', 'ident'),
        'RModeInAtomicSwcInstanceRef': ('SwcModeSwitchEvent', 'mode', 'mode'),
        'RModeGroupInAtomicSwcInstanceRef': ('ModeAccessPoint', 'mode_group', 'mode_group'),
        'PortInCompositionTypeInstanceRef': ('DelegationSwConnector', 'inner_port', 'inner_port'),
        'ArVariableInImplementationDataInstanceRef': ('AutosarVariableRef', 'ar_variable_in_impl_datatype',
                                                      'ar_variable_in_impl_datatype'),
        'VariableInAtomicSWCTypeInstanceRef': ('AutosarVariableRef', 'ar_variable_iref', 'ar_variable_iref'),
        'ParameterInAtomicSwcTypeInstanceRef': ('AutosarParameterRef', 'autosar_parameter', 'autosar_parameter'),
        'ModeRequestTypeMap': None}


def write(name, obj):
    return autosar.xml.Writer().write_str_elem(obj, TAGS.get(name))


def read(name, xml):
    if name in READ_AS:
        return autosar.xml.Reader().read_str_elem(xml, name)
    return autosar.xml.Reader().read_str_elem(xml)


def wrapped(name, obj):
    """The object to write for an object of a class, and how to get back at it"""
    w = WRAP.get(name)
    if w is None:
        return name, obj, lambda x: x
    outer, arg, attr = w
    cls = getattr(ar_element, outer)
    kw = {arg: obj}
    if spec.CLASSES[outer].ident != '-':
        kw['name'] = 'Outer'

    def get(x):
        v = getattr(x, attr)
        return v[0] if isinstance(v, list) else v
    return outer, cls(**kw), get


def roundtrip(ctx, name, given_of, deep=False):
    b = Builder(ctx, deep)
    given, base = given_of(ctx)
    obj, match = b.make(name, 'x', given, base)
    match(obj, 'constructed')
    outer, whole, get = wrapped(name, obj)
    xml = write(outer, whole)
    ctx.check(isinstance(xml, str) and len(xml) > 0, 'nothing written')
    back = read(outer, xml)
    ctx.check(type(back) is type(whole), 'another class comes back')
    match(get(back), 'read back')
    match(obj, 'after writing')
    if not b.loose:
        ctx.check(ctx.eq(write(outer, back), xml), 'writing the copy gives other text')
    ctx.reach('end')


def optional(name):
    return [f.key for f in spec.CLASSES[name].fields if not f.required]


def t_each(ctx, name, keys, deep=False):
    """One optional field at a time, in every form"""
    def given_of(ctx):
        if not keys:
            return {}, 'full'
        k = ctx.pick('field', keys)
        if k == '':
            return {}, 'full'
        return {k: 'full'}, 'mark' if name == 'CompuRational' else 'lite'
    roundtrip(ctx, name, given_of, deep)


def t_tuple(ctx, name, combos, lv='lite', base='mark'):
    """Several optional fields together"""
    def given_of(ctx):
        combo = combos[ctx.pick('fields', list(range(len(combos))))]
        return {k: 'mark' if (name, k) in HEAVY else lv for k in combo}, base
    roundtrip(ctx, name, given_of)


def t_most(ctx, name):
    """All optional fields, or all but one"""
    def given_of(ctx):
        keys = optional(name)
        skip = ctx.pick('without', [''] + keys)
        return {k: 'mark' for k in keys if k != skip and (name, k) not in EXCLUSIVE or k == ''}, 'mark'
    roundtrip(ctx, name, given_of)


def t_long(ctx, name, keys):
    """Long texts, paths and lists"""
    def given_of(ctx):
        return {ctx.pick('field', keys): 'long'}, 'mark'
    roundtrip(ctx, name, given_of)


def t_rational(ctx):
    """Coefficients with a part missing or empty, alone and in a scale"""
    b = Builder(ctx)

    def coefficients(name):
        form = ctx.pick(name, ['missing', 'empty', 'one', 'two'])
        if form == 'missing':
            return None
        n = ['empty', 'one', 'two'].index(form)
        return tuple(ctx.int(f'{name}{i}', -9, 9) for i in range(n))
    top, bottom = coefficients('numerator'), coefficients('denominator')
    obj = ar_element.CompuRational(top, bottom)
    if ctx.flag('in scale'):
        outer = ar_element.CompuScale(content=obj, label='x')
        name, get = 'CompuScale', lambda x: x.content
    else:
        name, outer, get = 'CompuRational', obj, lambda x: x
    xml = write(name, outer)
    back = read(name, xml)
    ctx.check(type(back) is type(outer), 'another class comes back')
    for x in (get(back), obj):
        ctx.check(type(x) is ar_element.CompuRational, 'class of coefficients')
        for have, want in ((x.numerator, top), (x.denominator, bottom)):
            if not want:
                ctx.check(not have, 'coefficients which were never given')
                ctx.check(want is not None or have is None, 'missing coefficients')
            else:
                ctx.check(len(have) == len(want), 'number of coefficients')
                for p, q in zip(have, want):
                    b.same(p, q, 'coefficient')
    ctx.check(ctx.eq(write(name, back), xml), 'writing the copy gives other text')
    ctx.reach('end')


# chains of classes which contain each other
DEEP = {'R03': [('ImplementationDataType', 'sub_elements')] + [('ImplementationDataTypeElement', 'sub_elements')] * 6,
        'R04': [('ConstantSpecification', 'value')] + [('RecordValueSpecification', 'fields'),
                                                       ('ArrayValueSpecification', 'elements')] * 4,
        'R04 groups': [('SwValues', 'values')] + [('ValueGroup', 'values')] * 6}
INNER = {'R03': 'ImplementationDataTypeElement', 'R04': 'NumericalValueSpecification', 'R04 groups': 'ValueGroup'}


def t_deep(ctx, chain):
    """Objects nested many times, one of them with other content and a brother"""
    b = Builder(ctx)
    links = DEEP[chain]
    at = ctx.pick('at', list(range(len(links) + 1)))

    def some(name, path, lv, extra=None):
        but = [k for k in (extra or ())]
        keys = [f.key for f in spec.CLASSES[name].fields if not f.required and f.key not in but and
                (f.kind in ('t', '*grouplabel', '*valuelist') or f.kind[:2] == 'e:')]
        return b.make(name, path, {k: lv for k in keys[:2]}, lv, extra=extra)
    obj, match = some(INNER[chain], 'inner', 'lite' if at == len(links) else 'mark')
    for i in range(len(links) - 1, -1, -1):
        name, key = links[i]
        single = spec.CLASSES[name].fields and key == 'value'
        brother = at == i and not single and ctx.flag('brother')
        first = brother and ctx.flag('first')
        inner, more = [obj], []
        if brother:
            more = [some(links[i + 1][0] if i + 1 < len(links) else INNER[chain], 'brother', 'mark')]
            inner = [more[0][0], obj] if first else [obj, more[0][0]]
        obj, own = some(name, f'o{i}', 'lite' if at == i else 'mark', {key: inner[0] if single else inner})

        def both(x, w, own=own, match=match, key=key, single=single, more=more, first=first):
            own(x, w)
            v = b.field(x, key)
            if single:
                match(v, w + '/' + key)
                return
            ctx.check(isinstance(v, list) and len(v) == 1 + len(more), w + ': number of ' + key)
            match(v[1 if first else 0], w + '/' + key)
            for _, m in more:
                m(v[0 if first else 1], w + ': brother')
        match = both
    match(obj, 'made')
    xml = write(links[0][0], obj)
    back = read(links[0][0], xml)
    match(back, 'read back')
    match(obj, 'after writing')
    ctx.check(ctx.eq(write(links[0][0], back), xml), 'writing the copy gives other text')
    ctx.reach('end')


LONGS = ('*docelems', '*scaleconstrs', '*modes', '*numtuple', '*valuelist', '*swvalues', '*groupvalues', '*exareas')
EXCLUSIVE = set()
# classes made of numbers: smaller portions of the work
HEAVY = {('CompuScale', 'content')}
SLOW = ('CompuScale', 'SwAxisCont', 'SwValueCont')


def combos_of(keys, n):
    if n == 0:
        return [()]
    out = []
    for i, k in enumerate(keys):
        out += [(k,) + c for c in combos_of(keys[i + 1:], n - 1)]
    return out


def chunked(cid, name, combos, lv, size):
    parts = [combos[i:i + size] for i in range(0, len(combos), size)]
    return [Case(cid if len(parts) == 1 else f'{cid}{i + 1}', t_tuple, name=name, combos=p, lv=lv,
                 limits={'weight': len(p) * 2 + 10 * len(parts)}) for i, p in enumerate(parts)]


def cases(prop, tier):
    deep = tier == 'thorough'
    out = []
    out += [Case('deep' + c[3:].replace(' ', ':'), t_deep, chain=c) for c in DEEP if c[:3] == prop]
    if prop == 'R02':
        out.append(Case('rational', t_rational))
    for name in GROUPS[prop].split():
        keys = optional(name)
        ident = spec.CLASSES[name].ident != '-'
        out.append(Case(f'{name}:each', t_each, name=name, keys=(['']) + keys if (ident or keys) else [], deep=deep,
                        limits={'weight': 1 + len(keys)}))
        if len(keys) >= 2:
            out += chunked(f'{name}:pairs', name, combos_of(keys, 2), 'lite', 6 if name in SLOW else 24)
        if len(keys) >= 3:
            out.append(Case(f'{name}:most', t_most, name=name, limits={'weight': len(keys)}))
        longs = [f.key for f in spec.CLASSES[name].fields if f.kind == 't' or f.kind[:2] in ('r:', 'l:', 's:') or
                 f.kind[:3] == 'rs:' or f.kind in LONGS or f.kind[:6] in ('*langs', '*parts')]
        if longs:
            out.append(Case(f'{name}:long', t_long, name=name, keys=longs, limits={'weight': 3 * len(longs)}))
        if deep and len(keys) >= 3:
            out += chunked(f'{name}:triples', name, combos_of(keys, 3), 'mark', 200)
    return out
