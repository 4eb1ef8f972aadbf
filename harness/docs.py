"""
Documents and workspaces: common parts of identifiable elements and package trees (R08), references and their
destination (R09), documents written by a workspace (D01), reuse of readers and writers (D02), namespaces,
templates and configuration (D03).
"""
import contextlib
import io
import os
import shutil
import tempfile
from sx.case import Case
import autosar.base
import autosar.xml
import autosar.xml.base as ar_base
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.exception as ar_exception
import autosar.xml.reference as ar_ref
import autosar.xml.template as ar_template
from harness import spec
from harness.build import Builder
from harness.roundtrip import write, read, wrapped

Dest = ar_enum.IdentifiableSubTypes


def snapshot(obj):
    """The content of a model object as plain data: class and public fields, without the parents"""
    if isinstance(obj, (list, tuple)):
        return [snapshot(x) for x in obj]
    if isinstance(obj, dict):
        return [[k, snapshot(v)] for k, v in obj.items()]
    if isinstance(obj, (ar_base.ARObject, ar_document.Document)):
        out = [type(obj).__name__]
        for key in vars(obj):
            if key[0] != '_' and key not in ('parent', 'behavior_settings'):
                out.append([key, snapshot(getattr(obj, key))])
        return out
    return obj


def same(ctx, a, b, what):
    """Equality of two snapshots"""
    if isinstance(a, list) or isinstance(b, list):
        ctx.check(isinstance(a, list) and isinstance(b, list) and len(a) == len(b), what + ': structure')
        for x, y in zip(a, b):
            same(ctx, x, y, what)
    elif isinstance(a, (str, int, float)) and not isinstance(a, bool) and a is not None:
        ctx.check(isinstance(b, (str, int, float)) and not isinstance(b, bool), what + ': kind of value')
        ctx.check(ctx.eq(a, b), what + ': value')
    else:
        ctx.check(a is b, what + ': value')


class Scratch:
    """A directory of its own"""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vp-autosar-')
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path)
        return False


# ---- R08

COMMON = [('category', 't'), ('uuid', 't'), ('desc', 'o:MultiLanguageOverviewParagraph'),
          ('long_name', 'o:MultilanguageLongName'), ('introduction', 'o:DocumentationBlock'),
          ('annotations', 's:o:Annotation')]
IDENTIFIABLE = [n for n in sorted(spec.CLASSES) if spec.CLASSES[n].ident == 'I']


def common_values(ctx, b, level, deep=False):
    """Values for some of the common fields, and their matchers (key -> (argument, matcher))"""
    out = {}
    if level == 'each':
        key, kind = COMMON[ctx.pick('common', list(range(len(COMMON))))]
        if key == 'desc' and ctx.flag('shorthand'):
            text = ctx.text('desc', 1, 2 if deep else 1, 'xml')
            lang = ctx.pick('lang', list(ar_enum.Language)) if ctx.flag('tuple') else None
            arg = text if lang is None else (lang, text)
            lang = ar_enum.Language.FOR_ALL if lang is None else lang

            def match(x, w):
                ctx.check(type(x) is ar_element.MultiLanguageOverviewParagraph and len(x.elements) == 1, w)
                ctx.check(x.elements[0].language is lang, w + ': language')
                ctx.check(len(x.elements[0].parts) == 1, w + ': parts')
                b.same(x.elements[0].parts[0], text, w)
            out[key] = (arg, match)
        else:
            out[key] = b.val(kind, key, 'full' if kind == 't' and deep else 'lite', 0)
        return out
    skip = ctx.pick('without', [''] + [k for k, _ in COMMON])
    for key, kind in COMMON:
        if key != skip:
            out[key] = b.val(kind, key, 'mark', 1)
    return out


def check_common(b, values, x, w):
    for key, _ in COMMON:
        if key in values:
            values[key][1](getattr(x, key), f'{w}.{key}')
        else:
            b.absent(getattr(x, key), f'{w}.{key}')


def t_common(ctx, name, level, deep=False):
    """The common fields of an identifiable element of the class"""
    b = Builder(ctx)
    values = common_values(ctx, b, level, deep)
    obj, match = plain(b, name, {k: v[0] for k, v in values.items()})
    check_common(b, values, obj, 'constructed')
    outer, whole, get = wrapped(name, obj)
    xml = write(outer, whole)
    back = get(read(outer, xml))
    match(back, 'read back')
    check_common(b, values, back, 'read back')
    check_common(b, values, obj, 'after writing')
    ctx.reach('end')


def plain(b, name, common):
    """An object of the class with one other field, if it has any, and the common fields given"""
    cs = spec.CLASSES[name]
    opt = [f.key for f in cs.fields if not f.required and f.kind in ('t', 'i', 'u', 'b', 'f', 'n')]
    return b.make(name, 'x', {k: 'mark' for k in opt[:1]}, 'mark', extra=common)


def t_package(ctx, level, deep=True):
    """The common fields of packages"""
    b = Builder(ctx)
    values = common_values(ctx, b, level, deep)
    doc = ar_document.Document()
    args = {k: v[0] for k, v in values.items()}
    where = ctx.pick('where', ['append', 'create', 'sub', 'create sub'])
    if where == 'append':
        doc.append(ar_element.Package('P', **args))
    elif where == 'create':
        doc.create_package('P', **args)
    elif where == 'sub':
        doc.create_package('Top').append(ar_element.Package('P', **args))
    else:
        doc.create_package('Top').create_package('P', **args)
    path = 'P' if where in ('append', 'create') else 'Top/P'
    # with and without contents
    inside = ctx.sub('inside', ['element', 'package'], 0, 2)
    if 'element' in inside:
        doc.find(path).append(ar_element.SwAddrMethod('Element'))
    if 'package' in inside:
        doc.find(path).create_package('Package')
    check_common(b, values, doc.find(path), 'constructed')
    back = autosar.xml.Reader().read_str(autosar.xml.Writer().write_str(doc))
    pkg = back.find(path)
    ctx.check(isinstance(pkg, ar_element.Package), 'package lost')
    check_common(b, values, pkg, 'read back')
    if path != 'P':
        check_common(b, {}, back.find('Top'), 'other package')
    ctx.check(len(pkg.elements) == ('element' in inside) and len(pkg.packages) == ('package' in inside),
              'contents of the package')
    for x in list(pkg.elements) + list(pkg.packages):
        check_common(b, {}, x, 'contents of the package')
    ctx.reach('end')


ELEMENTS = ['Unit', 'SwAddrMethod', 'CompuMethod', 'ConstantSpecification', 'ModeDeclarationGroup', 'SwBaseType']


def fill(ctx, box, tag, depth, names, want):
    """Adds a symbolic selection of packages and elements; want becomes the tree expected"""
    pkgs, elems = [], []
    if depth:
        for i in range(ctx.pick(f'{tag}.elements', [0, 1, 2])):
            name = fresh(ctx, f'{tag}.e{i}', names)
            cls = getattr(ar_element, ELEMENTS[(len(names) * 2 + i) % len(ELEMENTS)])
            box.append(cls(name))
            elems.append((name, cls))
    count = [0, 1, 2] if depth < 2 else [0]
    for i in range(ctx.pick(f'{tag}.packages', count)):
        name = fresh(ctx, f'{tag}.p{i}', names)
        sub = {}
        fill(ctx, box.create_package(name), f'{tag}.p{i}', depth + 1, names, sub)
        pkgs.append((name, sub))
    want['elements'] = elems
    want['packages'] = pkgs


def fresh(ctx, tag, names):
    """A short symbolic name; names of other containers may be equal"""
    name = ctx.ident(tag, 1)
    box = tag[:tag.rindex('.')]
    for other_box, other in names:
        if other_box == box:
            ctx.assume(ctx.no(ctx.eq(name, other)))
    names.append((box, name))
    return name


def check_tree(ctx, box, want, what):
    ctx.check(len(box.packages) == len(want['packages']), what + ': number of packages')
    if isinstance(box, ar_element.Package):
        ctx.check(len(box.elements) == len(want['elements']), what + ': number of elements')
        for elem, (name, cls) in zip(box.elements, want['elements']):
            ctx.check(type(elem) is cls, what + ': class of element')
            ctx.check(ctx.eq(elem.name, name), what + ': name of element')
            ctx.check(elem.parent is box, what + ': parent of element')
    for pkg, (name, sub) in zip(box.packages, want['packages']):
        ctx.check(type(pkg) is ar_element.Package, what + ': class of package')
        ctx.check(ctx.eq(pkg.name, name), what + ': name of package')
        ctx.check(pkg.parent is box, what + ': parent of package')
        check_tree(ctx, pkg, sub, what)


def t_document(ctx, top):
    """A tree of packages in a document"""
    version = ctx.int('version', 40, 99999)
    doc = ar_document.Document(schema_version=version)
    want = {'elements': [], 'packages': []}
    names = []
    for i in range(top):
        sub = {}
        name = fresh(ctx, f'.{i}', names)
        fill(ctx, doc.create_package(name), f'd{i}', 1, names, sub)
        want['packages'].append((name, sub))
    form = ctx.pick('form', ['file', 'str', 'bare'])
    default = 44 if ctx.flag('reader') else autosar.base.DEFAULT_SCHEMA_VERSION
    reader = autosar.xml.Reader(schema_version=44) if default == 44 else autosar.xml.Reader()
    writer = autosar.xml.Writer()
    if form == 'file':
        with Scratch() as scratch:
            path = os.path.join(scratch, 'doc.arxml')
            writer.write_file(doc, path)
            back = reader.read_file(path)
    elif form == 'str':
        back = reader.read_str(writer.write_str(doc, skip_root_attr=False))
    else:
        back = reader.read_str(writer.write_str(doc))
    ctx.check(isinstance(back, ar_document.Document), 'no document')
    check_tree(ctx, back, want, 'read back')
    check_tree(ctx, doc, want, 'after writing')
    if form != 'bare':
        ctx.check(ctx.eq(back.schema_version, version), 'schema version')
        ctx.check(ctx.eq(back.schema_file, doc.schema_file), 'schema file')
    else:
        ctx.check(back.schema_version == default, 'default schema version')
    ctx.reach('end')


LARGE = 13


def t_large(ctx, form):
    """Many packages and elements in one package, and packages deep in each other"""
    doc = ar_document.Document()
    want = {'elements': [], 'packages': []}
    at = ctx.pick('at', [0, 1, LARGE // 2, LARGE - 1])
    name = ctx.ident('name', 2)
    what = ctx.pick('what', ['packages', 'elements', 'deep', 'deep elements'])
    box, here = doc, want
    if form != 'top':
        for i in range(LARGE - 4 if what.startswith('deep') else 2):
            label = name if what == 'deep' and i == at else f'Dp{i}'
            sub = {'elements': [], 'packages': []}
            box, parent = box.create_package(label), here
            if what == 'deep elements':
                box.append(ar_element.Unit('Unit'))
                sub['elements'].append(('Unit', ar_element.Unit))
            parent['packages'].append((label, sub))
            here = sub
    for i in range(LARGE):
        label = name if i == at else f"{'PEX'[i % 3]}k{LARGE - i}"
        if what == 'packages' or form == 'top':
            box.create_package(label)
            here['packages'].append((label, {'elements': [], 'packages': []}))
        else:
            cls = getattr(ar_element, ELEMENTS[i * i % len(ELEMENTS)])
            box.append(cls(label))
            here['elements'].append((label, cls))
    xml = autosar.xml.Writer().write_str(doc, skip_root_attr=False)
    back = autosar.xml.Reader().read_str(xml)
    check_tree(ctx, back, want, 'read back')
    check_tree(ctx, doc, want, 'after writing')
    ctx.check(ctx.eq(autosar.xml.Writer().write_str(back, skip_root_attr=False), xml), 'other text when written again')
    ctx.reach('end')


# ---- R09

# destinations each kind of reference may have
ONE = {'SwBaseTypeRef': 'SW_BASE_TYPE', 'PackageRef': 'AR_PACKAGE', 'CompuMethodRef': 'COMPU_METHOD',
       'FunctionPtrSignatureRef': 'BSW_MODULE_ENTRY', 'ImplementationDataTypeRef': 'IMPLEMENTATION_DATA_TYPE',
       'SwAddrMethodRef': 'SW_ADDR_METHOD', 'DataConstraintRef': 'DATA_CONSTR',
       'PhysicalDimensionRef': 'PHYSICAL_DIMENSION', 'UnitRef': 'UNIT',
       'ApplicationArrayElementRef': 'APPLICATION_ARRAY_ELEMENT', 'ApplicationErrorRef': 'APPLICATION_ERROR',
       'ApplicationRecordElementRef': 'APPLICATION_RECORD_ELEMENT',
       'ArgumentDataPrototypeRef': 'ARGUMENT_DATA_PROTOTYPE',
       'AsynchronousServerCallPointRef': 'ASYNCHRONOUS_SERVER_CALL_POINT',
       'AsynchronousServerCallResultPointRef': 'ASYNCHRONOUS_SERVER_CALL_RESULT_POINT',
       'ClientServerOperationRef': 'CLIENT_SERVER_OPERATION', 'ConstantRef': 'CONSTANT_SPECIFICATION',
       'DataTypeMappingSetRef': 'DATA_TYPE_MAPPING_SET',
       'E2EProfileCompatibilityPropsRef': 'E2E_PROFILE_COMPATIBILITY_PROPS',
       'ExclusiveAreaNestingOrderRef': 'EXCLUSIVE_AREA_NESTING_ORDER', 'ExclusiveAreaRef': 'EXCLUSIVE_AREA',
       'IndexDataTypeRef': 'APPLICATION_PRIMITIVE_DATA_TYPE', 'InternalTriggeringPointRef': 'INTERNAL_TRIGGERING_POINT',
       'ModeDeclarationGroupPrototypeRef': 'MODE_DECLARATION_GROUP_PROTOTYPE',
       'ModeDeclarationGroupRef': 'MODE_DECLARATION_GROUP', 'ModeDeclarationRef': 'MODE_DECLARATION',
       'ModeSwitchPointRef': 'MODE_SWITCH_POINT', 'ParameterDataPrototypeRef': 'PARAMETER_DATA_PROTOTYPE',
       'RunnableEntityRef': 'RUNNABLE_ENTITY', 'SwComponentPrototypeRef': 'SW_COMPONENT_PROTOTYPE',
       'SwcImplementationRef': 'SWC_IMPLEMENTATION', 'SwcInternalBehaviorRef': 'SWC_INTERNAL_BEHAVIOR',
       'TriggerRef': 'TRIGGER', 'VariableAccessRef': 'VARIABLE_ACCESS',
       'VariableDataPrototypeRef': 'VARIABLE_DATA_PROTOTYPE'}
APPLICATION_TYPES = ('APPLICATION_ARRAY_DATA_TYPE APPLICATION_COMPOSITE_DATA_TYPE APPLICATION_DATA_TYPE '
                     'APPLICATION_DEFERRED_DATA_TYPE APPLICATION_PRIMITIVE_DATA_TYPE APPLICATION_RECORD_DATA_TYPE')
COMPOSITE_ELEMENTS = ('APPLICATION_ARRAY_ELEMENT APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE '
                      'APPLICATION_RECORD_ELEMENT')
AUTOSAR_PROTOTYPES = 'ARGUMENT_DATA_PROTOTYPE PARAMETER_DATA_PROTOTYPE VARIABLE_DATA_PROTOTYPE'
PROVIDED = 'ABSTRACT_PROVIDED_PORT_PROTOTYPE PR_PORT_PROTOTYPE P_PORT_PROTOTYPE'
REQUIRED = 'ABSTRACT_REQUIRED_PORT_PROTOTYPE PR_PORT_PROTOTYPE R_PORT_PROTOTYPE'
MANY = {'AbstractImplementationDataTypeElementRef':
        'ABSTRACT_IMPLEMENTATION_DATA_TYPE_ELEMENT IMPLEMENTATION_DATA_TYPE_ELEMENT',
        'AbstractProvidedPortPrototypeRef': PROVIDED, 'AbstractRequiredPortPrototypeRef': REQUIRED,
        'ApplicationCompositeElementDataPrototypeRef': COMPOSITE_ELEMENTS,
        'ApplicationDataTypeRef': APPLICATION_TYPES, 'AutosarDataPrototypeRef': AUTOSAR_PROTOTYPES,
        'AutosarDataTypeRef': APPLICATION_TYPES + ' ABSTRACT_IMPLEMENTATION_DATA_TYPE AUTOSAR_DATA_TYPE '
                                                  'IMPLEMENTATION_DATA_TYPE',
        'DataPrototypeRef': COMPOSITE_ELEMENTS + ' ' + AUTOSAR_PROTOTYPES + ' AUTOSAR_DATA_PROTOTYPE DATA_PROTOTYPE',
        'PortInterfaceRef': 'CLIENT_SERVER_INTERFACE MODE_SWITCH_INTERFACE NV_DATA_INTERFACE PARAMETER_INTERFACE '
                            'SENDER_RECEIVER_INTERFACE',
        'PortPrototypeRef': 'ABSTRACT_PROVIDED_PORT_PROTOTYPE ABSTRACT_REQUIRED_PORT_PROTOTYPE PR_PORT_PROTOTYPE '
                            'P_PORT_PROTOTYPE R_PORT_PROTOTYPE',
        'RteEventRef': 'ASYNCHRONOUS_SERVER_CALL_RETURNS_EVENT BACKGROUND_EVENT DATA_RECEIVED_EVENT '
                       'DATA_RECEIVE_ERROR_EVENT DATA_SEND_COMPLETED_EVENT DATA_WRITE_COMPLETED_EVENT '
                       'EXTERNAL_TRIGGER_OCCURRED_EVENT INIT_EVENT INTERNAL_TRIGGER_OCCURRED_EVENT '
                       'MODE_SWITCHED_ACK_EVENT OPERATION_INVOKED_EVENT SWC_MODE_MANAGER_ERROR_EVENT '
                       'SWC_MODE_SWITCH_EVENT TIMING_EVENT TRANSFORMER_HARD_ERROR_EVENT',
        'SwComponentTypeRef': 'APPLICATION_SW_COMPONENT_TYPE COMPOSITION_SW_COMPONENT_TYPE'}
DESTS = {k: [v] for k, v in ONE.items()}
DESTS.update({k: v.split() for k, v in MANY.items()})
REFUSED = (ValueError, TypeError)
UNREADABLE = (ar_exception.ParseError, ValueError, TypeError, KeyError)


def t_ref(ctx, name):
    """A reference holds its path and only destinations of its kind"""
    cls = getattr(ar_ref, name)
    value = ctx.text('value', 0, 3, 'xml')
    members = list(Dest)
    form = ctx.pick('form', ['given', 'default'])
    if form == 'default':
        try:
            ref = cls(value)
        except REFUSED:
            ctx.check(len(DESTS[name]) > 1, 'needs a destination although only one is possible')
            ctx.reach('end')
            return
        ctx.check(len(DESTS[name]) == 1, 'destination guessed')
        dest = Dest[DESTS[name][0]]
    else:
        dest = ctx.pick('dest', members)
        try:
            ref = cls(value, dest)
        except REFUSED:
            ctx.check(dest.name not in DESTS[name], 'destination refused')
            ctx.reach('end')
            return
        ctx.check(dest.name in DESTS[name], 'wrong destination accepted')
    ctx.check(ref.dest is dest, 'destination')
    ctx.check(ctx.eq(ref.value, value), 'value')
    ctx.check(ctx.eq(str(ref), value), 'text')
    ctx.reach('end')


REF_FIELDS = [(n, f.key, f.kind.split(':')) for n in sorted(spec.CLASSES) for f in spec.CLASSES[n].fields
              if n != 'ModeRequestTypeMap' and 'r' in f.kind.split(':')[:2] or 'rs' in f.kind.split(':')[:2]]
# fields which take any object (listed in DESIGN.md)
UNCHECKED = [('CompuMethod', 'unit_ref'), ('PhysicalConstraint', 'unit_ref'), ('DataTypeMap', 'appl_data_type_ref'),
             ('DataTypeMap', 'impl_data_type_ref')]


def t_ref_field(ctx, name, key, kind):
    """A reference field takes references with one of its destinations, of whatever class, and turns them into its own"""
    target = kind[-1]
    many = kind[0] in ('l', 's')
    b = Builder(ctx)
    value = '/' + ctx.text('value', 1, 2, 'xml')
    source = ctx.pick('source', [target] + [s for s in SOURCES if s != target])
    if source == '':
        arg = value
        ok = len(DESTS[target]) == 1 and kind[-2] == 'rs'
        dest = Dest[DESTS[target][0]]
        if not ok and len(DESTS[target]) == 1:
            ctx.reach('end')      # plain paths for these are accepted or not
            return
    else:
        dest = Dest[ctx.pick('dest', DESTS[source])]
        arg = getattr(ar_ref, source)(value, dest)
        ok = dest.name in DESTS[target]
    if many and ctx.flag('list'):
        arg = [arg]
    try:
        obj, _ = b.make(name, 'x', {}, 'mark', extra={key: arg})
    except REFUSED:
        # references of other classes need not be taken
        ctx.check(not ok or source not in ('', target), 'reference refused')
        ctx.reach('end')
        return
    ctx.check(ok, 'reference of another kind accepted')
    got = b.field(obj, key)
    if many:
        ctx.check(len(got) == 1, 'number of references')
        got = got[0]
    ctx.check(isinstance(got, getattr(ar_ref, target)), 'class of reference')
    ctx.check(got.dest is dest, 'destination')
    ctx.check(ctx.eq(got.value, value), 'value')
    ctx.reach('end')


SOURCES = ['', 'UnitRef', 'VariableDataPrototypeRef', 'DataPrototypeRef', 'AutosarDataTypeRef', 'PortPrototypeRef',
           'AbstractRequiredPortPrototypeRef', 'ApplicationArrayElementRef', 'RteEventRef', 'ImplementationDataTypeRef']
REF_MARK = '/Marked/Path'


def dest_text(name):
    return 'E-2-E-PROFILE-COMPATIBILITY-PROPS' if name == 'E2E_PROFILE_COMPATIBILITY_PROPS' else name.replace('_', '-')


def t_read_dest(ctx, name, key, kind):
    """A reference in XML is read with its destination when that is one of its kind, and not read otherwise"""
    target = kind[-1]
    many = kind[0] in ('l', 's')
    b = Builder(ctx)
    dest = Dest[DESTS[target][0]]
    arg = getattr(ar_ref, target)(REF_MARK, dest)
    obj, _ = b.make(name, 'x', {}, 'mark', extra={key: [arg] if many else arg})
    outer, whole, get = wrapped(name, obj)
    xml = write(outer, whole)
    old = f' DEST="{dest_text(dest.name)}">{REF_MARK}<'
    ctx.check(xml.count(old) == 1, 'reference written once with its destination')
    form = ctx.pick('form', ['member', 'none', 'text'])
    path = '/' + ctx.text('path', 1, 1, 'safe')
    want = None
    if form == 'member':
        d = ctx.pick('dest', list(Dest))
        new = f' DEST="{dest_text(d.name)}">{path}<'
        want = d if d.name in DESTS[target] else None
    elif form == 'none':
        new = f'>{path}<'
    else:
        # one character of the text replaced
        text = dest_text(dest.name)
        at = ctx.pick('at', [0, len(text) - 1])
        ch = ctx.text('ch', 1, 1, 'upper')
        text = text[:at] + ch + text[at + 1:]
        for d in Dest:
            ctx.assume(ctx.no(ctx.eq(text, dest_text(d.name))))
        new = f' DEST="{text}">{path}<'
    try:
        got = b.field(get(read(outer, xml.replace(old, new))), key)
    except UNREADABLE:
        ctx.check(want is None, 'destination not read')
        ctx.reach('end')
        return
    ctx.check(want is not None, 'reference read with a destination that is none of its own')
    if many:
        ctx.check(len(got) == 1, 'number of references')
        got = got[0]
    ctx.check(isinstance(got, getattr(ar_ref, target)), 'class of reference')
    ctx.check(got.dest is want, 'another destination')
    ctx.check(ctx.eq(got.value, path), 'path')
    ctx.reach('end')


# ---- D01

def t_write_documents(ctx, chosen):
    """write_documents writes each document with the packages given and leaves the workspace alone"""
    with Scratch() as scratch:
        ws = autosar.xml.Workspace(document_root=scratch) if ctx.flag('root') else autosar.xml.Workspace()
        if ws.document_root is None:
            ws.set_document_root(scratch)
        n = [ctx.ident(f'n{i}', 2 if i == 1 and chosen == 2 else 1) for i in range(3)]   # one may begin with another
        ctx.assume(ctx.no(ctx.eq(n[0], n[2])))
        # /n0 (element, /n0/n1 (element, /n0/n1/n0)), /n0/n2, /n2
        a = ws.create_package(n[0])
        c = ws.create_package(n[2])
        ab = a.create_package(n[1])
        same_name = ctx.test(ctx.eq(n[1], n[2]))
        ac = ab if same_name else a.create_package(n[2])
        aba = ab.create_package(n[0])
        inner = [ar_element.Unit('Unit1'), ar_element.SwAddrMethod('Addr'), ar_element.Unit('Unit2')]
        ab.append(inner[0])
        aba.append(inner[1])
        c.append(inner[2])
        pkgs = [a, ab, ac, aba, c]
        paths = [str(p.ref()) for p in pkgs]
        before = snapshot(ws.packages)
        asked = []
        for i in range(chosen):
            k = ctx.pick(f'pkg{i}', [0, 1, 2, 3, 4, 5])
            asked.append(k)
        refs = ['/No/Such' if k == 5 else paths[k] for k in asked]
        if chosen == 1 and ctx.flag('single'):
            refs = refs[0]
        ws.create_document('doc.arxml', refs if chosen else None)
        version = ctx.pick('version', [51, 48, None])
        for again in range(2):
            if version is None:
                ws.write_documents()
            else:
                ws.write_documents(version)
            files = os.listdir(scratch)
            ctx.check(files == ['doc.arxml'], 'files written')
            back = autosar.xml.Reader().read_file(os.path.join(scratch, 'doc.arxml'))
            ctx.check(back.schema_version == (51 if version is None else version), 'schema version')
            want = {}
            for k in asked:
                if k < 5:
                    select(ctx, want, pkgs[k])
            tree(ctx, back, want)
            same(ctx, snapshot(ws.packages), before, 'workspace changed')
            for p in pkgs:
                ctx.check(ws.find(p.ref()) is p, 'package not found any more')
            for e in inner:
                ctx.check(ws.find(e.ref()) is e, 'element not found any more')
        # the next documents have what was added in the meantime
        late = ws.make_packages('/No/Such')
        late.append(ar_element.Unit('Late'))
        b = ws.find(paths[0])
        b.append(ar_element.SwAddrMethod('Later'))
        b.create_package('Latest').append(ar_element.Unit('Last'))
        ws.write_documents() if version is None else ws.write_documents(version)
        back = autosar.xml.Reader().read_file(os.path.join(scratch, 'doc.arxml'))
        want = {}
        for k in asked:
            select(ctx, want, pkgs[k] if k < 5 else late)
        tree(ctx, back, want)
    ctx.reach('end')


def select(ctx, want, pkg):
    """Adds a package to the expected tree: name -> [whole package or None, sub-tree]"""
    chain = [pkg]
    while isinstance(chain[0].parent, ar_element.Package):
        chain = [chain[0].parent] + chain
    node = want
    for p in chain:
        if id(p) not in node:
            node[id(p)] = [p, False, {}]
        entry = node[id(p)]
        if p is pkg:
            entry[1] = True
        node = entry[2]


def tree(ctx, box, want):
    """The document holds exactly the expected packages"""
    ctx.check(len(box.packages) == len(want), 'number of packages')
    for entry in want.values():
        pkg, whole, sub = entry
        hits = [p for p in box.packages if ctx.test(ctx.eq(p.name, pkg.name))]
        ctx.check(len(hits) == 1, 'package missing')
        if whole:
            same(ctx, snapshot(hits[0]), snapshot(pkg), 'package in document')
        else:
            ctx.check(len(hits[0].elements) == 0, 'elements of a package not asked for')
            tree(ctx, hits[0], sub)


def t_several(ctx):
    """Several documents and mappings of one workspace each give their own files"""
    with Scratch() as scratch:
        rooted = ctx.flag('root')
        ws = autosar.xml.Workspace(document_root=scratch) if rooted else autosar.xml.Workspace()
        n = [ctx.ident(f'n{i}', 1) for i in range(3)]
        ctx.assume(ctx.no(ctx.eq(n[0], n[1])))
        ctx.assume(ctx.no(ctx.any([ctx.eq(x, 'u') for x in n] + [ctx.eq(x, 'v') for x in n] + [ctx.eq(x, 'w') for x in n])))
        a, b = ws.create_package(n[0]), ws.create_package(n[1])
        items = [ar_element.Unit('u'), ar_element.SwAddrMethod('v'), ar_element.Unit('w')]
        a.append(items[0])
        a.append(items[1])
        b.append(items[2])
        before = snapshot(ws.packages)
        want = {}

        def head(*elems):
            for e in elems:
                want[e.name + '.arxml'] = [(e.parent, [e])]
        made = ctx.sub('made', ['first', 'second', 'units', 'methods', 'lost', 'others'], 1, 4)
        old_dir = os.getcwd()
        for key in made:
            if key == 'first':
                ws.create_document('first.arxml' if rooted else os.path.join(scratch, 'first.arxml'), str(a.ref()))
                want['first.arxml'] = [(a, [items[0], items[1]])]
            elif key == 'second':
                ws.create_document('second.arxml' if rooted else os.path.join(scratch, 'second.arxml'),
                                   [str(b.ref()), str(a.ref())])
                want['second.arxml'] = [(a, [items[0], items[1]]), (b, [items[2]])]
            elif key == 'units':
                ws.create_document_mapping(str(a.ref()), ar_element.Unit, [])
                head(items[0])
            elif key == 'methods':
                ws.create_document_mapping(str(a.ref()), (ar_element.SwAddrMethod,), [])
                head(items[1])
            elif key == 'lost':
                ws.create_document_mapping('/' + n[2] + '/No', ar_element.Unit, [])
            else:
                ws.create_document_mapping(str(b.ref()), (ar_element.SwAddrMethod, ar_element.Unit), '_x')
                head(items[2])
        try:
            os.chdir(scratch)
            for _ in range(ctx.pick('times', [1, 2])):
                ws.write_documents()
        finally:
            os.chdir(old_dir)
        ctx.check(sorted(os.listdir(scratch)) == sorted(want), 'files written')
        for name, packages in want.items():
            back = autosar.xml.Reader().read_file(os.path.join(scratch, name))
            ctx.check(len(back.packages) == len(packages), name + ': packages')
            for pkg, elems in packages:
                got = back.find(pkg.ref())
                ctx.check(got is not None and len(got.elements) == len(elems) and not got.packages, name + ': elements')
                for x, y in zip(got.elements, elems):
                    ctx.check(type(x) is type(y) and x.name == y.name, name + ': element')
        same(ctx, snapshot(ws.packages), before, 'workspace changed')
    ctx.reach('end')


def t_no_package(ctx):
    """Documents and mappings of what is no package are refused when written"""
    with Scratch() as scratch:
        ws = autosar.xml.Workspace(document_root=scratch)
        name = ctx.ident('n', 2)
        ws.create_package('P').append(ar_element.ImplementationDataType(name, sub_elements=[
            ar_element.ImplementationDataTypeElement('E')]))
        asked = '/P/' + ctx.ident('asked', 2) + ctx.pick('rest', ['', '/E'])
        before = snapshot(ws.packages)
        form = ctx.pick('form', ['document', 'list', 'mapping'])
        if form == 'mapping':
            ws.create_document_mapping(asked, ar_element.ARElement, [])
        else:
            ws.create_document('d.arxml', asked if form == 'document' else ['/P', asked])
        _, exc = attempt(ws.write_documents)
        hit = ws.find(asked) is not None
        ctx.check((exc is not None) == hit, 'no package, but written' if hit else 'refused')
        if exc is not None:
            ctx.check(issubclass(exc, ValueError) and os.listdir(scratch) == [], 'written in part')
        same(ctx, snapshot(ws.packages), before, 'workspace changed')
    ctx.reach('end')


CROWD = 13


def t_crowd_documents(ctx):
    """Documents of some of many packages with many elements, and a mapping of a package with many"""
    with Scratch() as scratch:
        ws = autosar.xml.Workspace(document_root=scratch)
        k = ctx.pick('which', list(range(CROWD)))
        pkgs = []
        for i in range(CROWD):
            pkg = ws.make_packages(f'/P{i}/Q/R{i}' if i % 3 == 1 else f'/P{i}')
            for j in range(CROWD if i in (k, (k + 4) % CROWD) else 1):
                pkg.append((ar_element.Unit if j % 3 else ar_element.SwAddrMethod)(f'E{j}'))
            pkgs.append(pkg)
        for j in range(CROWD):
            pkgs[k].append(ar_element.Unit(f'E{j}_X' if j % 2 else f'X_E{j}'))
        order = [(k + 5 * i) % CROWD for i in range(CROWD)][:ctx.pick('packages', [1, 2, CROWD - 1, CROWD])]
        before = snapshot(ws.packages)
        ws.create_document('doc.arxml', [str(pkgs[i].ref()) for i in order])
        ws.create_document('one.arxml', str(pkgs[order[-1]].ref()))
        ws.create_document_mapping(str(pkgs[k].ref()), ar_element.Unit, ['_X'])
        ws.write_documents()
        reader = autosar.xml.Reader()
        for name, chosen in (('doc.arxml', order), ('one.arxml', order[-1:])):
            back = reader.read_file(os.path.join(scratch, name))
            ctx.check(len(back.packages) == len(chosen), name + ': packages')
            for i in chosen:
                got = back.find(pkgs[i].ref())
                ctx.check(got is not None, name + ': package missing')
                same(ctx, snapshot(got), snapshot(pkgs[i]), name + ': package')
        units = [e for e in pkgs[k].elements if isinstance(e, ar_element.Unit)]
        ctx.check(sorted(os.listdir(scratch)) == sorted(['doc.arxml', 'one.arxml'] + [e.name + '.arxml' for e in units]),
                  'files written')
        for head in units:
            got = reader.read_file(os.path.join(scratch, head.name + '.arxml')).find(pkgs[k].ref())
            want = [head.name]
            if pkgs[k].find(head.name + '_X') is not None:
                want.append(head.name + '_X')
            ctx.check(got is not None and [e.name for e in got.elements] == want, 'elements of ' + head.name)
        same(ctx, snapshot(ws.packages), before, 'workspace changed')
    ctx.reach('end')


MAPPED = ['Unit', 'ImplementationDataType', 'SwAddrMethod']


def t_mapping(ctx, elements, filters):
    """A mapping writes one document per element of its types, together with the elements named with a suffix"""
    with Scratch() as scratch:
        ws = autosar.xml.Workspace(document_root=scratch)
        deep = ctx.flag('sub')
        pkg = ws.make_packages('/Top/Sub' if deep else '/Top')
        ws.make_packages('/Other').append(ar_element.Unit('Stranger'))
        kinds = [MAPPED[(i + (1 if ctx.flag(f'kind{i}') else 0)) % 3] for i in range(elements)]
        items = []
        for i, kind in enumerate(kinds):
            name = ctx.ident(f'e{i}', 2)
            for other in items:
                ctx.assume(ctx.no(ctx.eq(name, other.name)))
            elem = getattr(ar_element, kind)(name)
            pkg.append(elem)
            items.append(elem)
        types = ctx.pick('types', ['Unit', 'Unit+ImplementationDataType', 'AutosarDataType'])
        wanted = types.split('+')
        cls = tuple(getattr(ar_element, t) for t in wanted)
        suffixes = [ctx.text(f's{i}', 0 if i else 1, 1, 'ident') for i in range(filters)]
        form = suffixes
        if filters == 1 and ctx.flag('plain'):
            form = suffixes[0]
        before = snapshot(ws.packages)
        ws.create_document_mapping(str(pkg.ref()), cls[0] if len(cls) == 1 and ctx.flag('one') else cls, form)
        version = ctx.pick('version', [51, 48])
        if version == 51:
            ws.write_documents()
        else:
            ws.write_documents(version)
        heads = [e for e in items if isinstance(e, cls)]
        ctx.check(len(os.listdir(scratch)) == len(heads), 'number of files')
        for head in heads:
            path = os.path.join(scratch, head.name + '.arxml')
            ctx.check(os.path.exists(path), 'file missing')
            back = autosar.xml.Reader().read_file(path)
            ctx.check(back.schema_version == version, 'schema version')
            got = back.find(pkg.ref())
            ctx.check(isinstance(got, ar_element.Package), 'package of the element')
            ctx.check(len(back.packages) == 1 and len(back.packages[0].elements) == (0 if deep else len(got.elements)),
                      'other content')
            expected = [head]
            for e in items:
                if e is not head:
                    for s in suffixes:
                        if len(s) > 0 and ctx.test(ctx.eq(e.name, head.name + s)):
                            expected.append(e)
                            break
            ctx.check(len(got.elements) == len(expected), 'number of elements in document')
            for e in expected:
                hits = [x for x in got.elements if ctx.test(ctx.eq(x.name, e.name))]
                ctx.check(len(hits) == 1 and type(hits[0]) is type(e), 'element missing in document')
            for x, y in zip(got.elements, got.elements[1:]):
                ctx.check(ctx.cmp('lt', x.name, y.name), 'order of elements')
        same(ctx, snapshot(ws.packages), before, 'workspace changed')
        for e in items:
            ctx.check(e.parent is pkg and ws.find(e.ref()) is e, 'element moved')
    ctx.reach('end')


# ---- D02

def simple_document(ctx, tag):
    """A document; those named last are varied most"""
    if tag == 'last':
        version, policy = ctx.pick('last.version', [51, 49, 46]), ctx.flag('last.policy')
    else:
        policy = ctx.pick(tag + '.policy', [False, True])
        version = 46 if not policy or ctx.flag(tag + '.old') else 51
    doc = ar_document.Document(schema_version=version)
    pkg = doc.create_package('P' + ctx.ident(tag + '.package', 1))
    pkg.append(ar_element.Unit('U' + ctx.ident(tag + '.name', 1), category='c' + ctx.text(tag + '.text', 1, 1, 'ident')))
    if policy:
        # an enumeration which depends on the schema version
        pkg.append(ar_element.ImplementationDataType('T_T', sub_elements=[ar_element.ImplementationDataTypeElement(
            'E', array_impl_policy=ar_enum.ArrayImplPolicy.PAYLOAD_AS_ARRAY, array_size=1)]))
    return doc


def attempt(fn, *args, **kw):
    try:
        return fn(*args, **kw), None
    except Exception as exc:
        return None, type(exc)


def t_writer_reuse(ctx, steps):
    """A writer which has been used before, also unsuccessfully, writes what a new one writes"""
    writer = autosar.xml.Writer()
    with Scratch() as scratch:
        path = os.path.join(scratch, 'x.arxml')
        for i in range(steps):
            op = ctx.pick(f'op{i}', ['str', 'file', 'elem', 'fail', 'attr'])
            if op == 'fail':
                bad = ar_document.Document()
                bad.create_package('P').append(ar_element.ARElement('Unknown'))
                _, exc = attempt(writer.write_file, bad, path) if i == 0 else attempt(writer.write_str, bad)
                ctx.check(exc is not None, 'element without a writer was written')
            elif op == 'elem':
                writer.write_str_elem(ar_element.Unit('U'))
            else:
                doc = simple_document(ctx, f'd{i}')
                if op == 'file':
                    attempt(writer.write_file, doc, path)
                else:
                    attempt(writer.write_str, doc, op == 'attr')
        doc = simple_document(ctx, 'last')
        before = snapshot(doc)
        way = ctx.pick('way', ['str', 'bare', 'file'])
        if way == 'file':
            got, exc = attempt(writer.write_file, doc, path)
            other = os.path.join(scratch, 'y.arxml')
            ctx.pristine()
            want, want_exc = attempt(autosar.xml.Writer().write_file, doc, other)
            if exc is None and want_exc is None:
                with open(path, encoding='utf-8') as fh:
                    got = fh.read()
                with open(other, encoding='utf-8') as fh:
                    want = fh.read()
        else:
            got, exc = attempt(writer.write_str, doc, way == 'bare')
            ctx.pristine()
            want, want_exc = attempt(autosar.xml.Writer().write_str, doc, way == 'bare')
        ctx.check(exc is want_exc, 'one writer fails, the other does not')
        if exc is None:
            ctx.check(ctx.eq(got, want), 'text written')
            again, _ = attempt(autosar.xml.Writer().write_str, doc, way == 'bare')
            if way != 'file':
                ctx.check(ctx.eq(again, got), 'written again')
            ctx.check(doc.schema_version == autosar.xml.Reader().read_str(
                autosar.xml.Writer().write_str(doc, False)).schema_version, 'schema version')
        same(ctx, snapshot(doc), before, 'document changed')
    ctx.reach('end')


def t_element_files(ctx, name):
    """A single element in a file is what it is in a string, whatever the writer was used for before"""
    writer = autosar.xml.Writer()
    b = Builder(ctx)
    arg, _ = b.val('o:' + name, 'x', 'mark', 1)
    text = ctx.text('text', 1, 1, 'xml')
    if isinstance(arg, ar_element.Identifiable):
        arg.category = text
    with Scratch() as scratch:
        path = os.path.join(scratch, 'x.arxml')
        op = ctx.pick('op', ['none', 'element', 'no writer', 'document', 'string', 'bad document'])
        if op == 'element':
            writer.write_file_elem(ar_element.Unit('Other', category='a longer text than before'), path)
        elif op == 'no writer':
            _, exc = attempt(writer.write_file_elem, ar_element.ARElement('Unknown'), os.path.join(scratch, 'no.arxml'))
            ctx.check(exc is not None, 'element without a writer was written')
        elif op == 'string':
            writer.write_str_elem(ar_element.Unit('Other'))
        elif op != 'none':
            doc = ar_document.Document(schema_version=46)
            doc.create_package('P').append(ar_element.Unit('U') if op == 'document' else ar_element.ARElement('Unknown'))
            attempt(writer.write_file, doc, path)
        before = snapshot(arg)
        writer.write_file_elem(arg, path)
        with open(path, encoding='utf-8') as fh:
            got = fh.read()
        same(ctx, snapshot(arg), before, 'element changed')
        ctx.check(ctx.eq(got, writer.write_str_elem(arg)), 'text in the file')
        back = autosar.xml.Reader().read_str_elem(got)
        ctx.check(type(back) is type(arg), 'element in the file')
        if op == 'none':
            doc = ar_document.Document()
            doc.create_package('P').append(ar_element.Unit('U'))
            ctx.check(writer.write_str(doc) == autosar.xml.Writer().write_str(doc), 'document after an element')
    ctx.reach('end')


def listen(fn, *args):
    """Calls; returns result, kind of exception and everything printed"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        result, exc = attempt(fn, *args)
    return result, exc, out.getvalue()


BAD_XML = '<AUTOSAR><AR-PACKAGES><AR-PACKAGE><SHORT-NAME>P</SHORT-NAME>'


def t_reader_reuse(ctx, steps, error):
    """A reader which has been used before, also unsuccessfully, reads what a new one reads"""
    writer = autosar.xml.Writer()
    default = 48 if steps < 2 and ctx.flag('other default') else 51
    reader = autosar.xml.Reader(schema_version=default)
    with Scratch() as scratch:
        for i in range(steps):
            op = ctx.pick(f'op{i}', ['str', 'bare', 'file', 'broken', 'stop', 'elem'])
            if op == 'broken':
                attempt(reader.read_str, BAD_XML)
            elif op == 'elem':
                attempt(reader.read_str_elem, '<UNIT><SHORT-NAME>U</SHORT-NAME><OTHER/></UNIT>')
            else:
                doc = simple_document(ctx, f'd{i}')
                xml, exc = attempt(writer.write_str, doc, op == 'bare')
                if exc is not None:
                    continue
                if op == 'stop':
                    xml = xml.replace('</UNIT>', '<FACTOR-SI-TO-UNIT>x</FACTOR-SI-TO-UNIT></UNIT>')
                    attempt(reader.read_str, xml, stop_on_error=True)
                    continue
                xml = xml.replace('</UNIT>', '<OTHER/></UNIT>')
                if op == 'file':
                    path = os.path.join(scratch, f'{i}.arxml')
                    with open(path, 'w', encoding='utf-8') as fh:
                        fh.write(xml)
                    attempt(reader.read_file, path)
                else:
                    attempt(reader.read_str, xml)
        doc = simple_document(ctx, 'last')
        xml, exc = attempt(writer.write_str, doc, ctx.flag('bare'))
        if exc is None:
            if error:
                xml = xml.replace('</UNIT>', '<FACTOR-SI-TO-UNIT>x</FACTOR-SI-TO-UNIT></UNIT>')
            if steps:
                xml = xml.replace('</UNIT>', '<OTHER/></UNIT>')
            fresh = autosar.xml.Reader(schema_version=default)
            if ctx.flag('from file'):
                path = os.path.join(scratch, 'last.arxml')
                with open(path, 'w', encoding='utf-8') as fh:
                    fh.write(xml)
                got, exc1, said1 = listen(reader.read_file, path)
                ctx.pristine()
                want, exc2, said2 = listen(fresh.read_file, path)
            else:
                got, exc1, said1 = listen(reader.read_str, xml)
                ctx.pristine()
                want, exc2, said2 = listen(fresh.read_str, xml)
            ctx.check(exc1 is exc2, 'one reader fails, the other does not')
            ctx.check(ctx.eq(said1, said2), 'one reader reports what the other does not')
            if exc1 is None:
                same(ctx, snapshot(got), snapshot(want), 'document read')
                twice = reader.read_str(xml)
                ctx.check(twice is not got, 'new document')
                same(ctx, snapshot(twice), snapshot(want), 'document read twice')
                same(ctx, snapshot(got), snapshot(want), 'earlier document changed')
    ctx.reach('end')


# ---- D03

class UnitTemplate(ar_template.ElementTemplate):
    """A user's template"""

    def __init__(self, log, element_name, namespace_name, role, depends=None, append=True):
        super().__init__(element_name, namespace_name, role, depends, append)
        self.log = log

    def create(self, package, workspace, dependencies, **kwargs):
        self.log.append((self, package, workspace, dependencies, kwargs))
        elem = ar_element.Unit(self.element_name)
        if not self.append_to_package:
            package.append(elem)
        return elem


ROLES = {'ApplicationDataType': 'APPLICATION_DATA_TYPE', 'BaseType': 'BASE_TYPE', 'ComponentType': 'COMPONENT_TYPE',
         'CompuMethod': 'COMPU_METHOD', 'DataConstraint': 'DATA_CONSTRAINT',
         'ImplementationDataType': 'IMPLEMENTATION_DATA_TYPE', 'ModeDeclaration': 'MODE_DECLARATION',
         'PortInterface': 'PORT_INTERFACE', 'Unit': 'UNIT', 'Constant': 'CONSTANT'}


def t_namespace(ctx, config):
    """The package of a role is the one given for it, relative to the base of its namespace"""
    ws = autosar.xml.Workspace()
    names = ['First', 'Second']
    maps, bases = {}, {}
    for i, ns in enumerate(names):
        roles = ctx.sub(f'roles{i}', sorted(ROLES), 1, 2) if i == 0 else ['Unit', 'BaseType']
        custom = ctx.ident(f'custom{i}', 1)
        mapping = {}
        for j, r in enumerate(roles + ['!' + custom]):
            form = ctx.pick(f'form{i}.{j}', ['one', 'two', 'absolute', 'up']) if i == 0 else 'one'
            x = ctx.ident(f'x{i}.{j}', 1)
            mapping[r] = {'one': x, 'two': x + '/y', 'absolute': '/' + x, 'up': '../' + x}[form]
        base = None
        if ctx.flag(f'base{i}'):
            base = '/' + ctx.ident(f'b{i}', 1)
        maps[ns], bases[ns] = mapping, base
    # an earlier namespace of the same name leaves nothing behind
    if config:
        load(ws, ['[namespace.First]', '"Unit" = "old"', '"Constant" = "old"', '"!Earlier" = "old"', 'base_ref = "/Old"'])
    else:
        ws.create_namespace('First', {'Unit': 'old', 'Constant': 'old', '!Earlier': 'old'}, '/Old')
    if config:
        lines = []
        for ns in names:
            lines.append(f'[namespace.{ns}]')
            lines += [f'"{k}" = "{v}"' for k, v in maps[ns].items()]
            if bases[ns] is not None:
                lines.append(f'base_ref = "{bases[ns]}"')
        load(ws, lines)
    else:
        for ns in names:
            ws.create_namespace(ns, maps[ns], bases[ns])
    for ns in names:
        base = '/' + ns if bases[ns] is None else bases[ns]
        for r, v in maps[ns].items():
            role = r[1:] if r[0] == '!' else ar_enum.PackageRole[ROLES[r]]
            want = v if v[0] == '/' else v[2:] if v[0:3] == '../' else base + '/' + v
            got = ws.get_package_ref_by_role(ns, role)
            ctx.check(isinstance(got, str) and ctx.eq(got, want), 'package of role')
        for r in sorted(ROLES):
            if r not in maps[ns]:
                _, exc = attempt(ws.get_package_ref_by_role, ns, ar_enum.PackageRole[ROLES[r]])
                ctx.check(exc is not None, 'package for a role without one')
    _, exc = attempt(ws.get_package_ref_by_role, 'First', 'Earlier')
    ctx.check(exc is not None, 'role of an earlier namespace')
    _, exc = attempt(ws.get_package_ref_by_role, 'Third', ar_enum.PackageRole.UNIT)
    ctx.check(exc is not None, 'package of a namespace which does not exist')
    ctx.reach('end')


def t_roles(ctx, hi):
    """A role of the user's own has the name given after the mark, whatever it is made of"""
    ws = autosar.xml.Workspace()
    roles = [ctx.text(f'role{i}', 1, hi if i == 0 else 1, 'print') for i in range(2)]
    ctx.assume(ctx.no(ctx.eq(roles[0], roles[1])))
    paths = [ctx.ident(f'path{i}', 1) for i in range(3)]
    mapping = {'!' + roles[0]: paths[0], '!' + roles[1]: paths[1]}
    if ctx.flag('standard'):
        mapping['Unit'] = paths[2]
    ws.create_namespace('N', mapping)
    for role, path in zip(roles, paths):
        got = ws.get_package_ref_by_role('N', role)
        ctx.check(isinstance(got, str) and ctx.eq(got, '/N/' + path), 'package of role')
    other = ctx.text('other', 1, 2, 'print')
    if ctx.test(ctx.no(ctx.any([ctx.eq(other, r) for r in roles]))):
        _, exc = attempt(ws.get_package_ref_by_role, 'N', other)
        ctx.check(exc is not None, 'package for a role without one')
    if 'Unit' in mapping:
        ctx.check(ctx.eq(ws.get_package_ref_by_role('N', ar_enum.PackageRole.UNIT), '/N/' + paths[2]), 'package of role')
    ctx.reach('end')


def load(ws, lines):
    with Scratch() as scratch:
        path = os.path.join(scratch, 'config.toml')
        with open(path, 'w', encoding='utf-8') as fh:
            fh.write('\n'.join(lines) + '\n')
        if ws is None:
            return autosar.xml.Workspace(path)
        ws.load_config(path)
        return ws


def t_templates(ctx, count):
    """Templates create each element once, after what it depends on, in the package of its role"""
    ws = autosar.xml.Workspace()
    ws.create_namespace('N', {'Unit': ctx.ident('unit', 1), 'Constant': ctx.ident('constant', 1) + '/c'})
    log = []
    templates = []
    for i in range(count):
        role = ar_enum.PackageRole.CONSTANT if ctx.flag(f'role{i}') else ar_enum.PackageRole.UNIT
        deps = ctx.sub(f'deps{i}', templates, 0, 2)
        templates.append(UnitTemplate(log, 'Elem' + ctx.ident(f'n{i}', 1), 'N', role, deps if deps or ctx.flag(f'none{i}') else None,
                                      ctx.flag(f'append{i}') if i == 0 else True))
    seen = []                    # (path, element) in order of creation
    for step in range(2):
        t = templates[ctx.pick(f'apply{step}', list(range(count)))]
        had = len(log)
        elem = ws.apply(t, extra=step)
        path = t.ref(ws)
        ctx.check(ctx.eq(str(elem.ref()), path), 'element is not where the template says')
        ctx.check(ws.find(path) is elem, 'element is not in the workspace')
        if step == 1:
            ctx.check(ws.apply(t) is elem, 'applied again: another element')
        for made in log[had:]:
            tt = made[0]
            p = tt.ref(ws)
            for other, _ in seen:
                ctx.check(ctx.no(ctx.eq(p, other)), 'element created twice')
            ctx.check(made[2] is ws, 'workspace given')
            ctx.check(ctx.eq(str(made[1].ref()) + '/' + tt.element_name, p), 'package given')
            ctx.check(made[4] == ({'extra': step} if tt is t else {}), 'arguments given')
            if tt.depends:
                ctx.check(isinstance(made[3], dict), 'dependencies not given')
                for d in tt.depends:
                    hit = [v for k, v in made[3].items() if ctx.test(ctx.eq(k, d.ref(ws)))]
                    ctx.check(len(hit) == 1, 'dependency not given')
                    ctx.check(hit[0] is ws.find(d.ref(ws)), 'another dependency given')
                    ctx.check(any(e is hit[0] for _, e in seen), 'dependency not created before')
            seen.append((p, ws.find(p)))
        # everything needed is there
        todo = [t]
        while todo:
            d = todo.pop()
            ctx.check(isinstance(ws.find(d.ref(ws)), ar_element.Unit), 'dependency missing')
            todo += d.depends or []
    total = sum(len(e) for e in all_elements(ws))
    ctx.check(total == len(seen), 'number of elements')
    ctx.reach('end')


def t_crowd_templates(ctx):
    """Many templates which depend on many others"""
    ws = autosar.xml.Workspace()
    ws.create_namespace('N', {'Unit': 'Units', 'Constant': 'Units/c'})
    k = ctx.pick('which', list(range(CROWD)))
    shape = ctx.pick('shape', ['chain', 'star', 'ladder'])
    log, templates = [], []
    for i in range(CROWD):
        deps = {'chain': templates[-1:], 'star': templates[:1] if i < CROWD - 1 else list(templates),
                'ladder': templates[-2:]}[shape]
        templates.append(UnitTemplate(log, f'E{i}', 'N', ar_enum.PackageRole.CONSTANT if i % 4 == 1 else
                                      ar_enum.PackageRole.UNIT, deps or None, True))
    made = []
    for t in (templates[k], templates[-1], templates[0]):
        elem = ws.apply(t)
        ctx.check(elem is ws.find(t.ref(ws)) and str(elem.ref()) == t.ref(ws), 'element is not where the template says')
        made.append(elem)
    names = [entry[0].element_name for entry in log]
    ctx.check(len(set(names)) == len(names), 'element created twice')
    ctx.check(sorted(names) == sorted(t.element_name for t in templates), 'elements created')
    for i, entry in enumerate(log):
        for d in entry[0].depends or []:
            ctx.check(d.element_name in names[:i], 'dependency not created before')
            ctx.check(entry[3][d.ref(ws)] is ws.find(d.ref(ws)), 'another dependency given')
    ctx.check(sum(len(e) for e in all_elements(ws)) == CROWD, 'number of elements')
    ctx.reach('end')


def t_crowd_config(ctx):
    """A configuration file with many documents, mappings and roles: all of them, in order"""
    k = ctx.pick('which', list(range(CROWD)))
    order = [(k + 5 * i) % CROWD for i in range(CROWD)]
    roles = sorted(ROLES)
    lines = []
    for i in order:
        lines += [f'[namespace.N{i}]', f'"{roles[i % len(roles)]}" = "p{i}"', f'"!own{i}" = "q{i}"']
        lines += [f'base_ref = "/B{i}"'] if i % 2 else []
        lines += [f'[document.d{i}]', 'packages = [' + ', '.join(f'"/P{j}"' for j in range(i)) + ']']
        lines += [f'[document_mapping.m{i}]', f'package_ref = "/P{i}"', 'element_types = "Unit"',
                  'suffix_filters = [' + ', '.join(f'"_{j}"' for j in range(i)) + ']']
    ws = load(None, lines)
    ctx.check([d.file_path for d in ws.documents] == [f'd{i}.arxml' for i in order], 'documents')
    ctx.check([m.package_ref for m in ws.document_mappings] == [f'/P{i}' for i in order], 'mappings')
    for d, m, i in zip(ws.documents, ws.document_mappings, order):
        ctx.check(list(d.package_refs) == [f'/P{j}' for j in range(i)], 'packages')
        ctx.check(list(m.suffix_filters) == [f'_{j}' for j in range(i)], 'suffixes')
        ctx.check(m.element_types == (ar_element.Unit,), 'types')
    for i in order:
        base = f'/B{i}' if i % 2 else f'/N{i}'
        role = ar_enum.PackageRole[ROLES[roles[i % len(roles)]]]
        ctx.check(ws.get_package_ref_by_role(f'N{i}', role) == f'{base}/p{i}', 'package of role')
        ctx.check(ws.get_package_ref_by_role(f'N{i}', f'own{i}') == f'{base}/q{i}', 'package of role')
        _, exc = attempt(ws.get_package_ref_by_role, f'N{i}', f'own{(i + 1) % CROWD}')
        ctx.check(exc is not None, 'package for a role of another namespace')
    ctx.reach('end')


def all_elements(box):
    out = [box.elements] if isinstance(box, ar_element.Package) else []
    for p in box.packages:
        out += all_elements(p)
    return out


class Greedy(ar_template.GenericTemplate):
    def apply(self, workspace, **kwargs):
        return (self, workspace, kwargs)


class Maker(ar_template.GenericTemplate):
    """Makes its element the first time, and finds it from then on"""

    def __init__(self, log, path, name):
        self.log, self.path, self.name = log, path, name

    def apply(self, workspace, **kwargs):
        self.log.append((self, workspace, kwargs))
        pkg = workspace.make_packages(self.path)
        if pkg.find(self.name) is None:
            pkg.append(ar_element.SwAddrMethod(self.name))
        return pkg.find(self.name)


class Applier(UnitTemplate):
    """Applies another template while it creates its own element"""

    def create(self, package, workspace, dependencies, **kwargs):
        self.other = workspace.apply(kwargs['other'], extra=7)
        return super().create(package, workspace, dependencies, **kwargs)


def t_mixed_templates(ctx):
    """Templates which depend on generic ones, or apply others while they create their element"""
    ws = autosar.xml.Workspace()
    ws.create_namespace('N', {'Unit': 'Units', 'Constant': 'Units/c'})
    log, calls = [], []
    names = ['M' + ctx.ident(f'n{i}', 1) for i in range(2)]
    makers = [Maker(calls, '/Made' if i == 0 or ctx.flag('together') else '/N/Units', n) for i, n in enumerate(names)]
    plain = UnitTemplate(log, 'Plain', 'N', ar_enum.PackageRole.CONSTANT)
    deps = ctx.sub('deps', [makers[0], plain, makers[1]], 1, 3)
    inner = UnitTemplate(log, 'Inner', 'N', ctx.pick('role', [ar_enum.PackageRole.UNIT, ar_enum.PackageRole.CONSTANT]),
                         deps if ctx.flag('inner depends') else None)
    outer = Applier(log, 'Outer', 'N', ar_enum.PackageRole.UNIT, deps)
    before = ctx.flag('inner before')
    first = ws.apply(inner, extra=1) if before else None
    got = ws.apply(outer, other=inner, more=2)
    ctx.check(str(got.ref()) == '/N/Units/Outer' and ws.find('/N/Units/Outer') is got, 'element of the template')
    ctx.check(outer.other is ws.find(inner.ref(ws)) and outer.other.name == 'Inner', 'element of the template applied within')
    ctx.check(first is None or outer.other is first, 'element created again')
    ctx.check([e[0].element_name for e in log].count('Inner') == 1, 'created twice')
    for template, package, workspace, given, kwargs in log:
        ctx.check(workspace is ws, 'workspace given')
        if template is outer:
            ctx.check(kwargs == {'other': inner, 'more': 2}, 'arguments given')
        elif template is inner:
            ctx.check(kwargs == {'extra': 1 if before else 7}, 'arguments given')
        else:
            ctx.check(kwargs == {}, 'arguments given')
        if template.depends:
            found = [ws.find(d.ref(ws)) if d is plain else ws.find(d.path + '/' + d.name) for d in deps]
            ctx.check(all(x is not None for x in found), 'dependency missing')
            for x in found:
                hit = [v for k, v in given.items() if ctx.test(ctx.eq(k, str(x.ref())))]
                ctx.check(len(hit) == 1 and hit[0] is x, 'dependency not given')
            for x in given.values():
                ctx.check(any(x is y for y in found), 'dependency nobody asked for')
    for call in calls:
        ctx.check(call[1] is ws and call[2] == {}, 'workspace given')
    ctx.check(ws.apply(outer, other=None) is got, 'applied again: another element')
    ctx.reach('end')


def t_generic(ctx):
    """Generic templates get the workspace and the arguments; package maps give the packages mapped"""
    ws = autosar.xml.Workspace()
    t = Greedy()
    v = ctx.int('v')
    got = ws.apply(t, a=v, b=None)
    ctx.check(got[0] is t and got[1] is ws and sorted(got[2]) == ['a', 'b'], 'template applied')
    ctx.check(ctx.eq(got[2]['a'], v), 'argument')
    keys = [ctx.ident(f'k{i}', 1) for i in range(2)]
    ctx.assume(ctx.no(ctx.eq(keys[0], keys[1])))
    refs = ['/' * ctx.pick(f's{i}', [0, 1]) + ctx.ident(f'a{i}', 1) + '/' + ctx.ident(f'b{i}', 1) for i in range(2)]
    _, exc = attempt(ws.add_element, keys[0], ar_element.Unit('U'))
    ctx.check(exc is not None, 'element added without a package map')
    ws.create_package_map({keys[0]: refs[0], keys[1]: refs[1]})
    unit = ar_element.Unit('Elem' + ctx.ident('u', 1))
    ws.add_element(keys[0], unit)
    ctx.check(ws.find_element(keys[0], unit.name) is unit, 'element found')
    for k, r in zip(keys, refs):
        ctx.check(ws.get_package(k) is ws.find(r) and isinstance(ws.find(r), ar_element.Package), 'package mapped')
    same_pkg = ctx.test(ctx.eq(refs[0].lstrip('/'), refs[1].lstrip('/')))
    ctx.check((ws.find_element(keys[1], unit.name) is unit) == same_pkg, 'element of the other package')
    ctx.check(ws.find(str(unit.ref())) is unit, 'element in the workspace')
    # a new map takes the place of the old one
    ws.create_package_map({keys[1]: refs[0]})
    ctx.check(ws.find_element(keys[1], unit.name) is unit, 'element found by another key')
    other = ar_element.SwAddrMethod('Other')
    ws.add_element(keys[1], other)
    ctx.check(ws.find(refs[0]).elements == [unit, other], 'element added by another key')
    _, exc = attempt(ws.find_element, keys[0], unit.name)
    ctx.check(exc is not None, 'key of the former map')
    ctx.reach('end')


def t_config(ctx):
    """Documents, mappings and behavior settings of a configuration file are those made by calls"""
    name = ctx.ident('name', 1)
    packages = ['/' + ctx.ident(f'p{i}', 1) for i in range(ctx.pick('packages', [0, 1, 2]))]
    single = len(packages) == 1 and ctx.flag('single')
    lines = [f'[document."{name}"]']
    if single:
        lines.append(f'packages = "{packages[0]}"')
    elif packages or ctx.flag('empty'):
        lines.append('packages = [' + ', '.join(f'"{p}"' for p in packages) + ']')
    mapping = ctx.flag('mapping')
    suffixes, types = [], []
    if mapping:
        pkg = '/' + ctx.ident('mp', 1)
        types = ctx.sub('types', ['Unit', 'SwComponentType', 'PortInterface'], 1, 2)
        suffixes = ['_' + ctx.ident(f's{i}', 1) for i in range(ctx.pick('suffixes', [0, 1, 2]))]
        lines += ['[document_mapping.M]', f'package_ref = "{pkg}"']
        lines.append(f'element_types = "{types[0]}"' if len(types) == 1 and ctx.flag('one type') else
                     f'element_types = {types}'.replace("'", '"'))
        if len(suffixes) == 1 and ctx.flag('one suffix'):
            lines.append(f'suffix_filters = "{suffixes[0]}"')
        elif suffixes:
            lines.append('suffix_filters = [' + ', '.join(f'"{s}"' for s in suffixes) + ']')
    settings = ctx.sub('settings', SETTINGS, 0, 2)
    prefixes = {s: ctx.ident('v_' + s, 1) for s in settings}
    if settings:
        lines.append('[behavior]')
        lines += [f'{s} = "{v}"' for s, v in prefixes.items()]
    second = not settings and ctx.flag('second')       # and read by the constructor
    if second:
        lines = ['[document."second"]', 'packages = "/Second"', '[document_mapping.Second]', 'package_ref = "/Second"',
                 'element_types = "Unit"'] + lines
    if second:
        ws = load(None, lines)
    else:
        ws = autosar.xml.Workspace()
        load(ws, lines)
    if second:
        # in the order of the file, the one of interest last
        ctx.check(len(ws.documents) == 2 and len(ws.document_mappings) == (2 if mapping else 1), 'number of documents')
        first, m = ws.documents.pop(0), ws.document_mappings.pop(0)
        ctx.check(first.file_path == 'second.arxml' and list(first.package_refs) == ['/Second'], 'first document')
        ctx.check(m.package_ref == '/Second' and m.element_types == (ar_element.Unit,) and not m.suffix_filters,
                  'first mapping')
    ctx.check(len(ws.documents) == 1 and len(ws.document_mappings) == (1 if mapping else 0), 'documents and mappings')
    ctx.check(ctx.eq(ws.documents[0].file_path, name + '.arxml'), 'file name')
    ctx.check(len(ws.documents[0].package_refs) == len(packages), 'number of packages')
    for got, want in zip(ws.documents[0].package_refs, packages):
        ctx.check(ctx.eq(got, want), 'packages')
    if mapping:
        m = ws.document_mappings[0]
        ctx.check(ctx.eq(m.package_ref, pkg), 'package of mapping')
        ctx.check(m.element_types == tuple(getattr(ar_element, t) for t in types), 'types of mapping')
        ctx.check(len(m.suffix_filters) == len(suffixes), 'number of suffixes')
        for got, want in zip(m.suffix_filters, suffixes):
            ctx.check(ctx.eq(got, want), 'suffixes')
    for s in SETTINGS:
        if s in prefixes:
            ctx.check(ctx.eq(ws.behavior_settings.get_value(s), prefixes[s]), 'setting')
        else:
            _, exc = attempt(ws.behavior_settings.get_value, s)
            ctx.check(exc is not None, 'setting never given')
    ctx.reach('end')


BAD_CONFIG = {
    'no package': ['element_types = "Unit"'],
    'no types': ['package_ref = "/P"'],
    'unknown type': ['package_ref = "/P"', 'element_types = "NoSuch"'],
    'one unknown type': ['package_ref = "/P"', 'element_types = ["Unit", "NoSuch"]'],
    'empty types': ['package_ref = "/P"', 'element_types = []'],
    'number as type': ['package_ref = "/P"', 'element_types = 7'],
    'number among types': ['package_ref = "/P"', 'element_types = ["Unit", 7]'],
    'number as suffix': ['package_ref = "/P"', 'element_types = "Unit"', 'suffix_filters = 7'],
    'number among suffixes': ['package_ref = "/P"', 'element_types = "Unit"', 'suffix_filters = ["_A", 7]'],
    'unknown setting': ['package_ref = "/P"', 'element_types = "Unit"', '[behavior]', 'x = "A"'],
    'number as setting': ['package_ref = "/P"', 'element_types = "Unit"', '[behavior]', 'init_event_prefix = 7'],
}


def t_bad_config(ctx):
    """A configuration which makes no sense is refused"""
    lines = BAD_CONFIG[ctx.pick('what', list(BAD_CONFIG))]
    before = ctx.flag('good one first')
    lines = (['[document_mapping.G]', 'package_ref = "/P"', 'element_types = "Unit"'] if before else []) + \
        ['[document_mapping.M]'] + lines
    ws = autosar.xml.Workspace()
    _, exc = attempt(load, None if ctx.flag('constructor') else ws, lines)
    ctx.check(exc is not None, 'accepted')
    ctx.check(len(ws.document_mappings) <= 2, 'mappings')
    ctx.reach('end')


SETTINGS = ['background_event_prefix', 'data_receive_error_event_prefix', 'data_receive_event_prefix',
            'init_event_prefix', 'operation_invoked_event_prefix', 'swc_mode_manager_error_event_prefix',
            'swc_mode_switch_event_prefix', 'timing_event_prefix', 'data_read_access_prefix',
            'data_receive_point_prefix', 'data_send_point_prefix', 'data_write_access_prefix',
            'mode_access_point_prefix', 'mode_switch_point_prefix', 'parameter_access_prefix',
            'server_call_point_prefix']


def cases(prop, tier):
    deep = tier == 'thorough'
    out = []
    if prop == 'R08':
        for n in IDENTIFIABLE:
            if n == 'ModeRequestTypeMap':
                continue
            out.append(Case(f'each:{n}', t_common, name=n, level='each', deep=deep, limits={'weight': 4}))
            out.append(Case(f'all:{n}', t_common, name=n, level='all', limits={'weight': 2}))
        out.append(Case('package:each', t_package, level='each', deep=deep, limits={'weight': 9}))
        out.append(Case('package:all', t_package, level='all', limits={'weight': 9}))
        out += [Case(f'large:{f}', t_large, form=f) for f in ('top', 'inner')]
        out += [Case(f'document:{k}', t_document, top=k, limits={'weight': 10 * k}) for k in ((0, 1, 2) if deep else (0, 1))]
    elif prop == 'R09':
        out = [Case(f'ref:{n}', t_ref, name=n) for n in sorted(DESTS)]
        for n, k, kind in REF_FIELDS:
            if (n, k) not in UNCHECKED:
                out.append(Case(f'field:{n}.{k}', t_ref_field, name=n, key=k, kind=kind))
            out.append(Case(f'read:{n}.{k}', t_read_dest, name=n, key=k, kind=kind))
    elif prop == 'D01':
        out = [Case(f'documents:{k}', t_write_documents, chosen=k, limits={'weight': 5 ** k})
               for k in ((0, 1, 2, 3) if deep else (0, 1, 2))]
        out += [Case(f'mapping:{e}:{f}', t_mapping, elements=e, filters=f, limits={'weight': 3 ** (e + f)})
                for e, f in ((1, 0), (2, 0), (2, 1), (2, 2), (3, 1)) + (((3, 2), (4, 1)) if deep else ())]
        out.append(Case('no-package', t_no_package))
        out.append(Case('crowd', t_crowd_documents, limits={'weight': 30}))
        out.append(Case('several', t_several, limits={'weight': 20}))
    elif prop == 'D02':
        for k in (1, 2) + ((3,) if deep else ()):
            if k == 1:
                out += [Case(f'element:{n}', t_element_files, name=n, limits={'weight': 3}) for n in (
                    'Unit', 'SwAddrMethod', 'ImplementationDataType', 'SenderReceiverInterface', 'SwcImplementation')]
            out.append(Case(f'writer:{k}', t_writer_reuse, steps=k, limits={'weight': 9 ** k}))
            for e in (False, True):
                out.append(Case(f'reader:{k}:{"bad" if e else "good"}', t_reader_reuse, steps=k, error=e,
                                limits={'weight': 9 ** k}))
    else:
        out = [Case('namespace:calls', t_namespace, config=False, limits={'weight': 50}),
               Case('namespace:file', t_namespace, config=True, limits={'weight': 60}),
               Case('roles', t_roles, hi=4 if deep else 3, limits={'weight': 20}),
               Case('templates:2', t_templates, count=2), Case('templates:3', t_templates, count=3,
                                                                limits={'weight': 30}),
               Case('crowd:templates', t_crowd_templates), Case('crowd:config', t_crowd_config),
               Case('mixed', t_mixed_templates), Case('generic', t_generic), Case('config', t_config, limits={'weight': 30}),
               Case('bad-config', t_bad_config)]
    return out
