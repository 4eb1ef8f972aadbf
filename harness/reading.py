"""
Reading documents written by other tools: faults and unknown content (G01), layout (G02).
"""
import contextlib
import io
import os
import re
from sx.case import Case
import autosar.xml
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
import autosar.xml.exception as ar_exception
from harness import spec
from harness.build import Builder
from harness.docs import Scratch, same, snapshot

ROOTS = ['CompuMethod', 'ApplicationArrayDataType', 'ApplicationRecordDataType', 'ApplicationPrimitiveDataType',
         'SwBaseType', 'SwAddrMethod', 'ImplementationDataType', 'DataTypeMappingSet', 'DataConstraint',
         'NvDataInterface', 'ParameterInterface', 'SenderReceiverInterface', 'ClientServerInterface',
         'ModeSwitchInterface', 'Unit', 'ConstantSpecification', 'ModeDeclarationGroup', 'E2EProfileCompatibilityProps',
         'ApplicationSoftwareComponentType', 'CompositionSwComponentType', 'SwcImplementation']
# what a kind of the table can hold
HOLDS = {'*props': ['SwDataDefPropsConditional'], '*event': spec.EVENTS, '*pcomspec': spec.P_COM_SPECS,
         '*rcomspec': spec.R_COM_SPECS, 'vs': spec.VALUE_SPECS, '*portapi': ['PortApiOption'],
         '*modes': ['ModeDeclaration'], '*docelems': ['MultiLanguageParagraph', 'MultiLanguageVerbatim'],
         '*netrep': [], '*scaleconstrs': ['ScaleConstraint'], '*portiref': ['PortInCompositionTypeInstanceRef']}
COMMON = [('desc', 'MultiLanguageOverviewParagraph'), ('long_name', 'MultilanguageLongName'),
          ('introduction', 'DocumentationBlock'), ('annotations', 'Annotation')]


def held(kind):
    """(is it a list, classes) of a field"""
    many = False
    while kind[:2] in ('l:', 's:'):
        many, kind = True, kind[2:]
    if kind[:2] == 'o:':
        return many, kind[2:].split('|')
    return many or kind == '*scaleconstrs', HOLDS.get(kind, [])


def homes():
    """class -> (outer class, key, list) on the shortest way to a package element"""
    out = {}
    todo = list(ROOTS)
    done = set(ROOTS)
    while todo:
        name = todo.pop(0)
        cs = spec.CLASSES[name]
        links = [(f.key,) + held(f.kind) for f in cs.fields]
        if cs.ident == 'I':
            links += [(k, False, [c]) for k, c in COMMON]
        for key, many, inner in links:
            for n in inner:
                if n not in done and n != 'ModeRequestTypeMap':
                    done.add(n)
                    out[n] = (name, key, many)
                    todo.append(n)
    return out


HOME = homes()
CLASSES = ROOTS + list(HOME)


def sample(ctx, name, skip=(), variants=True):
    """A package element which contains an object of the class with all its fields"""
    b = Builder(ctx)
    b.alt = ctx.flag('other values') if variants and ctx.flag('variant') else False
    obj = full(b, name, skip)
    while name in HOME:
        outer, key, many = HOME[name]
        obj, _ = b.make(outer, 'o', {}, 'mark', extra={key: [obj] if many else obj})
        name = outer
    return obj


def full(b, name, skip=()):
    keys = [f.key for f in spec.CLASSES[name].fields if not f.required and f.key not in skip]
    return b.make(name, 'x', {k: 'mark' for k in keys}, 'mark')[0]


class Node:
    def __init__(self, tag, start, body, parent):
        self.tag = tag
        self.start = start        # of the start tag
        self.body = body          # end of the start tag
        self.inner = body         # start of the end tag
        self.end = body           # end of the end tag
        self.parent = parent
        self.children = []
        self.mixed = False


def nodes(xml):
    """The elements of a document without symbolic characters in its markup, in document order"""
    out = []
    top = None
    at = 0
    for m in re.finditer(r'<(/?)([A-Za-z][-\w:]*)[^<>]*?(/?)>', xml):
        if top is not None and xml[at:m.start()].strip():
            top.mixed = True
        at = m.end()
        if m.group(1):
            top.inner, top.end = m.start(), m.end()
            top = top.parent
        else:
            node = Node(m.group(2), m.start(), m.end(), top)
            if top is not None:
                top.children.append(node)
            out.append(node)
            if not m.group(3):
                top = node
    return out


def document(ctx, root):
    """A document with the element between two others, and a package after it"""
    doc = ar_document.Document()
    pkg = doc.create_package('P')
    sub = pkg.create_package('Sub')
    sub.append(ar_element.Unit('Before', category='before'))
    sub.append(root)
    sub.append(ar_element.Unit('After', category='after'))
    pkg.create_package('Next').append(ar_element.SwAddrMethod('Last'))
    return autosar.xml.Writer().write_str(doc)


def below(xml):
    """The nodes of the element between Before and After"""
    all_nodes = nodes(xml)
    elements = [n for n in all_nodes if n.tag == 'ELEMENTS'][0]
    x = elements.children[1]
    return x, [n for n in all_nodes if n.start >= x.start and n.end <= x.end]


def load(xml, **kw):
    """Reads; returns document, exception and what was printed"""
    out = io.StringIO()
    doc, exc = None, None
    warn = kw.pop('warn', True)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            doc = autosar.xml.Reader(warn_on_unprocessed_element=warn).read_str(xml, **kw)
        except Exception as e:
            exc = e
    return doc, exc, out.getvalue()


def others(ctx, doc):
    """Everything but the element under test is there; returns that element, if it is there"""
    ctx.check(isinstance(doc, ar_document.Document) and len(doc.packages) == 1, 'packages')
    pkg = doc.packages[0]
    ctx.check(ctx.eq(pkg.name, 'P') and [p.name for p in pkg.packages] == ['Sub', 'Next'], 'sub packages')
    sub, last = pkg.packages
    ctx.check(len(last.elements) == 1 and type(last.elements[0]) is ar_element.SwAddrMethod, 'later package')
    ctx.check(last.elements[0].name == 'Last', 'element of later package')
    ctx.check(len(sub.elements) in (2, 3), 'number of elements')
    for elem, name in ((sub.elements[0], 'Before'), (sub.elements[-1], 'After')):
        ctx.check(type(elem) is ar_element.Unit and elem.name == name and elem.category == name.lower(),
                  'other element')
        ctx.check(doc.find('P/Sub/' + name) is elem, 'other element is not found')
    return sub.elements[1] if len(sub.elements) == 3 else None


OPS = ['text', 'empty', 'drop', 'rename', 'double', 'attribute', 'no attribute', 'swap']
ERRORS = (ar_exception.ParseError, ar_exception.DuplicateElement)


def harm(ctx, xml, x, inner, op, length):
    """One fault at a place chosen"""
    if op == 'text':
        sel = [n for n in inner if not n.children and n.inner > n.body]
    elif op == 'empty':
        sel = [n for n in inner if n.inner > n.body]
    elif op == 'double':
        sel = [n for n in inner if n is not x]
    elif op in ('drop', 'rename'):
        sel = [n for n in inner if n is not x]
    elif op == 'swap':
        sel = [n for n in inner if len(n.children) > 1]
    else:
        sel = [n for n in inner if '=' in xml[n.start:n.body]]
    if not sel:
        return None
    n = sel[ctx.pick('at', list(range(len(sel))))]
    whole = xml[n.start:n.end]
    if op == 'text':
        return xml[:n.body] + ctx.text('garbage', 1, length, 'safe') + xml[n.inner:]
    if op == 'empty':
        return xml[:n.body] + xml[n.inner:]
    if op == 'drop':
        return xml[:n.start] + xml[n.end:]
    if op == 'rename':
        return xml[:n.start] + whole.replace(n.tag, 'OTHER-TAG') + xml[n.end:]
    if op == 'double':
        return xml[:n.end] + whole + xml[n.end:]
    if op == 'swap':
        a, c = n.children[0], n.children[-1]
        return xml[:a.start] + xml[c.start:c.end] + xml[a.end:c.start] + xml[a.start:a.end] + xml[c.end:]
    m = re.search(r' ([-\w:]+)="([^"]*)"', xml[n.start:n.body])
    if op == 'attribute':
        return xml[:n.start + m.start(2)] + ctx.text('garbage', 1, length, 'safe') + xml[n.start + m.end(2):]
    return xml[:n.start + m.start()] + xml[n.start + m.end():]


def t_fault(ctx, name, ops, length=1):
    """A fault in one element costs at most that element, which is reported"""
    root = sample(ctx, name)
    xml = document(ctx, root)
    x, inner = below(xml)
    bad = harm(ctx, xml, x, inner, ctx.pick('op', ops), length)
    if bad is not None:
        doc, exc, out = load(bad)
        ctx.check(exc is None, 'reading the document failed')
        got = others(ctx, doc)
        ctx.check(got is None or type(got) is type(root), 'class of element')
        if got is None:
            ctx.check(len(out) > 0, 'element skipped silently')
        doc, exc, _ = load(bad, stop_on_error=True)
        if got is None:
            ctx.check(isinstance(exc, ERRORS), 'no ParseError although asked to stop on errors')
        else:
            ctx.check(exc is None, 'error although the element can be read')
            again = others(ctx, doc)
            same(ctx, snapshot(again), snapshot(got), 'element read when stopping on errors')
    ctx.reach('end')


UNKNOWN = '<OTHER-THING><SHORT-NAME>Strange</SHORT-NAME><CATEGORY>c</CATEGORY><V>1</V></OTHER-THING>'


# places for exactly one element of a choice: another one there is not an addition
CHOICE = ('INIT-VALUE', 'RAM-BLOCK-INIT-VALUE', 'ROM-BLOCK-INIT-VALUE', 'TIMEOUT-SUBSTITUTION-VALUE', 'VALUE-SPEC',
          'INNER-PORT-IREF', 'VALUE')
# lists whose members must be known: an unknown one makes the element a faulty one
STRICT = ('EVENTS', 'PROVIDED-COM-SPECS', 'REQUIRED-COM-SPECS', 'ELEMENTS', 'FIELDS')
# wrappers of lists, texts and the like, within which unknown elements are passed over without a word
SILENT = set('''
    ACTIVATION-REASONS ANNOTATION ANNOTATIONS ARGUMENTS ARTIFACT-DESCRIPTORS ASYNCHRONOUS-SERVER-CALL-RESULT-POINTS
    CAN-ENTERS CODE-DESCRIPTORS COMPONENTS COMPU-CONST COMPU-DEFAULT-VALUE COMPU-DENOMINATOR COMPU-INVERSE-VALUE
    COMPU-NUMERATOR COMPU-SCALES CONNECTORS CONTEXT-DATA-PROTOTYPE-REFS DATA-CONSTR-RULES DATA-ELEMENTS
    DATA-READ-ACCESSS DATA-RECEIVE-POINT-BY-ARGUMENTS DATA-RECEIVE-POINT-BY-VALUES DATA-SEND-POINTS
    DATA-TYPE-MAPPING-REFS DATA-TYPE-MAPS DATA-WRITE-ACCESSS DESC DISABLED-MODE-IREFS ELEMENTS
    EXCLUSIVE-AREA-NESTING-ORDER-REFS EXCLUSIVE-AREAS EXTERNAL-TRIGGERING-POINTS INTERNAL-BEHAVIORS
    INTERNAL-TRIGGERING-POINTS INVALIDATION-POLICYS LABEL LONG-NAME MODE-ACCESS-POINTS MODE-DECLARATIONS MODE-IREFS
    MODE-SWITCH-POINTS MODE-TRANSITIONS NV-DATAS OPERATIONS P PARAMETER-ACCESSS PARAMETERS PORT-API-OPTIONS
    PORT-ARG-VALUES PORTS POSSIBLE-ERROR-REFS POSSIBLE-ERRORS READ-LOCAL-VARIABLES RUNNABLES RUNS-INSIDES
    SCALE-CONSTRS SERVER-CALL-POINTS SUB-ELEMENTS SUPPORTED-FEATURES SW-ARRAYSIZE SW-AXIS-CONTS
    SW-DATA-DEF-PROPS-VARIANTS TRANSFORMATION-COM-SPEC-PROPSS VERBATIM WAIT-POINTS WRITTEN-LOCAL-VARIABLES'''.split())


def places(x, inner, but=()):
    """Positions between elements"""
    out = []
    for n in inner:
        if not n.parent.mixed and (n is x or n.parent.tag not in but):
            out.append((n.start, n.parent))
        if n.children and not n.mixed and n.tag not in but:
            out.append((n.inner, n))
    return out


def t_unknown(ctx, name):
    """Unknown elements do not disturb the reading of what is known, and are reported once"""
    root = sample(ctx, name)
    xml = document(ctx, root)
    x, inner = below(xml)
    spots = places(x, inner, CHOICE)
    at = ctx.pick('at', list(range(len(spots) + 1)))
    other = UNKNOWN.replace('Strange', ctx.ident('short name', 1)).replace('>1<', '>' + ctx.text('v', 1, 1, 'safe') + '<')
    if at < len(spots):
        pos, parent = spots[at]
        new = xml[:pos] + other + xml[pos:]
        own = parent is x or parent is x.parent or parent.tag not in SILENT
        strict = parent.tag in STRICT and parent is not x.parent
    else:
        new = xml
        for pos, parent in sorted(spots, key=lambda s: -s[0]):
            if parent.tag not in STRICT:
                new = new[:pos] + other + '<YET-ANOTHER/>' + new[pos:]
        own, strict = True, False
    want, _, before = load(xml)
    got, exc, out = load(new)
    ctx.check(exc is None, 'reading the document failed')
    ctx.check(before == '', 'reported something although everything is known')
    kept = others(ctx, got)
    if strict and kept is None:
        ctx.check(len(out) > 0, 'element skipped silently')
        ctx.reach('end')
        return
    ctx.check(kept is not None, 'element lost')
    same(ctx, snapshot(got), snapshot(want), 'known content')
    lines = [l for l in out.split('\n') if 'OTHER-THING' in l]
    ctx.check(len(lines) <= 1, 'reported more than once')
    if own:
        ctx.check(len(lines) == 1, 'unknown element not reported')
    if at == len(spots):
        ctx.check(len([l for l in out.split('\n') if 'YET-ANOTHER' in l]) == 1, 'second unknown element not reported once')
    _, _, out = load(new, warn=False)
    ctx.check('OTHER-THING' not in out, 'reported although told not to')
    doc, exc, _ = load(new, stop_on_error=True)
    ctx.check(exc is None, 'unknown element taken as an error')
    ctx.reach('end')


MIXED = {'overview': ('DESC', 'L-2', '', ['FT', 'TRACE-REF', 'XREF']),
         'paragraph': ('INTRODUCTION', 'L-1', 'P',
                       ['FT', 'STD', 'TRACE-REF', 'XDOC', 'XFILE', 'XREF', 'XREF-TARGET']),
         'verbatim': ('INTRODUCTION', 'L-5', 'VERBATIM', ['XREF'])}


def merged(parts):
    """Parts of a text, neighbouring strings put together"""
    out = []
    for part in parts:
        if out and isinstance(part, str) and isinstance(out[-1], str):
            out[-1] = out[-1] + part
        else:
            out.append(part)
    return out


def t_mixed(ctx, kind):
    """Elements of the schema within texts which the model does not have"""
    outer, tag, inner, unknown = MIXED[kind]
    name = ctx.pick('tag', unknown)
    lo = 0 if ctx.flag('some texts empty') else 1
    texts = [ctx.text(f'text{i}', lo, 1, 'safe') for i in range(3)]
    thing = f'<{name} ID="x">inside<E>deeper</E></{name}>'
    known = '<TT TYPE="SGMLTAG">term</TT>' if ctx.flag('term') else '<BR/>'
    pieces = [known, thing] if ctx.flag('order') else [thing, known]
    again = ctx.flag('again')
    if again:
        pieces.append(thing)
        texts.append(ctx.text('text3', lo, 1, 'safe'))

    def make(pieces):
        body = ''.join(t + p for t, p in zip(texts, pieces + ['']))
        body = f'<{tag} L="EN">{body}</{tag}>'
        if inner:
            body = f'<{inner}>{body}</{inner}>'
        doc = document(ctx, ar_element.SwBaseType('x', category='c'))
        end = doc.index('<CATEGORY>c') if outer == 'DESC' else doc.index('<CATEGORY>c</CATEGORY>') + 22
        return doc[:end] + f'<{outer}>{body}</{outer}>' + doc[end:]

    plain, exc, before = load(make([p if p is known else '' for p in pieces]))
    ctx.check(exc is None and before == '', 'known text')
    got, exc, out = load(make(pieces))
    ctx.check(exc is None, 'reading failed')
    want, x = others(ctx, plain), others(ctx, got)
    ctx.check(want is not None and x is not None, 'element lost')
    both = []
    for e in (want, x):
        if outer == 'DESC':
            part, e.desc = e.desc.elements[0], None
        else:
            part, e.introduction = e.introduction.elements[0].elements[0], None
        both.append(part)
        ctx.check(part.language is both[0].language, 'language of the text')
    a, b = [merged(p.parts) for p in both]
    ctx.check(len(a) == len(b), 'number of parts of the text')
    for p, q in zip(a, b):
        ctx.check(ctx.eq(p, q) if isinstance(p, str) and isinstance(q, str) else type(p) is type(q), 'part of the text')
        if not isinstance(p, str):
            same(ctx, snapshot(q), snapshot(p), 'part of the text')
    same(ctx, snapshot(x), snapshot(want), 'other content')
    ctx.check(len([l for l in out.split('\n') if '<' + name + '>' in l]) == 1, 'not reported once')
    _, exc, out = load(make(pieces), warn=False)
    ctx.check(exc is None and out == '', 'reported although told not to')
    _, exc, _ = load(make(pieces), stop_on_error=True)
    ctx.check(exc is None, 'unknown element taken as an error')
    ctx.reach('end')


def t_admin(ctx, name):
    """Administrative data in an element"""
    texts = [ctx.text(n, 1, 1, 'safe') for n in ('gid', 'key', 'value', 'second')]
    sd = f'<SD GID="{texts[1]}">{texts[2]}</SD>'
    group = f'<SDG GID="{texts[0]}">{sd}</SDG>'
    want = [{texts[0]: {texts[1]: texts[2]}}]
    if ctx.flag('two'):
        group += f'<SDG GID="b"><SD GID="k">{texts[3]}</SD><SD GID="l">v</SD></SDG>'
        want.append({'b': {'k': texts[3], 'l': 'v'}})
    form = ctx.pick('form', ['plain', 'language', 'none'])
    content = {'plain': f'<SDGS>{group}</SDGS>', 'none': '<LANGUAGE>EN</LANGUAGE>',
               'language': f'<LANGUAGE>EN</LANGUAGE><USED-LANGUAGES><L-10 L="EN">x</L-10></USED-LANGUAGES>'
                           f'<DOC-REVISIONS><DOC-REVISION><DATE>2020</DATE></DOC-REVISION></DOC-REVISIONS>'
                           f'<SDGS>{group}</SDGS>'}[form]
    doc = document(ctx, sample(ctx, name, variants=False))
    x = below(doc)[0]
    at = [n for n in x.children if n.tag in ('CATEGORY', 'DESC', 'LONG-NAME', 'SHORT-NAME')][-1].end
    plain, exc, _ = load(doc)
    got, exc, out = load(doc[:at] + f'<ADMIN-DATA>{content}</ADMIN-DATA>' + doc[at:])
    ctx.check(exc is None and out == '', 'reading failed')
    old, new = others(ctx, plain), others(ctx, got)
    ctx.check(old is not None and new is not None, 'element lost')
    data, new.admin_data = new.admin_data, None
    ctx.check(isinstance(data, ar_element.AdminData), 'kind of admin data')
    if form == 'none':
        ctx.check(not data.data, 'admin data')
    else:
        ctx.check(isinstance(data.data, list) and len(data.data) == len(want), 'groups of admin data')
        for g, h in zip(data.data, want):
            (k, v), = g.items()
            (l, m), = h.items()
            ctx.check(ctx.eq(k, l) and len(v) == len(m), 'group of admin data')
            for (p, q), (r, t) in zip(v.items(), m.items()):
                ctx.check(ctx.all([ctx.eq(p, r), ctx.eq(q, t)]), 'special data')
    same(ctx, snapshot(new), snapshot(old), 'other content')
    ctx.reach('end')


def t_duplicates(ctx, kinds):
    """Of several elements of the same name only the first is read; the others are reported"""
    names = [ctx.ident(f'n{i}', 1) for i in range(len(kinds))]
    parts = []
    for name, kind in zip(names, kinds):
        parts.append(f'<{kind}><SHORT-NAME>{name}</SHORT-NAME></{kind}>')
    where = ctx.pick('where', ['top', 'sub'])
    xml = '<ELEMENTS>' + '\n'.join(parts) + '</ELEMENTS>'
    if where == 'sub':
        xml = f'<AR-PACKAGES><AR-PACKAGE><SHORT-NAME>Q</SHORT-NAME>{xml}</AR-PACKAGE></AR-PACKAGES>'
    xml = f'<AUTOSAR><AR-PACKAGES><AR-PACKAGE><SHORT-NAME>Pkg</SHORT-NAME>{xml}</AR-PACKAGE></AR-PACKAGES></AUTOSAR>'
    want = []
    for name, kind in zip(names, kinds):
        if not any(ctx.test(ctx.eq(name, w[0])) for w in want):
            want.append((name, kind))
    doc, exc, out = load(xml)
    ctx.check(exc is None, 'reading failed')
    pkg = doc.find('Pkg' if where == 'top' else 'Pkg/Q')
    ctx.check(len(pkg.elements) == len(want), 'number of elements')
    for elem, (name, kind) in zip(pkg.elements, want):
        ctx.check(ctx.eq(elem.name, name), 'name')
        ctx.check(type(elem).__name__ == TAG_CLASS[kind], 'class')
    ctx.check((len(out) > 0) == (len(want) < len(names)), 'report of duplicates')
    _, exc, _ = load(xml, stop_on_error=True)
    if len(want) < len(names):
        ctx.check(isinstance(exc, ar_exception.DuplicateElement), 'no DuplicateElement')
    else:
        ctx.check(exc is None, 'error without duplicates')
    ctx.reach('end')


TAG_CLASS = {'UNIT': 'Unit', 'SW-ADDR-METHOD': 'SwAddrMethod', 'COMPU-METHOD': 'CompuMethod'}


# ---- G02

LAYOUTS = ['comment', 'instruction', 'space', 'attribute', 'line comment']


def noise(ctx, form, some):
    """Something to ignore: any of its kind, or just some"""
    if some:
        return {'comment': '<!--<V>0</V>-->', 'instruction': '<?other x?>', 'space': ' \n'}.get(form, '\n<!-- -->\n')
    if form == 'comment':
        return '<!--' + ctx.text('noise', 1, 1, 'ident') + '<SHORT-NAME>No</SHORT-NAME>-->'
    if form == 'instruction':
        return '<?other ' + ctx.text('noise', 1, 1, 'ident') + '?>'
    if form == 'line comment':
        return '\n<!-- a -->\n<!-- b -->\n'
    return ''.join(ctx.pick(f'noise{i}', [' ', '\t', '\n', '\r\n']) for i in range(2))


def t_layout(ctx, name, deep):
    """Comments and instructions anywhere, white space between elements and foreign attributes change nothing"""
    root = sample(ctx, name, variants=deep)
    xml = document(ctx, root)
    x, inner = below(xml)
    form = ctx.pick('form', LAYOUTS)
    if form == 'attribute':
        at = ctx.pick('at', list(range(len(inner) + 1)))
        if deep or at == len(inner):
            extra = ' ' + ctx.pick('attribute', ['S', 'T', 'x:y']) + '=' + ctx.pick('quote', ['"', "'"])
            extra += ctx.text('noise', 1, 1, 'ident') + extra[-1]
        else:
            extra = ' S="0"'
        extra = extra.replace('x:y', 'xmlns:x="urn:x" x:y')
        chosen = inner if at == len(inner) else [inner[at]]
        new = xml
        for n in sorted(chosen, key=lambda n: -n.start):
            pos = n.start + 1 + len(n.tag)
            new = new[:pos] + extra + new[pos:]
    else:
        spots = {pos for pos, _ in places(x, inner)}
        if form in ('comment', 'instruction'):
            # also within texts
            for n in inner:
                spots |= {n.start, n.body, (n.body + n.inner) // 2 if not n.children else n.body, n.inner}
        spots = sorted(spots)
        at = ctx.pick('at', list(range(len(spots) + 1)))
        text = noise(ctx, form, not deep and at < len(spots))
        new = xml
        for pos in sorted(spots if at == len(spots) else [spots[at]], reverse=True):
            new = new[:pos] + text + new[pos:]
    equal(ctx, xml, new)
    ctx.reach('end')


def equal(ctx, xml, new):
    want, _, before = load(xml)
    got, exc, out = load(new)
    ctx.check(exc is None, 'reading the document failed')
    ctx.check(others(ctx, got) is not None, 'element lost')
    same(ctx, snapshot(got), snapshot(want), 'content')
    ctx.check(('Unprocessed' in out) == ('Unprocessed' in before), 'reports')


def t_whole(ctx, name):
    """No white space at all, other quotes, a namespace prefix, other encodings and file forms change nothing"""
    root = sample(ctx, name)
    xml = document(ctx, root)
    form = ctx.pick('form', ['dense', 'quotes', 'prefix', 'head', 'file', 'windows', 'namespace'])
    want, _, before = load(xml)
    if form == 'dense':
        new = re.sub(r'>\s+<', '><', xml)
    elif form == 'windows':
        new = re.sub(r'>\n(\s*)<', '>\r\n\\1<', xml)
    elif form == 'quotes':
        new = re.sub(r'="([^"\']*)"', "='\\1'", xml)
    elif form == 'prefix':
        new = re.sub(r'<(/?)([A-Z])', r'<\1ar:\2', xml[xml.index('<AUTOSAR'):])
        new = re.sub(r'<ar:AUTOSAR(\s[^>]*)?>', f'<ar:AUTOSAR xmlns:ar="{NS}">', new)
    elif form == 'namespace':
        new = re.sub(r'<AUTOSAR(\s[^>]*)?>', f'<AUTOSAR xmlns="{NS}">', xml)
    elif form == 'head':
        new = '<!-- head --><?other x?>' + xml[xml.index('<AUTOSAR'):] + '<!-- end -->\n'
    else:
        new = xml
    if form == 'file':
        enc = ctx.pick('encoding', ['utf-8', 'utf-8-sig', 'utf-16', 'iso-8859-1'])
        decl = {'utf-8-sig': 'utf-8'}.get(enc, enc)
        at = xml.index('<AUTOSAR')
        data = (f'<?xml version="1.0" encoding="{decl}"?>\n' + xml[at:]).encode(enc)
        with Scratch() as scratch:
            path = os.path.join(scratch, 'x.arxml')
            with open(path, 'wb') as fh:
                fh.write(data)
            with contextlib.redirect_stderr(io.StringIO()):
                got = autosar.xml.Reader().read_file(path)
        others(ctx, got)
        same(ctx, snapshot(got.packages), snapshot(want.packages), 'content')
    else:
        got, exc, out = load(new)
        ctx.check(exc is None, 'reading failed')
        ctx.check(others(ctx, got) is not None, 'element lost')
        same(ctx, snapshot(got.packages), snapshot(want.packages), 'content')
    ctx.reach('end')


NS = 'http://autosar.org/schema/r4.0'


def t_schema(ctx, digits):
    """The schema version is the number in the schema location"""
    number = ctx.text('number', digits, digits, 'digit')
    ns = ctx.pick('ns', [NS, 'http://autosar.org/schema/r4.0 '])
    attr = ctx.pick('attr', ['xsi', 'schema'])
    uri = 'http://www.w3.org/2001/XMLSchema-instance'
    gap = ctx.pick('gap', [' ', '  ', '\n'])
    folder = ctx.pick('folder', ['', '../xsd/', 'file:///c:/AUTOSAR/'])
    other = ctx.pick('other', ['', 'before', 'behind'])
    pair = 'http://www.w3.org/XML/1998/namespace' + gap + 'xml.xsd'
    where = f'{ns}{gap}{folder}AUTOSAR_{number}.xsd'
    where = pair + gap + where if other == 'before' else where + gap + pair if other == 'behind' else where
    quote = ctx.pick('quote', ['"', "'"])
    head = f'<AUTOSAR xmlns:{attr}="{uri}" {attr}:schemaLocation={quote}{where}{quote} xmlns="{NS}">'
    how = ctx.pick('how', ['given', 'plain', 'other file'])
    if how == 'other file':
        head = f'<AUTOSAR xmlns:{attr}="{uri}" {attr}:schemaLocation="{ns}{gap}{folder}Own_{number}.xsd" xmlns="{NS}">'
        want = 47
    elif how == 'plain':
        head = f'<AUTOSAR xmlns="{NS}">'
        want = 47
    else:
        want = int(number)
    xml = head + '<AR-PACKAGES><AR-PACKAGE><SHORT-NAME>P</SHORT-NAME></AR-PACKAGE></AR-PACKAGES></AUTOSAR>'
    doc = autosar.xml.Reader(schema_version=47).read_str(xml)
    ctx.check(ctx.eq(doc.schema_version, want), 'schema version')
    ctx.check(isinstance(doc.find('P'), ar_element.Package), 'package')
    ctx.reach('end')


def cases(prop, tier):
    deep = tier == 'thorough'
    out = []
    if prop == 'G01':
        for n in CLASSES:
            heavy = len(spec.CLASSES[n].fields)
            out.append(Case(f'fault:{n}', t_fault, name=n, ops=OPS, length=2 if deep else 1,
                            limits={'weight': 6 + heavy}))
            out.append(Case(f'unknown:{n}', t_unknown, name=n, limits={'weight': 2 + heavy}))
        for kinds in (['UNIT'] * 3, ['UNIT', 'SW-ADDR-METHOD', 'COMPU-METHOD'],
                      ['SW-ADDR-METHOD', 'UNIT', 'UNIT', 'SW-ADDR-METHOD']) + \
                ((['UNIT', 'UNIT', 'UNIT', 'COMPU-METHOD', 'SW-ADDR-METHOD'],) if deep else ()):
            out.append(Case(f'duplicates:{len(kinds)}:{kinds[0]}:{kinds[1]}', t_duplicates, kinds=kinds))
        out += [Case(f'mixed:{k}', t_mixed, kind=k, limits={'weight': 60}) for k in MIXED]
        out += [Case(f'admin:{n}', t_admin, name=n) for n in ('Unit', 'SenderReceiverInterface', 'SwcImplementation')]
    else:
        for n in CLASSES:
            heavy = len(spec.CLASSES[n].fields)
            out.append(Case(f'layout:{n}', t_layout, name=n, deep=deep, limits={'weight': 6 + heavy}))
            out.append(Case(f'whole:{n}', t_whole, name=n))
        out += [Case(f'schema:{k}', t_schema, digits=k) for k in ((1, 2, 3, 4, 5) if deep else (2, 3, 5))]
    return out
