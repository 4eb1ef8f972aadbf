"""
Texts (P01), numbers and booleans (P02) and enumerations (P03) between the model and XML.
"""
import re
from sx.case import Case
import lxml.etree as etree
import autosar.xml
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.exception as ar_exception
from harness import spec
from harness.build import Builder
from harness.roundtrip import write, read, wrapped

# ---- P01

PARAGRAPH = ar_element.MultiLanguageOverviewParagraph
TEXT_PLACES = ['category', 'desc', 'long_name', 'uuid', 'value', 'encoding', 'native', 'unit_name', 'origin', 'symbol',
               'type_emitter', 'reference']
# other places: how the element is made, how the text is got, where it is in XML, name of the attribute
MORE_PLACES = {
    'paragraph': (lambda E, t: block(E, E.MultiLanguageParagraph(E.LanguageParagraph(ar_enum.Language.EN, t))),
                  lambda x: x.introduction.elements[0].elements[0].parts[0], './/P/L-1'),
    'verbatim': (lambda E, t: block(E, E.MultiLanguageVerbatim(E.LanguageVerbatim(ar_enum.Language.EN, t))),
                 lambda x: x.introduction.elements[0].elements[0].parts[0], './/VERBATIM/L-5'),
    'emphasis': (lambda E, t: inline(E, E.EmphasisText(t)), lambda x: part(x).elements[0], './/L-2/E'),
    'term': (lambda E, t: inline(E, E.TechnicalTerm(t)), lambda x: part(x).text, './/L-2/TT'),
    'index': (lambda E, t: inline(E, E.IndexEntry(t)), lambda x: part(x).text, './/L-2/IE'),
    'sub': (lambda E, t: inline(E, E.Subscript(t)), lambda x: part(x).text, './/L-2/SUB'),
    'sup': (lambda E, t: inline(E, E.Superscript(t)), lambda x: part(x).text, './/L-2/SUP'),
    'color': (lambda E, t: inline(E, E.EmphasisText('x', color=t)), lambda x: part(x).color, './/L-2/E', 'COLOR'),
    'tex': (lambda E, t: inline(E, E.TechnicalTerm('x', tex_render=t)), lambda x: part(x).tex_render, './/L-2/TT',
            'TEX-RENDER'),
    'term_type': (lambda E, t: inline(E, E.TechnicalTerm('x', type=t)), lambda x: part(x).type, './/L-2/TT', 'TYPE'),
    'help': (lambda E, t: block(E, E.MultiLanguageParagraph(E.LanguageParagraph(ar_enum.Language.EN, 'x'),
                                                            help_entry=t)),
             lambda x: x.introduction.elements[0].help_entry, './/P', 'HELP-ENTRY'),
    'view': (lambda E, t: block(E, E.MultiLanguageParagraph(E.LanguageParagraph(ar_enum.Language.EN, 'x'), view=t)),
             lambda x: x.introduction.elements[0].view, './/P', 'VIEW'),
    'semantic': (lambda E, t: block(E, E.MultiLanguageParagraph(E.LanguageParagraph(ar_enum.Language.EN, 'x'),
                                                                semantic_information=t)),
                 lambda x: x.introduction.elements[0].semantic_information, './/P', 'SI'),
    'const': (lambda E, t: E.CompuMethod('N', int_to_phys=E.Computation(compu_scales=[E.CompuScale(
        content=E.CompuConst(t))])), lambda x: x.int_to_phys.compu_scales[0].content.value, './/VT'),
    'label': (lambda E, t: E.ConstantSpecification('N', E.NumericalValueSpecification(label=t, value=1)),
              lambda x: x.value.label, './/SHORT-LABEL'),
}
ATTRIBUTES = ('uuid',) + tuple(k for k, v in MORE_PLACES.items() if len(v) > 3)


def block(E, elem):
    return E.Unit('N', introduction=E.DocumentationBlock(elem))


def inline(E, elem):
    return E.Unit('N', desc=PARAGRAPH(E.LanguageOverviewParagraph(ar_enum.Language.EN, [elem])))


def part(x):
    return x.desc.elements[0].parts[0]


def placed(place, text):
    """An element with the text, and how to get at it again"""
    E = ar_element
    if place in MORE_PLACES:
        make, get, path = MORE_PLACES[place][:3]
        return make(E, text), get, path
    if place == 'category':
        return E.Unit('N', category=text), lambda x: x.category, './/CATEGORY'
    if place == 'desc':
        return (E.Unit('N', desc=PARAGRAPH((ar_enum.Language.EN, text))), lambda x: x.desc.elements[0].parts[0],
                './/DESC/L-2')
    if place == 'long_name':
        return (E.Unit('N', long_name=E.MultilanguageLongName((ar_enum.Language.EN, text))),
                lambda x: x.long_name.elements[0].parts[0], './/LONG-NAME/L-4')
    if place == 'uuid':
        return E.Unit('N', uuid=text), lambda x: x.uuid, './/UNIT'
    if place == 'value':
        return (E.ConstantSpecification('N', E.TextValueSpecification(value=text)), lambda x: x.value.value, './/VALUE')
    if place == 'encoding':
        return E.SwBaseType('N', encoding=text), lambda x: x.encoding, './/BASE-TYPE-ENCODING'
    if place == 'native':
        return (E.SwBaseType('N', native_declaration=text), lambda x: x.native_declaration,
                './/NATIVE-DECLARATION')
    if place == 'unit_name':
        return (E.Unit('N', display_name=E.SingleLanguageUnitNames(text)), lambda x: x.display_name.parts[0],
                './/DISPLAY-NAME')
    if place == 'origin':
        return (E.Unit('N', annotations=E.Annotation(origin=text)), lambda x: x.annotations[0].origin,
                './/ANNOTATION-ORIGIN')
    if place == 'symbol':
        return (E.ImplementationDataType('N', symbol_props=E.SymbolProps('S', text)), lambda x: x.symbol_props.symbol,
                './/SYMBOL')
    if place == 'type_emitter':
        return E.ImplementationDataType('N', type_emitter=text), lambda x: x.type_emitter, './/TYPE-EMITTER'
    assert place == 'reference'
    return (E.SwcImplementation('N', behavior_ref=E.SwcInternalBehaviorRef('/' + text)),
            lambda x: str(x.behavior_ref)[1:], './/BEHAVIOR-REF')


def document_of(elem):
    doc = ar_document.Document()
    pkg = ar_element.Package('P')
    doc.append(pkg)
    pkg.append(elem)
    return doc


def t_text(ctx, place, lo, hi, long=False):
    text = ctx.text('text', lo, hi, 'xml')
    if long:
        # spaces, line ends and markup far from the beginning
        text = 'word & word\n  word <' * 25 + text + ' ]]> "word"\tword' * 25 + '.'
    elem, get, path = placed(place, text)
    ctx.check(ctx.eq(get(elem), text), 'stored text')
    doc = document_of(elem)
    xml = autosar.xml.Writer().write_str(doc)
    # what any XML parser finds in the document
    root = etree.fromstring(bytes(xml, encoding='utf-8'))
    nodes = root.findall(path)
    ctx.check(len(nodes) == 1, 'elements in the document')
    found = nodes[0].text
    if place in ATTRIBUTES:
        found = nodes[0].get('UUID' if place == 'uuid' else MORE_PLACES[place][3])
    if place == 'reference':
        found = found[1:]
    ctx.check(found is not None and ctx.eq(found, text), 'text in the document')
    back = autosar.xml.Reader().read_str(xml)
    ctx.check(len(back.packages) == 1 and len(back.packages[0].elements) == 1, 'element lost')
    got = get(back.packages[0].elements[0])
    ctx.check(isinstance(got, str) and ctx.eq(got, text), 'text read back')
    ctx.reach('end')


ESCAPES = {'&amp;': '&', '&lt;': '<', '&gt;': '>', '&quot;': '"', '&apos;': "'", '&#65;': 'A', '&#x42;': 'B',
           '<![CDATA[<&]]>': '<&', '&#13;': '\r', ']]&gt;': ']]>'}


def t_spelling(ctx, place):
    """However a text is spelled in XML, the same text is read and written again"""
    before, after = ctx.text('a', 0, 1, 'safe'), ctx.text('b', 0, 1, 'safe')
    spelling = ctx.pick('spelling', [s for s in sorted(ESCAPES) if place not in ATTRIBUTES or '<' not in s])
    text = before + ESCAPES[spelling] + after
    elem, get, path = placed(place, 'MARK')
    xml = autosar.xml.Writer().write_str(document_of(elem))
    ctx.check(xml.count('MARK') == 1, 'text written once')
    back = autosar.xml.Reader().read_str(xml.replace('MARK', before + spelling + after))
    got = get(back.packages[0].elements[0])
    ctx.check(isinstance(got, str) and ctx.eq(got, text), 'text read')
    again = autosar.xml.Reader().read_str(autosar.xml.Writer().write_str(back))
    ctx.check(ctx.eq(get(again.packages[0].elements[0]), text), 'text written and read again')
    ctx.reach('end')


# ---- P02

MARK = 7319


def numeric_fields():
    """(class, field, kind) of every plain number and boolean in the model"""
    out = []
    for name in sorted(spec.CLASSES):
        if name == 'ModeRequestTypeMap':
            continue
        for f in spec.CLASSES[name].fields:
            if f.kind in ('i', 'u', 'n', 'f', 'b') and not f.required:
                out.append((name, f.key, f.kind))
    return out


def host(ctx, name, key, value):
    """XML of an object with the field set, as pieces around the value, and a function to read a new text"""
    b = Builder(ctx)
    obj, _ = b.make(name, 'x', {key: 'mark'}, 'mark')
    setattr(obj, key, value)
    outer, whole, get = wrapped(name, obj)
    xml = write(outer, whole)
    mark = '>' + (str(value).lower() if isinstance(value, bool) else str(value)) + '<'
    parts = xml.split(mark)
    ctx.check(len(parts) == 2, 'value written once')

    def again(text):
        return getattr(get(read(outer, parts[0] + '>' + text + '<' + parts[1])), key)
    return again


def digits_value(text, base):
    v = 0
    for ch in text:
        o = ord(ch)
        d = o - 48
        if base == 16:
            if o >= 97:
                d = o - 87
            elif o >= 65:
                d = o - 55
        v = v * base + d
    return v


def integer_text(ctx, tag, signs, deep):
    """A text of AR:INTEGER and its value"""
    form = ctx.pick(tag + '?form', ['dec', 'zero', 'hex', 'bin', 'oct'])
    more = 3 if deep else 2
    if form == 'zero':
        return '0', 0
    if form == 'dec':
        sign = ctx.pick(tag + '?sign', signs)
        body = ctx.text(tag, 1, more + 1, 'digit', first='first')
        v = digits_value(body, 10)
        return sign + body, -v if sign == '-' else v
    if form == 'hex':
        body = ctx.text(tag, 1, more, 'hexall')
        return ctx.pick(tag + '?x', ['0x', '0X']) + body, digits_value(body, 16)
    if form == 'bin':
        body = ctx.text(tag, 1, more + 1, 'bin')
        return ctx.pick(tag + '?b', ['0b', '0B']) + body, digits_value(body, 2)
    body = ctx.text(tag, 1, more, 'oct')
    return '0' + body, digits_value(body, 8)


SPECIAL = {'INF': float('inf'), '-INF': float('-inf'), 'NaN': float('nan')}


def real_text(ctx, tag):
    """A text of a floating point number and its value"""
    form = ctx.pick(tag + '?form', ['special', 'repr', 'plus', 'upper'])
    if form == 'special':
        name = ctx.pick(tag, sorted(SPECIAL))
        return name, SPECIAL[name]
    v = ctx.float(tag, [(1, 1), (2, 1), (3, 1), (3, 2), (2, -2), (2, -5), (1, 17), (3, 20), (17, 3)], special=False)
    text = repr(v)
    if form == 'plus':
        ctx.assume(ctx.cmp('gt', v, 0))
        text = '+' + text
    elif form == 'upper':
        text = text.replace('e', 'E')
    return text, v


def t_number(ctx, name, key, kind, deep):
    again = host(ctx, name, key, MARK)
    if kind in ('n', 'f') and ctx.flag('real'):
        text, v = real_text(ctx, 'v')
    else:
        signs = ['', '+'] if kind == 'u' else ['', '+', '-']
        if kind == 'f':
            sign = ctx.pick('sign', signs)
            text = sign + ctx.text('v', 1, 3, 'digit', first='first')
            v = digits_value(text[len(sign):], 10)
            v = -v if sign == '-' else v
        else:
            text, v = integer_text(ctx, 'v', signs, deep)
    got = again(text)
    ctx.check(isinstance(got, (int, float)) and not isinstance(got, bool), 'not a number')
    if kind in ('i', 'u'):
        ctx.check(isinstance(got, int), 'not an integer')
    ctx.check(ctx.eq(got, v), 'value')
    ctx.reach('end')


def t_no_number(ctx, name, key, kind):
    """What is not a number is not read as one"""
    again = host(ctx, name, key, MARK)
    form = ctx.pick('form', ['letters', 'tail', 'two'] + (['fraction'] if kind in ('i', 'u') else []))
    if form == 'letters':
        text = ctx.text('v', 1, 2, 'letters')
    elif form == 'tail':
        text = ctx.text('v', 1, 2, 'digit') + ctx.text('t', 1, 1, 'letters')
    elif form == 'fraction':
        text = ctx.text('v', 1, 1, 'digit') + '.' + ctx.text('t', 1, 1, 'digit')
    else:
        text = ctx.text('v', 1, 1, 'digit') + ctx.text('s', 1, 1, 'between') + ctx.text('t', 1, 1, 'digit')
    try:
        got = again(text)
    except (ar_exception.ParseError, ValueError, TypeError):
        ctx.reach('end')
        return
    ctx.check(not isinstance(got, (int, float)), 'a number was read')
    ctx.reach('end')


def t_negative(ctx, name, key):
    """Negative values of unsigned fields are refused in XML"""
    again = host(ctx, name, key, MARK)
    text = '-' + ctx.text('v', 1, 3, 'digit', first='first')
    try:
        got = again(text)
    except (ar_exception.ParseError, ValueError, TypeError):
        ctx.reach('end')
        return
    ctx.fail('negative number accepted: ' + type(got).__name__)


def t_bool(ctx, name, key):
    again = host(ctx, name, key, ctx.flag('marked'))
    text = ctx.text('v', 1, 5, 'letters01')
    try:
        got = again(text)
    except (ar_exception.ParseError, ValueError):
        got = None
    if ctx.test(ctx.any([ctx.eq(text, '1'), ctx.eq(text, 'true')])):
        ctx.check(got is True, 'true')
    elif ctx.test(ctx.any([ctx.eq(text, '0'), ctx.eq(text, 'false')])):
        ctx.check(got is False, 'false')
    else:
        ctx.check(got is None, 'no boolean, but something was read')
    ctx.reach('end')


def t_numerical_value(ctx, deep):
    """NumericalValue takes every notation and keeps the format"""
    F = ar_enum.ValueFormat
    if ctx.flag('text'):
        if ctx.flag('real'):
            text, v = real_text(ctx, 'v')
        else:
            text, v = integer_text(ctx, 'v', ['', '+', '-'], deep)
        n = ar_element.NumericalValue(text)
        low = text.lower()
        want = F.HEXADECIMAL if low.startswith('0x') else F.BINARY if low.startswith('0b') else None
        if want is not None:
            ctx.check(n.value_format is want, 'format')
        else:
            ctx.check(n.value_format in (F.DEFAULT, F.DECIMAL, F.SCIENTIFIC), 'format')
    else:
        v = ctx.num('v')
        fmt = ctx.pick('fmt', list(F))
        n = ar_element.NumericalValue(v, fmt)
        ctx.check(n.value_format is fmt, 'format given')
    ctx.check(ctx.eq(n.value, v), 'value')
    w = ctx.int('w')
    n.value = w
    ctx.check(ctx.eq(n.value, w), 'value set')
    ctx.reach('end')


def t_positive(ctx, deep):
    """PositiveIntegerValue takes exactly the non-negative integers"""
    if ctx.flag('text'):
        text, v = integer_text(ctx, 'v', ['', '+', '-'], deep)
        arg = text
    else:
        arg = v = ctx.int('v')
    try:
        n = ar_element.PositiveIntegerValue(arg)
    except (ValueError, TypeError):
        ctx.check(ctx.cmp('lt', v, 0), 'refused')
        ctx.reach('end')
        return
    ctx.check(ctx.cmp('ge', v, 0), 'negative value accepted')
    ctx.check(ctx.eq(n.value, v), 'value')
    ctx.reach('end')


def t_formatted(ctx, where):
    """A number in any format is written in a notation which stands for the same number"""
    F = ar_enum.ValueFormat
    fmt = ctx.pick('fmt', list(F))
    v = ctx.int('v', -2 ** 63, 2 ** 63)
    if fmt not in (F.HEXADECIMAL, F.BINARY) and ctx.flag('real'):
        v = ctx.float('r', special=False)
    if fmt in (F.HEXADECIMAL, F.BINARY):
        # the solver needs a bound on the number of digits: small numbers and those around greater ones
        near = ctx.pick('near', [0, 2 ** 16, 2 ** 32, -2 ** 31])
        width = (4096 if fmt is F.HEXADECIMAL else 64) if near == 0 else 16
        ctx.assume(ctx.all([ctx.cmp('lt', v, near + width), ctx.cmp('gt', v, near - width)]))
    n = ar_element.NumericalValue(v, fmt)
    if where == 'SwValues':
        obj = ar_element.SwValues([n])
    else:
        obj = ar_element.ValueList([n])
    xml = write(where, obj)
    text = xml.split('<V>')[1].split('</V>')[0]
    body = text[1:] if text[0:1] == '-' else text
    if fmt is F.HEXADECIMAL:
        ctx.check(re.fullmatch('0[xX][0-9a-fA-F]+', body) is not None, 'hexadecimal notation')
    elif fmt is F.BINARY:
        ctx.check(re.fullmatch('0[bB][01]+', body) is not None, 'binary notation')
    elif fmt is F.SCIENTIFIC:
        ctx.check('e' in body.lower(), 'scientific notation')
    back = read(where, xml)
    ctx.check(len(back.values) == 1, 'number of values')
    got = back.values[0]
    if isinstance(got, ar_element.NumericalValue):
        ctx.check(fmt in (F.HEXADECIMAL, F.BINARY, F.SCIENTIFIC) and got.value_format is fmt, 'format read back')
        got = got.value
    else:
        ctx.check(fmt not in (F.HEXADECIMAL, F.BINARY), 'format lost')
    ctx.check(ctx.eq(got, v), 'value')
    ctx.reach('end')


# ---- P03

# members whose text is not the name with dashes
TEXTS = {
    'ByteOrder': {'BIG_ENDIAN': 'MOST-SIGNIFICANT-BYTE-FIRST', 'LITTLE_ENDIAN': 'MOST-SIGNIFICANT-BYTE-LAST'},
    'DisplayPresentation': {'CONTINUOUS': 'PRESENTATION-CONTINUOUS', 'DISCRETE': 'PRESENTATION-DISCRETE'},
    'IdentifiableSubTypes': {'E2E_PROFILE_COMPATIBILITY_PROPS': 'E-2-E-PROFILE-COMPATIBILITY-PROPS'},
    'ServerArgImplPolicy': {'USE_ARRAY_BASED_TYPE': 'USE-ARRAY-BASE-TYPE'},
    'ServiceKind': {'J1939_DCM': 'J-1939-DCM', 'J1939_REQUEST_MANAGER': 'J-1939-REQUEST-MANAGER',
                    'V2X_FACILITIES': 'V-2-X-FACILITIES', 'V2X_MANAGEMENT': 'V-2-X-MANAGEMENT'},
}
# further texts that stand for a member
ALIASES = {'CalibrationAxisCategory': {'COM_AXIS': 'COM_AXIS', 'CURVE_AXIS': 'CURVE_AXIS', 'FIX_AXIS': 'FIX_AXIS',
                                       'RES_AXIS': 'RES_AXIS', 'STD_AXIS': 'STD_AXIS'}}
# schema versions in which the enumeration exists
VERSIONS = {'ArrayImplPolicy': (49, 50, 51)}
ENUMS = ['ArgumentDirection', 'ArrayImplPolicy', 'ArraySizeHandling', 'ArraySizeSemantics', 'ByteOrder',
         'CalibrationAxisCategory', 'DataFilterType', 'DataTransformationErrorHandling',
         'DataTransformationStatusForwarding', 'DisplayPresentation', 'EmphasisType', 'EmphasisFont', 'Float',
         'HandleInvalid', 'HandleOutOfRange', 'HandleOutOfRangeStatus', 'HandleTimeout', 'IdentifiableSubTypes',
         'IntervalType', 'KeepWithPrevious', 'Language', 'ModeActivationKind', 'ModeErrorReactionPolicy', 'Monotony',
         'PageBreak', 'PageWide', 'ReentrancyLevel', 'RteApiReturnValueProvision', 'ScaleConstraintValidity',
         'ServerArgImplPolicy', 'ServiceKind', 'SupportBufferLocking', 'SwCalibrationAccess', 'SwImplPolicy',
         'TransmissionMode', 'VariableAccessScope']


def texts_of(enum):
    """text -> member, main texts only and with aliases"""
    cls = getattr(ar_enum, enum)
    main = {}
    for m in cls:
        main[TEXTS.get(enum, {}).get(m.name, m.name.replace('_', '-'))] = m
    every = dict(main)
    for t, n in ALIASES.get(enum, {}).items():
        every[t] = cls[n]
    return main, every


def t_member(ctx, enum):
    """Every member has its own text in every schema version that has it"""
    cls = getattr(ar_enum, enum)
    main, every = texts_of(enum)
    ctx.check(len(main) == len(list(cls)), 'members')
    text = ctx.pick('text', sorted(every))
    member = every[text]
    for version in (ctx.int('version', 40, 60), ctx.int('version asked next', 40, 60)):
        want = True
        if enum in VERSIONS:
            want = ctx.test(ctx.any([ctx.eq(version, v) for v in VERSIONS[enum]]))
        try:
            got = ar_enum.xml_to_enum(enum, text, version)
            ctx.check(want, 'read in a version which lacks it')
            ctx.check(got is member, 'another member was read')
        except ar_exception.VersionError:
            ctx.check(not want, 'not read in a version which has it')
        try:
            out = ar_enum.enum_to_xml(member, version)
            ctx.check(want, 'written in a version which lacks it')
            ctx.check(isinstance(out, str), 'text')
            ctx.check(ctx.eq(out, text) if text in main else every.get(out) is member, 'another text was written')
        except ar_exception.VersionError:
            ctx.check(not want, 'not written in a version which has it')
    if enum not in VERSIONS or 51 in VERSIONS[enum]:
        ctx.check(ar_enum.xml_to_enum(enum, text) is member, 'read in the default version')
        ctx.check(every.get(ar_enum.enum_to_xml(member)) is member, 'written in the default version')
    ctx.reach('end')


def t_any_text(ctx, enum, lengths):
    """A text stands for a member only when it is one of its texts"""
    _, every = texts_of(enum)
    n = ctx.pick('length', lengths)
    text = ctx.text('text', n, n, 'print')
    try:
        got = ar_enum.xml_to_enum(enum, text)
    except (KeyError, ValueError, ar_exception.ParseError):
        got = None
    want = None
    for t, m in every.items():
        if len(t) == n and ctx.test(ctx.eq(text, t)):
            want = m
            break
    ctx.check(got is want, 'another member' if want is not None else 'a member for a text of none')
    ctx.reach('end')


ENUM_FIELDS = [(n, f.key, f.kind[2:]) for n in sorted(spec.CLASSES) for f in spec.CLASSES[n].fields
               if f.kind.startswith('e:') and n != 'ModeRequestTypeMap']


def t_enum_field(ctx, name, key, enum):
    """The field holds the member of its own enumeration for every text of it, and nothing for other texts"""
    main, every = texts_of(enum)
    b = Builder(ctx)
    obj, _ = b.make(name, 'x', {key: 'mark'}, 'mark')
    member = getattr(obj, key)
    outer, whole, get = wrapped(name, obj)
    xml = write(outer, whole)
    word = next(t for t, m in main.items() if m is member)
    parts = None
    for a, z in (('>', '<'), ('"', '"')):
        if xml.count(a + word + z) == 1:
            parts = xml.split(a + word + z)
            parts = (parts[0] + a, z + parts[1])
            break
    if parts is None:
        ctx.check(word in xml, 'value written')
        ctx.reach('end')
        return
    text = ctx.pick('text', sorted(every) + [''])
    if text == '':
        # one of the texts with one character replaced
        base = ctx.pick('base', sorted(main))
        at = ctx.pick('at', [0, len(base) // 2, len(base) - 1])
        ch = ctx.text('ch', 1, 1, 'upper')
        ctx.assume(ctx.no(ctx.eq(ch, base[at])))
        text = base[:at] + ch + base[at + 1:]
        for t in every:
            if len(t) == len(text):
                ctx.assume(ctx.no(ctx.eq(text, t)))
        try:
            got = getattr(get(read(outer, parts[0] + text + parts[1])), key)
        except (KeyError, ValueError, ar_exception.ParseError):
            got = None
        ctx.check(not isinstance(got, getattr(ar_enum, enum)), 'a member for a text of none')
    else:
        got = getattr(get(read(outer, parts[0] + text + parts[1])), key)
        ctx.check(got is every[text], 'another member was read')
    ctx.reach('end')


def cases(prop, tier):
    deep = tier == 'thorough'
    if prop == 'P01':
        hi = 5 if deep else 3
        out = [Case(f'text:{p}:{n}', t_text, place=p, lo=n, hi=n, limits={'weight': 4 ** n, 'max_paths': 200000})
               for p in TEXT_PLACES for n in range(1, (hi if p in ('category', 'uuid', 'desc') else 3) + 1)]
        out += [Case(f'text:{p}:{n}', t_text, place=p, lo=n, hi=n, limits={'weight': 4 ** n}) for p in MORE_PLACES
                for n in ((1, 2, 3) if deep else (1, 2))]
        out += [Case(f'long:{p}', t_text, place=p, lo=1, hi=1, long=True) for p in TEXT_PLACES + list(MORE_PLACES)]
        out += [Case(f'spelling:{p}', t_spelling, place=p) for p in TEXT_PLACES + list(MORE_PLACES)]
        return out
    if prop == 'P02':
        out = []
        for name, key, kind in numeric_fields():
            if kind == 'b':
                out.append(Case(f'bool:{name}.{key}', t_bool, name=name, key=key))
            else:
                out.append(Case(f'number:{name}.{key}', t_number, name=name, key=key, kind=kind, deep=deep))
                out.append(Case(f'nonumber:{name}.{key}', t_no_number, name=name, key=key, kind=kind))
                if kind == 'u':
                    out.append(Case(f'negative:{name}.{key}', t_negative, name=name, key=key))
        out.append(Case('NumericalValue', t_numerical_value, deep=deep))
        out.append(Case('PositiveIntegerValue', t_positive, deep=deep))
        out += [Case(f'formatted:{w}', t_formatted, where=w, limits={'weight': 9}) for w in ('SwValues', 'ValueList')]
        return out
    out = []
    for e in ENUMS:
        out.append(Case(f'member:{e}', t_member, enum=e))
        longest = max(len(t) for t in texts_of(e)[1])
        lengths = list(range(0, longest + 2))
        out.append(Case(f'text:{e}', t_any_text, enum=e, lengths=lengths))
    out += [Case(f'field:{n}.{k}', t_enum_field, name=n, key=k, enum=e) for n, k, e in ENUM_FIELDS]
    return out
