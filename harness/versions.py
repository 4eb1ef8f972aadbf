"""
What is written for a schema version is read back by a reader of that version (R10).
"""
import autosar.xml
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
from lxml import etree
from sx.case import Case
from harness import roundtrip, spec
from harness.build import Builder

# tags of the exclusive areas of executable entities: before and from version 50
AREAS = {'can_enter_leave': (('CAN-ENTER-EXCLUSIVE-AREA-REFS', 'CAN-ENTER-EXCLUSIVE-AREA-REF'),
                             ('CAN-ENTERS', 'EXCLUSIVE-AREA-REF-CONDITIONAL')),
         'runs_insides': (('RUNS-INSIDE-EXCLUSIVE-AREA-REFS', 'RUNS-INSIDE-EXCLUSIVE-AREA-REF'),
                          ('RUNS-INSIDES', 'EXCLUSIVE-AREA-REF-CONDITIONAL'))}
FILES = (47, 48, 49, 50, 51)


def check_areas(ctx, xml, key, new):
    """The tags of the exclusive areas are those of the version"""
    root = etree.fromstring(bytes(xml, encoding='utf-8'))
    tags = [e.tag.split('}')[-1] for e in root.iter() if isinstance(e.tag, str)]
    outer, inner = AREAS[key][1 if new else 0]
    ctx.check(tags.count(outer) == 1 and tags.count(inner) >= 1, 'tags of the exclusive areas')
    ctx.check(AREAS[key][0 if new else 1][0] not in tags, 'tags of another version')


def t_element(ctx, name):
    """Single elements: any version number"""
    keys = roundtrip.optional(name)
    key = ctx.pick('field', [''] + keys + (['all'] if len(keys) > 1 else []))
    version = ctx.int('version', 1, 99)
    if key == 'array_impl_policy' or (key == 'all' and 'array_impl_policy' in keys):
        # the members of this enumeration came with version 49
        ctx.assume(ctx.cmp('ge', version, 49))
        ctx.assume(ctx.cmp('le', version, 51))
    given = {k: 'mark' for k in keys} if key == 'all' else {key: 'mark'} if key else {}
    b = Builder(ctx)
    obj, match = b.make(name, 'x', given, 'mark')
    outer, whole, get = roundtrip.wrapped(name, obj)
    xml = autosar.xml.Writer(schema_version=version).write_str_elem(whole, roundtrip.TAGS.get(outer))
    if key in AREAS:
        check_areas(ctx, xml, key, ctx.test(ctx.cmp('ge', version, 50)))
    reader = autosar.xml.Reader(schema_version=version)
    back = reader.read_str_elem(xml, outer) if outer in roundtrip.READ_AS else reader.read_str_elem(xml)
    ctx.check(type(back) is type(whole), 'another class comes back')
    match(get(back), 'read back')
    match(obj, 'after writing')
    ctx.reach('end')


def t_documents(ctx, count):
    """Documents of several versions, one after the other, by one writer and one reader"""
    writer = autosar.xml.Writer(schema_version=ctx.pick('writer', [51, 49]))
    reader = autosar.xml.Reader(schema_version=ctx.pick('reader', [51, 49]))
    texts = []
    for i in range(count):
        version = ctx.pick(f'version{i}', list(FILES))
        b = Builder(ctx)
        key = ctx.pick(f'field{i}', sorted(AREAS))
        items = [b.make('ExclusiveAreaRefConditional', f'd{i}.{j}', {'exclusive_area': 'lite'}, 'mark')
                 for j in range(ctx.pick(f'areas{i}', [1, 2]))]
        swc = ar_element.ApplicationSoftwareComponentType('C')
        behavior = swc.create_internal_behavior('B')
        behavior.append_runnable(ar_element.RunnableEntity('R', **{key: [x for x, _ in items]}))
        doc = ar_document.Document(schema_version=version)
        doc.create_package('P').append(swc)
        xml = writer.write_str(doc, skip_root_attr=False)
        check_areas(ctx, xml, key, version >= 50)
        texts.append((xml, version, key, items))
    order = ctx.pick('order', [texts, texts[::-1]]) if count > 1 else texts
    for xml, version, key, items in order:
        doc = reader.read_str(xml)
        ctx.check(doc.schema_version == version, 'schema version')
        runnable = doc.packages[0].elements[0].internal_behavior.runnables[0]
        got = getattr(runnable, key)
        ctx.check(len(got) == len(items), 'number of exclusive areas')
        for x, (_, match) in zip(got, items):
            match(x, 'exclusive area')
        for other in AREAS:
            ctx.check(other == key or getattr(runnable, other) == [], 'exclusive areas of another kind')
    ctx.reach('end')


def cases(prop, tier):
    out = []
    for group in roundtrip.GROUPS.values():
        for name in group.split():
            out.append(Case(f'elem:{name}', t_element, name=name, limits={'weight': 2 + len(spec.CLASSES[name].fields)}))
    for n in (1, 2, 3) if tier == 'thorough' else (1, 2):
        out.append(Case(f'docs:{n}', t_documents, count=n, limits={'weight': 9 ** n}))
    return out
