"""
The properties: statement, quantifier, anchors, bounds and assumptions.  properties.jsonl and
MANIFEST.json are generated from here by tools/mkdocs.py.
"""

ENGINE = [
    'CPython 3.12 semantics as reproduced by the engine: the Python source of autosar, cfile and the harness runs '
    'natively with calls, comparisons, subscripts and displays redirected to symbolic models; str, int, float, re, '
    'decimal, dict and set operations on symbolic operands follow those models',
    'lxml is trusted: it parses the written document natively after every symbolic character that has a meaning to an '
    'XML parser has been fixed by forking; other characters pass through as character data',
    'sampled path models are replayed on the uninstrumented code in the same run, and so is every counterexample: '
    'only a reproduced one is reported',
]

RT_BOUNDS = (
    'One object per run, every optional field alone in every accepted form ("each"), every pair of optional fields '
    '("pairs") and all fields or all but one ("most"); in thorough mode also all triples and lists of 3. Texts: 1..2 '
    'symbolic characters over all XML characters (3 in thorough); names 1..2 identifier characters; integers in '
    '-2^64..2^64; floats: sign, 9 digit/exponent shapes with 1..17 symbolic digits, INF, -INF, NaN, 0; every member '
    'of every enumeration; every accepted reference destination; lists of 1..2 elements, equal ones too, and of 13 with one symbolic '
    'element ("long"); texts and paths of 300..500 characters with one symbolic; types, values and groups nested 7 to 9 '
    'times ("deep").')
RT_OUTSIDE = (
    'Long texts and lists of which more than one part is symbolic, negative zero, floats of other digit shapes, documented '
    'unsupported elements (variation points, admin data writing, life cycle).')
RT_FILES = ['src/autosar/xml/element.py', 'src/autosar/xml/writer.py', 'src/autosar/xml/reader.py',
            'src/autosar/xml/enumeration.py', 'src/autosar/xml/reference.py']


def rt(title, what, regions):
    return {
        'title': title,
        'statement': f'Writing {what} as XML and reading that XML back gives an object of the same class with the same '
                     'value in every field, whichever combination of optional fields was set and whatever their '
                     'values, and with nothing set that was never given. Writing neither changes the object nor '
                     'depends on anything but its content: writing the copy gives the same text.',
        'over': ['inputs'],
        'quantifier': 'for every object that the public constructors accept: every combination of optional fields, '
                      'every text, number, enumeration member, reference kind and list',
        'why': 'The tests write one or two hand-picked values per field, mostly one field at a time and never markup '
               'characters, large numbers, zero or false values; a field dropped, misplaced or misread for other '
               'values or in combination passes them.',
        'files': RT_FILES,
        'mechanism': [{'name': n, 'where': w} for n, w in regions],
        'observe_at': ['Writer.write_str_elem and Reader.read_str_elem: fields of the object read back, text written'],
        'module': 'harness.roundtrip',
        'bounds': RT_BOUNDS, 'outside': RT_OUTSIDE, 'assumptions': ENGINE,
        'technique': 'symbolic execution of writer and reader with Z3, round-trip assertion per field',
    }


PROPS = {
    'R01': rt('Documentation texts survive writing and reading', 'any documentation text, long name or annotation',
              [('documentation elements, mixed content', 'element.py, writer.py and reader.py: documentation elements'),
               ('escaping of character data and attributes', 'writer.py _XMLWriter')]),
    'R02': rt('Computation methods, constraints and units survive writing and reading',
              'any computation method, data constraint or unit',
              [('compu methods, scales, rationals', 'writer.py/reader.py: CompuMethod elements'),
               ('limits and interval types', 'writer.py _write_limit, reader.py _read_limit'),
               ('number formatting', 'writer.py _format_number, reader.py _read_number')]),
    'R03': rt('Data types and their properties survive writing and reading',
              'any data type, type mapping, data prototype or set of data definition properties',
              [('SwDataDefProps and its conditional variants', 'writer.py/reader.py: data definition properties'),
               ('implementation and application data types', 'writer.py/reader.py: data type elements')]),
    'R04': rt('Constants, values and calibration data survive writing and reading',
              'any value specification, constant or calibration value',
              [('value specifications', 'writer.py/reader.py: constant elements'),
               ('calibration values and axes', 'writer.py/reader.py: calibration elements')]),
    'R05': rt('Port interfaces and mode declarations survive writing and reading',
              'any port interface, operation, mode declaration group or mode transition',
              [('port interfaces', 'writer.py/reader.py: port interface elements'),
               ('mode declarations', 'writer.py/reader.py: mode declaration elements')]),
    'R06': rt('Software components, ports and connectors survive writing and reading',
              'any software component, port, communication specification or connector',
              [('ports and com-specs', 'writer.py/reader.py: software component elements'),
               ('connectors', 'writer.py/reader.py: connector elements')]),
    'R07': rt('Internal behavior survives writing and reading',
              'any internal behavior with its runnables, events, access points and port options',
              [('runnables and access points', 'writer.py/reader.py: internal behavior elements'),
               ('events', 'writer.py/reader.py: RTE event elements')]),
}

NAMES = ['src/autosar/xml/element.py', 'src/autosar/xml/workspace.py', 'src/autosar/xml/document.py',
         'src/autosar/xml/reference.py']
SYM = 'symbolic execution of the real code with Z3'

PROPS['N01'] = {
    'title': 'A name is used once per container, and containers hold what was put in',
    'statement': 'In a workspace, document or package no two packages or elements ever have the same name: a second one '
                 'is refused and leaves everything as it was, while making an existing package path gives the '
                 'packages that are there. What was accepted is kept in order, is found by its name, is given by the '
                 'filters its name fits and no others, and has the container as its parent.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every sequence of appending elements, appending packages, creating packages and making package '
                  'paths, with any names',
    'why': 'Whether two names clash depends on the history of calls and on which of the names are equal; the tests '
           'only add a few fixed, different names.',
    'files': NAMES,
    'mechanism': [{'name': 'packages and elements of a package', 'where': 'element.py Package, PackageCollection'},
                  {'name': 'package maps', 'where': 'workspace.py Workspace'}],
    'observe_at': ['append, create_package, make_packages, find, filter, filter_regex; packages, elements and parent'],
    'module': 'harness.names',
    'bounds': 'Histories of 3 operations (4 in thorough) in five kinds of container with names of 1..2 identifier '
              'characters each, so that every equality pattern of the names occurs; 3 package paths of 1..2 names; 7 patterns. '
              'Containers of 12 items with a name of one letter and 1..2 symbolic digits added.',
    'outside': 'Longer histories and names; adding the same object twice; removing items.',
    'assumptions': ENGINE, 'technique': SYM + ', container compared with a list of accepted items',
}
PROPS['N02'] = {
    'title': 'References name their element: path, destination and find agree',
    'statement': 'For every element placed in a package tree, ref() gives the path of short names from the top package '
                 'down to it and the destination type of its class, and before it is placed there is no reference. '
                 'find with that path or reference gives the very same object, and with a path that differs '
                 'in a name gives nothing or the element with that name.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every class that can be referenced, every way of nesting it, every order of placing and nesting, '
                  'all names, and also after writing and reading the document',
    'why': 'The tests make references to a few classes with fixed different names; a wrong destination, a lost parent '
           'or a search stopping at a prefix of a name shows only for other classes, orders or names.',
    'files': NAMES + ['src/autosar/xml/reader.py'],
    'mechanism': [{'name': 'references', 'where': 'element.py Identifiable.ref, Referrable, *_ref classes'},
                  {'name': 'search', 'where': 'element.py PackageCollection.find, Package.find, element find methods'}],
    'observe_at': ['ref(), str() and dest of the reference, find(), root_collection(), parent'],
    'module': 'harness.names',
    'bounds': 'Every referable class in chains of up to 4 nested elements below 1 or 2 packages, every way of nesting, '
              'names of 1 symbolic identifier character (2 for created elements); workspace, document and '
              'read-back document. '
              'Paths of 9 packages with a symbolic name at any place.',
    'outside': 'Elements that find does not look into by design (children of port interfaces and behaviors) need not be '
               'found, but nothing else may be found in their place.',
    'assumptions': ENGINE, 'technique': SYM + ', paths compared with the names given',
}
PROPS['N03'] = {
    'title': 'Automatically made names are unique and follow the given name',
    'statement': 'Access points appended to a runnable and events created in a behavior always have pairwise different '
                 'names in their list. Each name is the given or generated base name, or that name with an underscore '
                 'and a number, and items whose names do not clash keep theirs.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every sequence of items and all names, also names that look like generated ones',
    'why': 'A clash needs particular names in a particular order, such as an item already called X_1 when X is added '
           'twice.',
    'files': ['src/autosar/xml/element.py'],
    'mechanism': [{'name': 'unique names', 'where': 'element.py make_unique_name_in_list'},
                  {'name': 'access points and events', 'where': 'element.py RunnableEntity.append_*, '
                                                               'SwcInternalBehavior.create_*_event'}],
    'observe_at': ['names in the lists of the runnable and of the behavior'],
    'module': 'harness.names',
    'bounds': 'Lists of 3 items (4 in thorough); names of 1..2 symbolic identifier characters or a base name with an '
              'underscore and 1..2 symbolic digits; 13 access point lists; 3 kinds of event. '
              'Lists of 12 items of one name and a symbolic one added.',
    'outside': 'Longer lists and names; more than one list.',
    'assumptions': ENGINE, 'technique': SYM + ', pairwise inequality of names as the assertion',
}

VALUES = ['src/autosar/xml/writer.py', 'src/autosar/xml/reader.py', 'src/autosar/xml/element.py']
PROPS['P01'] = {
    'title': 'Every text reaches the document and comes back unchanged',
    'statement': 'The document written for any text of legal XML characters is well-formed, and any XML parser finds '
                 'exactly that text at its place. However a document spells a text (character references, '
                 'entities, CDATA) it is read as the text it stands for, and written again so that it still is.',
    'over': ['inputs'],
    'quantifier': 'for every text in every kind of place: element content, attributes, mixed content, references',
    'why': 'A single character or sequence (markup, quotes, line ends, spaces at an end) can be escaped or trimmed '
           'wrongly; the tests only write letters.',
    'files': VALUES,
    'mechanism': [{'name': 'escaping', 'where': 'writer.py _XMLWriter'},
                  {'name': 'content of elements', 'where': 'reader.py ChildElementMap and text readers'}],
    'observe_at': ['Writer.write_str; the text seen by lxml; Reader.read_str'],
    'module': 'harness.values',
    'bounds': '27 places, 15 of them in documentation or attributes with texts up to 2; texts of 1..3 symbolic characters out of all of XML 1.0 (5 for category, description and '
              'uuid in thorough mode); 10 spellings between 0..1 symbolic characters on both sides. '
              'Texts of 1000 characters with markup and white space and one symbolic character in the middle.',
    'outside': 'Longer texts; encodings other than UTF-8; the empty text.',
    'assumptions': ENGINE, 'technique': SYM + ', text compared with what lxml parses and the reader returns',
}
PROPS['P02'] = {
    'title': 'Numbers and booleans keep their value in every notation',
    'statement': 'Every number field reads each AUTOSAR notation (decimal with sign, hexadecimal, binary, octal, '
                 'floating point, INF, -INF, NaN) as exactly its value and refuses or keeps as text what is no number; '
                 'boolean fields read exactly true, false, 1 and 0. A number given any format is written in that '
                 'notation and read back with the same value.',
    'over': ['inputs'],
    'quantifier': 'for every number or boolean field of the model, every notation and every value',
    'why': 'Each field has its own code path; the tests use one small decimal number in most of them.',
    'files': VALUES,
    'mechanism': [{'name': 'number readers', 'where': 'reader.py _read_integer, _read_number; element.py NumericalValue, '
                                                     'PositiveIntegerValue'},
                  {'name': 'number formatting', 'where': 'writer.py _format_number, _format_float, _format_boolean'}],
    'observe_at': ['fields of the object read from XML; text of V elements; NumericalValue.value'],
    'module': 'harness.values',
    'bounds': 'All 100+ optional number and boolean fields of the model; integers of 1..3 symbolic digits in every base '
              '(1..4 in thorough mode), floats of 9 digit/exponent shapes with up to 17 symbolic digits; formatted '
              'integers in -2^63..2^63 (hexadecimal |v| < 4096, binary |v| < 64); booleans: every text of 1..5 '
              'letters, 0 and 1.',
    'outside': 'Longer numbers; white space around numbers; negative zero.',
    'assumptions': ENGINE, 'technique': SYM + ', value computed by an independent digit sum',
}
PROPS['P03'] = {
    'title': 'Enumeration members and their texts match one to one',
    'statement': 'Every enumeration member is written as its own AUTOSAR text and that text is read as the same member, '
                 'in every schema version which has it, while versions without it are refused. Any other text '
                 'stands for no member, neither in the conversion nor in any field of the model.',
    'over': ['inputs'],
    'quantifier': 'for every enumeration, member, schema version, model field and text',
    'why': 'The tests check some members of some enumerations in the default schema version only.',
    'files': ['src/autosar/xml/enumeration.py'] + VALUES,
    'mechanism': [{'name': 'conversion tables', 'where': 'enumeration.py xml_to_enum_map, enum_to_xml_map, xml_to_enum, '
                                                         'enum_to_xml'},
                  {'name': 'enumeration fields', 'where': 'writer.py/reader.py: every use of enum_to_xml and '
                                                          'xml_to_enum'}],
    'observe_at': ['xml_to_enum, enum_to_xml; fields of the objects read'],
    'module': 'harness.values',
    'bounds': 'All 36 enumerations; all schema versions 40..60; every text of printable characters up to one character '
              'longer than the longest text; every enumeration field with every text and every text with one '
              'character replaced.',
    'outside': 'Longer texts and other characters.',
    'assumptions': ENGINE, 'technique': SYM + ', texts compared with the names the standard gives them',
}
DOCS = ['src/autosar/xml/document.py', 'src/autosar/xml/workspace.py']
PROPS['R08'] = {
    'title': 'Package trees and the common parts of all elements survive a round trip',
    'statement': 'A document written to a file or a string and read back has the same schema version and the same tree '
                 'of packages and elements, with the same names in the same order and the right parents. On each '
                 'package and each identifiable element, whatever its class, category, uuid, description, long name, '
                 'introduction and annotations come back as given.',
    'over': ['inputs'],
    'quantifier': 'for every identifiable class and package, every combination of the common parts and their values, '
                  'every shape of tree, all names and schema versions',
    'why': 'Every class has its own writer and reader which must remember the common parts; the tests set them for a '
           'few classes, and build trees of one or two fixed packages.',
    'files': VALUES + DOCS,
    'mechanism': [{'name': 'common parts', 'where': 'writer.py/reader.py: identifiable, referrable and multi language '
                                                   'groups of every element'},
                  {'name': 'packages and documents', 'where': 'writer.py _write_packages, _write_document; reader.py '
                                                              '_read_packages, schema version detection'}],
    'observe_at': ['Writer.write_str/write_file, Reader.read_str/read_file: fields, packages, elements, schema_version'],
    'module': 'harness.docs',
    'bounds': 'Every identifiable class of the model; each common part alone in every form with symbolic values, and '
              'all of them or all but one; trees of up to 1 (2 in thorough mode) top packages with up to 2 sub '
              'packages and 2 elements each, names of 1 symbolic character; every schema version 40..99999. '
              'Packages of 13 packages or elements and 9 packages deep with one symbolic name at any place.',
    'outside': 'Larger trees; administrative data, which is not written.',
    'assumptions': ENGINE, 'technique': SYM + ', round-trip assertion per field and tree node',
}
PROPS['R09'] = {
    'title': 'Typed references only take, keep and read their own destinations',
    'statement': 'A reference of each kind can be made exactly with the destination types of its kind, by enumeration '
                 'member or default. Every reference field turns what it takes into its own kind with the same path '
                 'and destination and refuses a destination which is none of its own; in XML a reference is '
                 'read with its DEST exactly when that is one of its kind.',
    'over': ['inputs'],
    'quantifier': 'for every reference class, every reference field of every class, every destination and every path',
    'why': 'There are some forty kinds of references and about a hundred fields; a test samples one destination each '
           'and rarely a wrong one.',
    'files': ['src/autosar/xml/reference.py', 'src/autosar/xml/element.py', 'src/autosar/xml/reader.py',
              'src/autosar/xml/enumeration.py'],
    'mechanism': [{'name': 'reference classes', 'where': 'reference.py BaseRef and subclasses'},
                  {'name': 'reference fields', 'where': 'element.py constructors; reader.py _read_*_ref'}],
    'observe_at': ['class, dest and value of references; exceptions of constructors and of Reader.read_str_elem'],
    'module': 'harness.docs',
    'bounds': 'All reference classes and fields of the model; all members of the destination enumeration; DEST texts '
              'with one character replaced by any other; paths of 1..2 symbolic characters.',
    'outside': 'References to the unit in compu methods and physical constraints and those of data type maps, which take '
               'any object; longer paths.',
    'assumptions': ENGINE, 'technique': SYM + ', destinations compared with those the standard gives',
}
PROPS['R10'] = {
    'title': 'Every schema version keeps what was written for it',
    'statement': 'A model object written by a writer of any schema version, alone or in a document, is read back the '
                 'same by a reader of that version, whatever versions were handled before. Exclusive areas of '
                 'executable entities have the tags of the version: one set before 50, another from 50 on.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every class, field, schema version and sequence of versions',
    'why': 'The version decides deep inside the writer and the reader, in places that have to agree with each other; '
           'the tests use two versions with one class.',
    'files': ['src/autosar/xml/writer.py', 'src/autosar/xml/reader.py', 'src/autosar/xml/document.py'],
    'mechanism': [{'name': 'version of the writer', 'where': 'writer.py Writer._write_document, '
                                                             '_write_executable_entity'},
                  {'name': 'version of the reader', 'where': 'reader.py Reader._read_schema_version, '
                                                             '_read_executable_entity'}],
    'observe_at': ['Writer.write_str, write_str_elem, Reader.read_str, read_str_elem'],
    'module': 'harness.versions',
    'bounds': 'The version of single elements is a symbolic integer of 1..99; every class of R01..R07 with no, each '
              'and all of its fields; documents: all versions with a schema file (47..51), 2 (3) in sequence, with 1 '
              'or 2 exclusive areas of symbolic references.',
    'outside': 'Enumeration members that came with version 49 in documents before it, which the writer accepts.',
    'assumptions': ENGINE, 'technique': SYM + ', versions symbolic',
}
PROPS['D01'] = {
    'title': 'A workspace writes exactly the documents and content it was told to',
    'statement': 'write_documents writes one file per document with exactly the packages asked for, complete and at '
                 'their places, and for a mapping one file per element of its types with that element and those named '
                 'like it plus a suffix. Each file has the schema version asked for. Writing leaves the '
                 'workspace as it was, so that writing again gives the same files.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every choice of packages in every order, nested, repeated or missing, all names, filters and '
                  'element types, and writing twice',
    'why': 'Content lost, duplicated or moved out of the workspace depends on which packages are nested in each other '
           'and on names which end like others; the tests have one document each.',
    'files': DOCS,
    'mechanism': [{'name': 'documents', 'where': 'workspace.py Workspace.write_documents, create_document'},
                  {'name': 'document mappings', 'where': 'workspace.py Workspace.create_document_mapping'}],
    'observe_at': ['files in the document root, their content read back, packages of the workspace'],
    'module': 'harness.docs',
    'bounds': 'A workspace of 5 nested packages with 3 symbolic names; up to 2 (3) packages chosen out of 5 and one '
              'missing; mappings over 1..3 (4) elements with symbolic names of 2 characters and up to 2 suffixes of '
              '0..1 characters. '
              'Once 13 packages of up to 26 elements in documents and a mapping, in 13 orders.',
    'outside': 'Larger workspaces, file systems that refuse to write, sub directories.',
    'assumptions': ENGINE + ['files with symbolic names live in a scratch directory; equal names are one file'],
    'technique': SYM + ', files compared with the selection made',
}
PROPS['D02'] = {
    'title': 'Readers and writers can be reused: earlier documents leave no trace',
    'statement': 'A writer or reader that has already processed any other documents, elements or invalid input, '
                 'successfully or not, produces for the next document exactly the text, the model or the exception a '
                 'new writer or reader produces. The document written and the documents read before stay as '
                 'they were.',
    'over': ['histories', 'faults'],
    'quantifier': 'for every sequence of operations, including failing ones, over documents of different schema '
                  'versions and content',
    'why': 'State kept between documents (schema version, output buffer, indentation, reports, observed elements) '
           'shows only after a particular earlier document or failure; tests use new objects.',
    'files': VALUES + ['src/autosar/xml/document.py'],
    'mechanism': [{'name': 'writer state', 'where': 'writer.py _XMLWriter, Writer.write_str, write_file'},
                  {'name': 'reader state', 'where': 'reader.py Reader.read_str, read_file, _update_schema_version'}],
    'observe_at': ['Writer.write_str/write_file, Reader.read_str/read_file after other operations'],
    'module': 'harness.docs',
    'bounds': '1..2 operations (3 in thorough mode) out of 5 for writers and 6 for readers before the last document; 3 '
              'schema versions, names and texts of 1 symbolic character. '
              'Single elements of five classes in files after every such operation.',
    'outside': 'write_str_elem after a document (it keeps the schema version by design); threads.',
    'assumptions': ENGINE, 'technique': SYM + ', differential assertion between used and new object',
}
PROPS['D03'] = {
    'title': 'Namespaces, templates and configuration files put things where they say',
    'statement': 'The package of a role is the one its namespace gives, relative to its base; roles not given have '
                 'none. Applying a template creates its element once, after its dependencies, in the package of its '
                 'role, and applying it again gives the same element; a configuration file has exactly the '
                 'effect of the same settings made by calls.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every mapping of roles, form of path, name, base and dependency graph, order of application and '
                  'combination of configuration entries',
    'why': 'Tests use one namespace with ordinary names; relative and absolute paths, repeated application, templates '
           'of equal names and missing entries need particular combinations.',
    'files': ['src/autosar/xml/workspace.py', 'src/autosar/xml/template.py', 'src/autosar/xml/element.py'],
    'mechanism': [{'name': 'namespaces', 'where': 'workspace.py Namespace, get_package_ref_by_role, load_config'},
                  {'name': 'templates', 'where': 'template.py ElementTemplate, GenericTemplate; workspace.py apply'}],
    'observe_at': ['get_package_ref_by_role, apply, find, documents, document_mappings, behavior_settings'],
    'module': 'harness.docs',
    'bounds': 'Two namespaces with 1..2 roles and a custom one in 4 forms of path; 2..3 templates with up to 2 '
              'dependencies each, applied twice; own roles of 1..3 (4) printable '
              'characters; names of 1 symbolic character; 1 document, 1 mapping, up to 2 of 16 behavior settings. '
              'Also 13 templates which depend on each other in three shapes, generic templates among them, and files with 13 namespaces, documents and mappings.',
    'outside': 'Cyclic dependencies; invalid configuration files.',
    'assumptions': ENGINE + ['the TOML parser runs natively on names of identifier characters'],
    'technique': SYM + ', packages and elements compared with the names given',
}
PROPS['G01'] = {
    'title': 'A fault or unknown content costs at most the element it is in',
    'statement': 'Whatever is wrong or unknown within one element, reading a document gives all other elements '
                 'and packages; that element is read or skipped, and skipped only with a report, or with a parse error '
                 'when asked to stop. Unknown children leave what is known as it is and are reported once, unless '
                 'turned off; of several elements of one name the first is kept, the rest are reported.',
    'over': ['inputs', 'faults'],
    'quantifier': 'for every class at its place in a package element, every single fault (text, missing, renamed, '
                  'doubled or swapped element, wrong or missing attribute) at every place within, and unknown elements '
                  'at every place',
    'why': 'Every reader function meets faults in its own way; an exception of the wrong kind in one of them loses the '
           'whole document. Tests feed valid XML, and hardly any unknown elements.',
    'files': VALUES + DOCS,
    'mechanism': [{'name': 'faulty elements', 'where': 'reader.py _read_package_elements and all functions below'},
                  {'name': 'unknown elements', 'where': 'reader.py ChildElementMap, _report_unprocessed_elements'}],
    'observe_at': ['Reader.read_str with and without stop_on_error: document, exception, what is printed'],
    'module': 'harness.reading',
    'bounds': 'All 140 classes with all their fields, in two variants of the values; one fault at any of its nodes '
              'with text of 1 (2) symbolic characters; an unknown element at any place or at all of them; 3..4 (5) '
              'elements of symbolic names. '
              'Unsupported elements of the schema at 1..2 places in texts of 3..4 symbolic parts; administrative data of 1..2 groups in 3 elements.',
    'outside': 'XML that is not well formed; faults of packages themselves, such as a package without a name, which '
               'abort; several faults at once; unknown members of lists whose members must be known (events, com-specs, '
               'record and array values) make the element a faulty one; '
               'lists and texts skip unknown members without a report.',
    'assumptions': ENGINE, 'technique': SYM + ' of the reader on documents with a fault at a symbolic place',
}
PROPS['G02'] = {
    'title': 'The way a document is laid out does not change what is read',
    'statement': 'Comments and processing instructions anywhere, white space between elements, line ends, quotes, '
                 'foreign attributes, a namespace prefix or none, encoding, byte order mark and file or string make no '
                 'difference to the model which is read. The schema version is the number in the schema location, '
                 'or the default of the reader.',
    'over': ['inputs'],
    'quantifier': 'for every class at its place in a package element, every place for the difference, every comment, '
                  'white space and attribute and every schema number',
    'why': 'The tests read what the writer wrote or the same layout by hand; documents of other tools have comments, '
           'tool attributes and prefixes everywhere.',
    'files': VALUES + DOCS,
    'mechanism': [{'name': 'names and layout', 'where': 'reader.py read_str, read_file, _clean_namespace'},
                  {'name': 'schema version', 'where': 'reader.py _read_root_element, _update_schema_version'}],
    'observe_at': ['Reader.read_str and read_file'],
    'module': 'harness.reading',
    'bounds': 'All 140 classes with all their fields; a difference at any one place or at all of them, comments and '
              'attributes with a symbolic character; in thorough mode every kind of difference at every place in two '
              'variants of the values; 4 encodings; numbers of 2, 3 and 5 (1..5) symbolic digits. '
              'Schema locations with further schemas, folders, quotes and white space.',
    'outside': 'Entities declared in the document; white space within texts.',
    'assumptions': ENGINE, 'technique': SYM + ' of the reader, differential assertion between two layouts',
}
TYPES = ['src/autosar/model/implementation.py', 'src/autosar/model/element.py',
         'src/autosar/generator/type_generator.py']
PROPS['M01'] = {
    'title': 'The type model has every type needed, once, after those it needs',
    'statement': 'The model made from data types has one object per type, whose class, name, symbol, emitter, target, '
                 'sub-elements, sizes and array properties are those of the element. The order of types contains '
                 'exactly the types which those asked for need and the RTE defines, each once and after all it needs, '
                 'whatever the order of creation; a reference to no type is refused with KeyError.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every dependency graph, all names, type emitters, native declarations, choices of types asked '
                  'for and orders of creation',
    'why': 'The order is found level by level over trees that share types: it can be wrong only for particular graphs '
           'and alphabetical orders of names. Tests have a handful of graphs of two or three types.',
    'files': TYPES,
    'mechanism': [{'name': 'model', 'where': 'implementation.py ImplementationModel.create_from_element/_ref'},
                  {'name': 'order', 'where': 'implementation.py gen_type_dependency_trees, get_type_creation_order; '
                                             'type_generator.py gen_data_type_creation_order'}],
    'observe_at': ['objects given by create_from_element and create_from_ref, gen_data_type_creation_order'],
    'module': 'harness.types',
    'bounds': '2 base types and 3 (4 in thorough mode) types on top, each a scalar, reference, array of 1..2 (3) '
              'dimensions or record of 1..2 members over any of those before; names of 1 symbolic character; 1..3 types '
              'asked for; in the model 2 types with symbolic symbols, emitters, sizes and native declarations. '
              'Three graphs of 14 types with one symbolic name in 5 orders of creation.',
    'outside': 'Larger graphs; unions, and pointers in the order, which the code refuses with NotImplementedError; '
               'elements of arrays and records which are arrays or records themselves (refused as well).',
    'assumptions': ENGINE, 'technique': SYM + ' against a dependency closure computed beside it',
}
PROPS['M02'] = {
    'title': 'The generated C header defines every type needed, rightly and in order',
    'statement': 'The definitions generated declare exactly the types which those asked for need: base types by their '
                 'native declaration, scalars, references, arrays with all dimensions, records as named struct with '
                 'members in order and typedef, each after what it uses. The header holds them once '
                 'within include guards, with extern "C" for C++ only, as text and as file.',
    'over': ['inputs'],
    'quantifier': 'for every dependency graph, all names, sizes, native declarations, emitters and choices of types',
    'why': 'Whether the header is valid C depends on the whole graph of types and the order of their names; the tests '
           'compare the text for a few of them.',
    'files': TYPES,
    'mechanism': [{'name': 'type definitions', 'where': 'type_generator.py _gen_type_defs, _gen_array_type_def, '
                                                        '_gen_record_type_def'},
                  {'name': 'header', 'where': 'type_generator.py _create_code_sequence, write_type_header'}],
    'observe_at': ['TypeGenerator.write_type_defs_str, write_type_header_str, write_type_header'],
    'module': 'harness.types',
    'bounds': '2 base types and 1..3 types on top of all kinds; names and members of 1 symbolic character, sizes '
              'of 1..99 and 1..9; native declarations with a symbolic character; header parsed as C declarations and '
              'preprocessor lines, with and without __cplusplus. '
              'Three graphs of 14 types with one symbolic name.',
    'outside': 'Larger graphs and longer names; symbols of types, which the generator does not use; other kinds of '
               'types.',
    'assumptions': ENGINE + ['names are distinct C identifiers'],
    'technique': SYM + ' of the generator and cfile, declarations compared with those the types call for',
}
COMPS = ['src/autosar/xml/element.py', 'src/autosar/xml/reference.py', 'src/autosar/xml/workspace.py']
PROPS['C01'] = {
    'title': 'Ports and com-specs are created for exactly the items of the interface named',
    'statement': 'A port created with arguments for com-specs has one com-spec per item named, in the order of the '
                 'interface, of the class that direction, interface and queueing call for, holding the values given '
                 'and nothing else and referring to that item. Items the interface does not have, and com-specs of the '
                 'wrong direction, are refused and no port is added; ports and items are found by name and direction.',
    'over': ['inputs'],
    'quantifier': 'for every direction, kind of interface, set of items and names, form of the arguments and value',
    'why': 'Which com-spec belongs to which item depends on names, order and queueing of all items; the tests have one '
           'or two combinations and simple values.',
    'files': COMPS,
    'mechanism': [{'name': 'ports', 'where': 'element.py SwComponentType.create_p_port, create_r_port, create_pr_port'},
                  {'name': 'com-specs', 'where': 'element.py ProvidePortComSpec/RequirePortComSpec.'
                                                 'make_from_port_interface'},
                  {'name': 'items of ports', 'where': 'element.py SwComponentType.find_r_port, '
                                                      'get_data_element_in_port, get_operation_in_port'}],
    'observe_at': ['ports of the component, their com-specs and references; exceptions'],
    'module': 'harness.comps',
    'bounds': 'Interfaces of 0..2 (3) items with distinct symbolic names of 1 character, each queued or not; every '
              'field of every com-spec class with symbolic values; 1..2 (3) items asked for by symbolic names; dict, '
              'list and tuple of pairs, objects and mixtures. '
              'Also interfaces of 13 items and components of up to 14 ports.',
    'outside': 'Pairs for interfaces of one item; items named like an argument of the methods; longer names.',
    'assumptions': ENGINE, 'technique': SYM + ', com-specs compared with those the arguments call for',
}
PROPS['C02'] = {
    'title': 'A connector joins exactly the two ports named, under its own name',
    'statement': 'create_connector makes an assembly, delegation or pass-through connector as the places of the two '
                 'ports call for, with provider and requester right whatever the order of the arguments, a name made '
                 'of those of components and ports, and references to them. Ports of the same direction, references '
                 'to no port and names already in use are refused and leave the composition as it was.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every pair of ports, directions, places, orders and names, and for several connectors',
    'why': 'Provider and requester are exchanged only for particular directions and orders, names clash only for '
           'particular names; the tests have one pair of ports per kind of connector.',
    'files': COMPS,
    'mechanism': [{'name': 'connectors', 'where': 'element.py CompositionSwComponentType.create_connector, '
                                                  '_analyze_port_ref'}],
    'observe_at': ['CompositionSwComponentType.connectors, find; exceptions'],
    'module': 'harness.comps',
    'bounds': 'All 9 pairs of directions at all 5 pairs of places; symbolic names of components and ports of 1 (3) '
              'characters; the same connector again; 2 connectors between 2 by 2 ports with names of up to 3 '
              'characters; a port, component or connector with a symbolic name as long as that of the connector; 7 kinds '
              'of bad references. '
              'Also 13 components with 13 ports each, types of the same name in two packages.',
    'outside': 'More connectors and deeper compositions; whether the directions of delegated ports agree, which the '
               'code does not check.',
    'assumptions': ENGINE, 'technique': SYM + ', connectors compared with those the ports call for',
}
PROPS['C03'] = {
    'title': 'Port access of runnables is what the text asks for',
    'statement': 'create_port_access adds for each text one access of the kind which prefix, direction and interface '
                 'call for, to that one list of the runnable, with references to the port and item named, the name '
                 'and arguments given or the name made of the prefix in the settings. Unknown prefixes, ports and '
                 'items are refused without adding an access, and the arguments of the caller stay as they are.',
    'over': ['inputs'],
    'quantifier': 'for every kind of interface, direction, prefix in any case, port and item, and arguments',
    'why': 'There are some thirty combinations of interface, direction and prefix, each with its own branch, list and '
           'reference; the tests have one each, with default arguments.',
    'files': COMPS,
    'mechanism': [{'name': 'port access', 'where': 'element.py RunnableEntity.create_port_access'}],
    'observe_at': ['lists of accesses of the runnable, their references; exceptions'],
    'module': 'harness.comps',
    'bounds': '5 kinds of interfaces with 1..2 (3) items, all directions and prefixes in 3 mixtures of cases; names of '
              '1 symbolic character; prefixes of up to 5 (8) symbolic characters; 2 (3) accesses in one runnable. '
              'Also 13 accesses to 13 ports of two interfaces of the same name.',
    'outside': 'PR-ports with data and mode interfaces and prefixes that do not fit the interface, for which the '
               'documentation states nothing.',
    'assumptions': ENGINE, 'technique': SYM + ', accesses compared with a table of what each text asks for',
}
PROPS['C04'] = {
    'title': 'Events and runnables of a behavior refer to what was named',
    'statement': 'Each method which creates an event adds one of its class that starts the runnable named, refers to '
                 'the port and element, operation or mode named, holds the values given and has the name given or one '
                 'made of prefix and names. Unknown names and missing prefixes are refused and leave the component '
                 'unchanged; runnables get the symbol and the exclusive areas asked for.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every kind of event, direction of port, set of names, prefix and value',
    'why': 'The methods differ in the direction of ports, the parts of the names and the references they make; the '
           'tests have one runnable, one port and one element each.',
    'files': COMPS,
    'mechanism': [{'name': 'events', 'where': 'element.py SwcInternalBehavior.create_*_event'},
                  {'name': 'runnables', 'where': 'element.py SwcInternalBehavior.create_runnable, find_runnable'}],
    'observe_at': ['events and runnables of the behavior; exceptions; component before and after'],
    'module': 'harness.comps',
    'bounds': '8 kinds of events; 2 runnables, 2 ports, 1..2 items or 2 modes, all with symbolic names of 1 character; '
              'names given, made, or without prefix; 2 (3) events with names that may be the same; runnables with up to '
              '2 (3) exclusive areas. '
              'Also 13 events of 13 runnables, ports and items.',
    'outside': 'Events of send points and write access, which the code refuses with NotImplementedError.',
    'assumptions': ENGINE, 'technique': SYM + ', events compared with those the arguments call for',
}
PROPS['C05'] = {
    'title': 'Port API options are those of exactly the ports named',
    'statement': 'create_port_api_options gives each port named, or all of them, one options object with the values '
                 'given and a reference to the port, in place of earlier ones. Unknown ports are refused and '
                 'leave the behavior unchanged.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every set of ports, choice of names, value and repetition',
    'why': 'Which ports get options depends on all names; the tests use one port and the wildcard.',
    'files': COMPS,
    'mechanism': [{'name': 'options', 'where': 'element.py SwcInternalBehavior.create_port_api_options, '
                                               'append_port_api_option'}],
    'observe_at': ['port API options of the behavior; exceptions'],
    'module': 'harness.comps',
    'bounds': '1..2 (3) ports of different directions with symbolic names of 1 character, 1..2 calls, each for all, '
              'one or two names; every option with symbolic values. '
              'Also 16 ports, some of which differ in nothing but their case.',
    'outside': 'More ports and calls; other supported features.',
    'assumptions': ENGINE, 'technique': SYM + ', options compared with the last ones given',
}

# ---- checks and conveniences
MODEL = ['src/autosar/xml/element.py', 'src/autosar/xml/base.py', 'src/autosar/xml/reference.py',
         'src/autosar/xml/enumeration.py']
PROPS['V01'] = {
    'title': 'Constructors keep what they are given and refuse what is not of the kind',
    'statement': 'Every checked parameter of a constructor keeps each value of its kind, zero, false and empty ones '
                 'included, and refuses with TypeError or ValueError negative numbers where only positive ones are '
                 'allowed, members of other enumerations, references to other kinds of elements, objects of other '
                 'classes and texts that are no alignment or display format. An object is empty until it has a value.',
    'over': ['inputs'],
    'quantifier': 'for every class, checked parameter and value of the right and of wrong kinds',
    'why': 'A wrong value that gets in is written into the document or fails far from where it was made; there are '
           'some 500 parameters, and the tests only give each of them good values.',
    'files': MODEL,
    'mechanism': [{'name': 'typed assignment', 'where': 'base.py ARObject._assign*, _set_attr*, '
                                                        '_check_and_set_reference'},
                  {'name': 'emptiness', 'where': 'base.py ARObject.is_empty'},
                  {'name': 'constructors', 'where': 'element.py __init__'}],
    'observe_at': ['attributes of the object constructed; exceptions'],
    'module': 'harness.checks',
    'bounds': 'All classes and parameters; integers unbounded, floats of up to 3 digits and the special ones, texts of '
              'up to 2 characters, 1..2 destinations of each of 6 classes of references, one third of the other '
              'enumerations; alignments of up to 4 (6) and display formats of up to 6 (8) symbolic characters.',
    'outside': 'Some 30 parameters that take any value (listed as OPEN in harness/checks.py); texts and booleans, which '
               'are converted from anything; several wrong values at once.',
    'assumptions': ENGINE, 'technique': SYM + ', results compared with a table of the kinds of all parameters',
}
PROPS['V02'] = {
    'title': 'Python data becomes the value specification it stands for',
    'statement': 'Numbers, texts, None, arrays and records, nested and labelled in any way, become specifications of '
                 'the right kind with the same values, labels and order in every method that takes them; '
                 'specifications are kept and references to constants wrapped. Data that stands for nothing is '
                 'refused.',
    'over': ['inputs'],
    'quantifier': 'for every value, label, nesting, notation of the markers and method',
    'why': 'The notation is nested without limit and tells types apart by Python types alone; tests have a handful '
           'of values.',
    'files': MODEL,
    'mechanism': [{'name': 'value specifications', 'where': 'element.py ValueSpecification.make_value, '
                                                            'make_value_with_check'},
                  {'name': 'constants', 'where': 'element.py ConstantSpecification.make_constant'},
                  {'name': 'com-specs', 'where': 'element.py make_non_queued_sender_com_spec, '
                                                 'make_non_queued_receiver_com_spec'}],
    'observe_at': ['specification made; data of the caller; exceptions'],
    'module': 'harness.checks',
    'bounds': 'Nesting of up to 2 levels of up to 2 elements, labels of up to 1 symbolic character, integers '
              'unbounded, floats of 2 symbolic digits and the special ones; wrong markers of up to 5 symbolic letters. '
              'Also arrays and records of 13 symbolic numbers and nested 7 times.',
    'outside': 'Empty lists and tuples; booleans as values.',
    'assumptions': ENGINE, 'technique': SYM + ', result compared with the specification the data stands for',
}
PROPS['V03'] = {
    'title': 'A value is within limits exactly when the numbers say so',
    'statement': 'check_value of a constraint is true exactly for the numbers between its limits, which belong to it '
                 'when they are closed and do not when they are open; a limit that is missing or infinite does not '
                 'restrict.',
    'over': ['inputs'],
    'quantifier': 'for every limit, kind of limit and value, integer or float',
    'why': 'The answer differs at the limits only, in four combinations of open and closed.',
    'files': MODEL,
    'mechanism': [{'name': 'limits', 'where': 'element.py LimitObject.check_value'}],
    'observe_at': ['result of check_value'],
    'module': 'harness.checks',
    'bounds': 'Integers unbounded, and again next to 2^53 and 10^18, beyond which doubles have gaps; floats of up to 2 '
              'symbolic digits with four places of the point.',
    'outside': 'NaN, limits given as texts.',
    'assumptions': ENGINE, 'technique': SYM + ', result compared with the inequality decided by the solver',
}
PROPS['V04'] = {
    'title': 'Convenience methods make the elements their arguments call for',
    'statement': 'The methods that make computations, constraints, elements of interfaces, modes, events, accesses and '
                 'behaviors make exactly what is asked for: every argument arrives in its place, nothing else is set, '
                 'and elements are added last to their own list, with parent and reference in agreement. '
                 'Arguments of no meaning are refused and add nothing.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every method, set of arguments, value and order of calls',
    'why': 'Arguments are passed on by position through several layers; tests give one or two of them.',
    'files': MODEL,
    'mechanism': [{'name': 'computations', 'where': 'element.py Computation.make_value_table, make_rational'},
                  {'name': 'constraints', 'where': 'element.py DataConstraint.make_physical, make_internal'},
                  {'name': 'interfaces', 'where': 'element.py create_data_element, create_parameter, '
                                                  'create_operation, create_*argument, create_possible_error, '
                                                  'create_mode_group, create_mode_declaration, '
                                                  'create_invalidation_policy'},
                  {'name': 'behavior', 'where': 'element.py *Event.make, VariableAccess.make_from_port, '
                                                'create_internal_behavior, create_exclusive_area'}],
    'observe_at': ['elements made, lists of the container, references; exceptions'],
    'module': 'harness.checks',
    'bounds': 'Tables of up to 2 (3) entries in four forms, integers unbounded, floats of up to 3 digits; every field '
              'of the elements alone and every two together; up to 2 elements in a container, names of up to 2 '
              'symbolic characters.',
    'outside': 'Methods covered by C01 to C05; more elements.',
    'assumptions': ENGINE, 'technique': SYM + ', elements compared with the arguments',
}

PROPS['V05'] = {
    'title': 'Appending to a list equals giving the element to the constructor',
    'statement': 'Every append method puts the object given, and not a copy, last into its own list of its own object, '
                 'makes the object its parent, changes nothing else, and the whole is written and read back with it. '
                 'What does not belong there is refused and changes nothing.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every append method, mix of elements given at construction and appended, and wrong element',
    'why': 'Some seventy methods of the same shape, of which the tests call a few and with one element.',
    'files': MODEL,
    'mechanism': [{'name': 'append', 'where': 'element.py append, append_*, extend'},
                  {'name': 'parents', 'where': 'element.py Referrable.parent'}],
    'observe_at': ['lists, parents and XML of the container; exceptions'],
    'module': 'harness.append',
    'bounds': 'Up to one element given at construction and up to 2 (3) appended, each with one field in symbolic '
              'form; a wrong element of up to 8 kinds first or last.',
    'outside': 'More elements; access points of one name (N03); texts next to one another; port API options (C05).',
    'assumptions': ENGINE, 'technique': SYM + ', lists compared with the elements given',
}

PROPS['V06'] = {
    'title': 'What objects tell about themselves agrees with their content',
    'statement': 'The derived properties and look-ups of the model (is_empty, is_queued, is_composite, content_type, '
                 'short_name, root_collection, texts of unit names, ports by kind, elements of a port, direction of a '
                 'port reference, settings, default names) agree with the content after every change of it. Setters '
                 'and look-ups refuse what the constructors refuse and leave everything as it was.',
    'over': ['inputs', 'histories'],
    'quantifier': 'for every content of the object, name asked for, and change',
    'why': 'Code of users and of the library itself decides by them which com-spec, reference or tag to make; most are '
           'not called by any test.',
    'files': MODEL,
    'mechanism': [{'name': 'derived properties', 'where': 'element.py is_queued, content_type, provide_ports, xml_tag; '
                                                          'base.py is_empty; reference.py is_provide_port_ref'},
                  {'name': 'look-ups', 'where': 'element.py find_p_port, get_data_element_in_port, get_operation_in_port, '
                                                'get_mode_declaration_group_in_port, get_port_interface, '
                                                'root_collection'},
                  {'name': 'settings', 'where': 'element.py BehaviorSettings'}],
    'observe_at': ['results and exceptions of the properties and methods named'],
    'module': 'harness.about',
    'bounds': 'Names of 1 or 2 letters, texts of up to 2 characters, unbounded integers; up to 2 (3) ports, elements or '
              'parts, 3 variants, 1 (2) changes.',
    'outside': 'Two ports of one name; is_queued of data elements with several variants which disagree; list fields in '
               'is_empty.',
    'assumptions': ENGINE, 'technique': SYM + ', results compared with the content',
}

PROPS['S01'] = {
    'title': 'What is written has the tags and the order of the AUTOSAR schema',
    'statement': 'Every field of every class, the common part of named elements, packages and the document are written '
                 'under the tag or attribute the AUTOSAR schema has for them, with the right content, in the order of '
                 'the schema, and with nothing else. A document with root attributes names its namespace and the schema '
                 'file of its version.',
    'over': ['inputs'],
    'quantifier': 'for every class, set of fields, value and shape of the package tree within the bounds',
    'why': 'Other tools only accept the schema; a tag misnamed or swapped in writer and reader alike survives a round '
           'trip, and the order only shows when certain fields come together.',
    'files': MODEL + ['src/autosar/xml/writer.py'],
    'mechanism': [{'name': 'writers', 'where': 'writer.py _write_*, _collect_*_attributes'},
                  {'name': 'document', 'where': 'writer.py _write_document, _write_package; document.py'},
                  {'name': 'enumerations', 'where': 'enumeration.py enum_to_xml'}],
    'observe_at': ['elements, attributes and texts an XML parser finds in the output of write_str, write_str_elem'],
    'module': 'harness.schema',
    'bounds': 'Every field alone with symbolic content, every two together, all and all but one (thorough: every '
              'three); every subset of the common part for every named class; mixed content of up to 3 parts; package '
              'trees of up to 2 x 2 x 1 packages; all five schema versions.',
    'outside': 'Classes the library does not write; admin data (not written at all); spelling of numbers (P02), texts '
               '(P01); validation against the XSD itself, which is not part of the repository: the table of tags and '
               'their order is written by hand in harness/schema.py.',
    'assumptions': ENGINE, 'technique': SYM + ', document compared with a table of the schema',
}
