"""How each property is decided: specification and oracle.  Goes into DESIGN.md through tools/mkdocs.py."""
RT = ('`harness/spec.py` holds an independent table of the model: every class, its parameters, the kind of each '
      '(text, integer, number, boolean, enumeration, reference, object, list) and the tag it is written with. '
      '`harness/build.py` makes objects from it with symbolic values together with a matcher of its own that says what '
      'the object read back has to hold. The oracle is this matcher, not the constructor: wrong conversions in the '
      'constructor are found as well. Writing is repeated on the object and on the copy and must give the same text; '
      'fields never given must be absent.')
HOW = {
    'R01': RT, 'R02': RT, 'R03': RT, 'R04': RT, 'R05': RT, 'R06': RT, 'R07': RT,
    'N01': 'All histories of appending, creating and making packages and elements of symbolic names, in a workspace, a '
           'document, packages and package maps, against a list of (name, object) kept by the harness; names are '
           'compared by the solver, so one history stands for every pattern of equal and different names.',
    'N02': 'Every referable class placed at the end of every possible chain of containers; the expected path is put '
           'together from the symbolic names, find is asked for the path, the reference and for paths with one name '
           'replaced, shortened or continued.',
    'N03': 'Appending to each access point list and creating events with symbolic names that may or may not clash, '
           'including names which look like made ones; the solver is asked for two items with equal names.',
    'P01': 'A symbolic text in each place a text can be in; the document is parsed by the standard library parser '
           '(expat) as an independent oracle, and by the reader of the code; spellings with character references, '
           'entities and CDATA go the other way.',
    'P02': 'Every number and boolean field is found through the table of the model; notations are written with '
           'symbolic digits and their values calculated by the harness.',
    'P03': 'For each enumeration, the texts of all members are compared pairwise and with a fully symbolic text; each '
           'enumeration field of the model is fed documents with symbolic texts and with texts in which one character '
           'is replaced by a symbolic one.',
    'R08': 'Symbolic trees of packages and elements, and every identifiable class with its common parts; compared '
           'field by field through snapshots, including parents and paths.',
    'R09': 'Every class of reference with every member of the destination enumeration, every field that takes a '
           'reference with every class of reference and destination; documents with a symbolic DEST.',
    'D01': 'Documents and mappings over a workspace with symbolic names; the files are parsed with the standard '
           'library parser and compared with a model of the workspace; snapshots before and after; everything is '
           'written twice.',
    'D02': 'Histories of operations (documents of other versions, single elements, invalid input, faulty documents) '
           'on one writer or reader, then the same last document with the used and with a new one: results, '
           'exceptions and printed reports must agree (self-composition).',
    'R10': 'As R01..R07 at the lowest level of detail, but with a symbolic version given to writer and reader, which '
           'forks where the code compares it; sequences of documents with forked versions.',
    'D03': 'Roles in namespaces with symbolic paths against path joining in the harness; graphs of templates with '
           'symbolic names; configuration files written by the harness against the same calls.',
    'G01': 'A document with every class in turn, full of values; one fault or unknown element at a position that is '
           'forked over all positions; the rest of the document is compared with a snapshot of the undisturbed one.',
    'G02': 'The same documents with differences of layout at forked positions; the model read must be the same '
           'snapshot.',
    'M01': 'Graphs of data types with forked shapes and symbolic names; the harness calculates the dependencies itself '
           'and checks the order for membership, uniqueness and topology; model objects are compared field by field.',
    'M02': 'The header is parsed by a small parser of C declarations in the harness (`harness/types.py`) and its '
           'meaning compared with the type graph; preprocessor lines are evaluated with and without `__cplusplus`.',
    'C01': 'Interfaces of symbolic items and requests for com-specs by symbolic names; whether a name names an item is '
           'decided by the solver; the expected com-specs are made by the harness through the table of the model.',
    'C02': 'Every combination of directions and places of the two ports; expected class, ends and name are calculated '
           'from them; names are symbolic so that component, port and connector names may be equal to one another.',
    'C03': 'Every prefix, direction and kind of interface; expected list, class, references, name and arguments are '
           'given by a table of the documented forms; wrong prefixes are fully symbolic.',
    'C04': 'Each method that creates an event is called with symbolic names that may or may not name existing items; '
           'a snapshot of the component must stay the same whenever the call is refused.',
    'C05': 'Calls for one, some and all ports; the options expected are kept in a map by the harness.',
    'V01': 'Every class of the table is built with one value of each kind for each parameter: it must be kept as given '
           '(or turned into the documented form) or be refused with TypeError or ValueError; emptiness of objects '
           'against the values given; patterns against matchers written in the harness.',
    'V02': 'Nested Python data with symbolic labels and values, against an independent recursive description.',
    'V03': 'check_value against the inequality over symbolic limits and value; one query for each pair of kinds.',
    'V04': 'Every convenience method against the object made by the constructors with the same values.',
    'V05': 'A table of the append methods; containers are filled partly by the constructor and partly by appending, '
           'matchers of the elements decide about the list, a matcher of the empty container about everything else.',
    'V06': 'Objects are filled with symbolic content, then every derived property and look-up is compared with what the '
           'content says, before and after changes and refused changes.',
    'S01': 'A hand-written table (class, tag, fields with their tags in order) is interpreted by a reference serialiser '
           'in the harness; the document written is parsed and compared node by node with what the table asks for.',
}
