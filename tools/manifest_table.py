TECH = ('contracts on the real functions, verification conditions generated from /repo source by symbolic execution '
        'with loop invariants, discharged by z3/cvc5')
CLAIMS = {
    'C01': ('proof', TECH, 'Every function that writes or parses a binary integer field is proved for all values and '
            'all lengths against one positional specification of the field; see DESIGN.md for what is trusted.'),
    'C02': ('proof', TECH, 'The real raw binary writer and the whole real raw reader are executed together for an arbitrary '
            'value of every scalar type (every float bit pattern, every decimal, text and lobs of any length, every typed '
            'null), and the reader alone for every well-formed encoding including padded lengths. Trusted: struct packing '
            'of floats, the UTF-8 codec, the model of decimal.Decimal. The symbol table layer and simpleion objects are '
            'covered by the bounded stand-in only (and by C09, C11, C12, C17).'),
    'C03': ('proof', TECH, 'Writer and reader are executed together for every timestamp of every precision, every offset of '
            'whole minutes and fractions of any number of digits, in binary and in text (the text reader over octets; a loop '
            'invariant for fraction digits), and every plain datetime. Trusted: the models of datetime (calendar shifts are '
            'inverse to each other, strftime) and of decimal notation. The managed layer and unicode input are covered by '
            'the bounded stand-in only.'),
    'C20': ('proof', TECH, 'Memoizing thunks, thunk events, managed thunk events and every derive_* method are proved for '
            'arbitrary (opaque) attribute values and annotation sequences of any length. That the decoding closures of '
            'the readers are functions of captured immutable octets is covered by a bounded stand-in only.'),
    'C06': ('proof', TECH, 'The operations of BufferQueue are proved to be operations on the sequence of octets it holds, for '
            'every segmentation (loop invariant, unbounded). The function that waits for binary data is proved indifferent to how '
            'it arrives, for any lengths. For readers: after each prefix of a set of streams that covers the grammar, and for every '
            'octet that may follow, one chunk and two chunks lead to equal events and equal suspended states; by induction so does '
            'every splitting of input that stays in those states. Values of any length are proved for any cut. The set of '
            'prefixes is finite: other nesting is covered by the coroutines being the same at every depth. str input: bounded.'),
    'C07': ('proof', TECH, 'Binary: for containers with any contents of any length, cut anywhere, skipping is proved to end at the '
            'declared end; a container handler is proved to report its end at that limit only. Text: the skipping trampoline is '
            'proved for any delegate events at any depth (two events between requests). Both: on a set of streams, after every event, '
            'with every cut of the input (text: with any octet in any place), skipping and reading through lead to equal '
            'suspended states. Streams of symbol tables (managed reader) are covered by a bounded stand-in.'),
    'C14': ('proof', TECH, 'Timestamp.__new__, timestamp(), OffsetTZInfo and adjust_from_utc_fields are proved for every '
            'decimal fraction, every microsecond value and every offset, over a stated model of decimal.Decimal and '
            'datetime.'),
    'C19': ('proof', TECH, 'One arbitrary step of each trampoline from an arbitrary previous step, with a check that a '
            'suspended trampoline keeps nothing but its last step, covers every history; the legality of every event '
            'type in every writer state and of every value type is proved for any depth. The blocking adapters are '
            'proved for at most three pending results or two input rounds per event.'),
    'C11': ('proof', TECH, 'The real managed reader and its four symbol table handlers are executed over the contracts of the raw reader '
            '(C06, C07), the symbol table (C09) and the catalog (C10), against a reference interpretation of the stream: symbolic IDs, '
            'tables of any extent with any text or none under an ID, every kind of element, import, import field and table field with any '
            'number as version and maximum, in pairs, every stream of three markers, tables, extensions and values, input running '
            'out anywhere, skipped containers. Longer lists, imports, tables and streams follow because the suspended reader keeps '
            'nothing else (frames of live coroutines compared after histories that must agree); also sampled (bounded).'),
    'C12': ('proof', TECH, 'The real managed binary writer and symbol table coroutines are executed over the contracts of the raw '
            'writer (C04) and the symbol table (C09): any number of provided symbols, texts that a table provides under any ID or '
            'not, symbols in every form of every kind of event, up to two imports of any extent, one and two events per segment and two '
            'segments; longer segments and later segments follow because the suspended writer keeps nothing else (frames of '
            'live coroutines compared after histories that must agree). Longer segments are also sampled (bounded).'),
    'C13': ('proof', TECH, 'ion_equals is executed on every pair of kinds of values (Ion-natured and native) with symbolic contents: '
            'every float, decimal, integer, timestamp (any precision, offset, fraction), symbol token, annotation, typed null, in both '
            'orders and both modes, against equality of the denoted values; members of containers are any values, compared by '
            'induction on depth; sequences have any length (loop invariant), structs at most three fields (bounded). Trusted: the '
            'models of Decimal.compare_total and datetime comparison.'),
    'C18': ('proof', TECH, 'The real writer and the whole real reader are executed for every code point and every octet, in '
            'every quoted context, and for every escape sequence; text of any length follows by loop invariants on the '
            'writer and reader loops; which symbols stay unquoted is decided by the theory of strings on the live regular '
            'expressions. Identifiers are read symbolically up to 6 characters and by a loop invariant beyond. White space '
            'other than the contexts listed and blobs are covered by the bounded stand-in only.'),
    'C04': ('proof', TECH, 'Symbolic contents of any length, symbol IDs of any size, annotations in any number (loop invariant), '
            'every pair of container types nested; the buffer tree under contract with an abstract subtree of any shape '
            '(add_leaf invariant), symbolic depth; what is written is read back by the real reader. Breadth and depth beyond '
            'two levels follow by induction over the tree contracts (BufferTree length protocol).'),
    'C05': ('proof', TECH, 'Every int, decimal, float and blob is written by the real serializers and read back by the whole real '
            'reader (strings, symbols, clobs: C18; timestamps: C03); the octets around them are proved for every event in every '
            'state of the writer, at any depth, with any white space as indentation; on the reader, white space and comments '
            'of any length at every gap of eight token streams are proved to change nothing, by bisimulation of the suspended '
            'reader. Token streams other than these eight, and dumps(), are covered by the bounded stand-in only.'),
    'C16': ('proof', TECH, 'The whole real text reader is executed on ints, decimals, floats and blobs whose digit strings '
            'are symbolic and of any length (loop invariants of the digit-collecting handlers), in every context that can '
            'end a number; one symbolic octet is fed in every state of the number grammar and at every position of '
            'timestamps and blobs and the verdict compared with the Ion grammar; timestamps of every shape are read with every '
            'digit symbolic. Trusted: float(), b64decode, the models of int(), Decimal and datetime. Clobs are under C18.'),
    'C08': ('proof', TECH, 'The whole real binary reader is executed on a value of each of the 256 type octets, with symbolic '
            'declared lengths (any number, padded length fields of any length), in a list, sexp, struct field, annotation wrapper '
            'and wrapper in a list of symbolic declared length, with any octets behind: it is reported if and only if it fits. '
            'Version markers, field names, wrapper length fields, truncation (any missing part) and the end-of-file rule of the '
            'blocking reader likewise; the function that waits for data is proved never to pass the limit. Annotation '
            'subfields of several IDs and truncated length fields are covered up to three octets.'),
    'C09': ('proof', TECH, 'The constructor is proved by loop invariants for imports and symbol lists of any length (up to two '
            'imports), with an arbitrary text in focus; look-up by ID and text and interning are proved on the resulting abstract '
            'table of any size; unmentioned texts are arbitrary. Small tables are also compared in full.'),
    'C10': ('proof', TECH, 'resolve, register, substitute_symbol_table and placeholder_symbol_table are executed with tables of any '
            'number of symbols and any requested maximum ID, over every order type of up to three registered versions; the table '
            'constructor is replaced by its contract (C09).'),
    'C17': ('proof', TECH, 'dump, dumps, load, loads and the conversions of the value classes are executed for every scalar of every '
            'native and Ion-natured kind with symbolic contents, alone, in structs and in lists; containers of up to three members '
            'and two levels, and, by loop invariants and induction on depth, of any number of members; the type of a value of '
            'any hierarchy of classes by a loop invariant; all combinations of options; what is loaded is dumped again. Writers '
            'and readers are replaced by their contracts (they take and give events). Whole documents through the real readers and '
            'writers: bounded. namedtuple is a known finding.'),
    'C15': ('proof', TECH, 'add_item, assignment, deletion and look-up are proved on a struct with arbitrary other fields and any '
            'number of values of the name; iteration, items and length are proved only for every history of four operations over three '
            'names with arbitrary values (bounded); loading adds fields in the order of events (three fields).'),
}
NOT_APPLICABLE = {}
NOTES = ''
