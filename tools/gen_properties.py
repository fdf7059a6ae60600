#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text is easy to review)."""
import json, os
B = 'amazon/ion/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[B + f for f in files],
                               state=[dict(name=n, meaning=m, where=B + w) for n, m, w in state],
                               mechanism=[dict(name=n, where=B + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'Binary integers and integer subfields encode and decode exactly',
  'Every Ion int, of any sign and magnitude, and every integer subfield of the binary encoding (lengths, symbol IDs, exponents, calendar fields) is written as the octets the Ion 1.0 binary format assigns to that number, with no insignificant leading octet for unsigned forms. '
  'Decoding any well-formed encoding, padded ones included, yields exactly the number it denotes, so writing and then reading an integer returns the same integer.',
  ['inputs'], 'All integers of unbounded magnitude and both signs; all octet strings that are well-formed Int, UInt, VarInt or VarUInt fields of any length.',
  'Tests sample a few dozen values around octet boundaries and powers of two; the loops run once per octet for integers of any size.',
  ['writer_binary_raw_fields.py', 'writer_binary_raw.py', 'reader_binary.py'],
  [('octet-by-octet field encoder and its one-octet caches', 'writer_binary_raw_fields.py:_write_base,_FieldCache'),
   ('int value encoder', 'writer_binary_raw.py:_serialize_int,_write_length'),
   ('field decoders', 'reader_binary.py:_parse_var_int_components,_parse_signed_int_components,_int_factory,_var_uint_field_handler')],
  [('field caches', 'one-octet encodings of small values', 'writer_binary_raw_fields.py')],
  ['octets emitted by the binary writer', 'values surfaced by the binary reader'])

p('C02', 'Binary scalars survive a write/read round trip',
  'Writing any null, bool, int, float, decimal, string, symbol, clob or blob as binary Ion and reading it back yields a value of the same Ion type that is identical under the Ion data model: floats keep sign of zero, infinities and nan; decimals keep coefficient, exponent and negative zero however many digits they have; strings and symbols keep every code point; lobs keep every byte. '
  'Every typed null comes back as a null of that same type.',
  ['inputs'], 'All scalar values of every Ion type, unbounded sizes and precisions.',
  'Tests use a fixed list of scalars per type; precision, exponent range, length-of-length thresholds and type-descriptor combinations are infinite.',
  ['writer_binary_raw.py', 'reader_binary.py', 'writer_binary.py', 'simpleion.py'],
  [('scalar serializers and jump table', 'writer_binary_raw.py:_serialize_*'),
   ('type-octet dispatch table and scalar factories', 'reader_binary.py:_HANDLER_DISPATCH_TABLE,_*_factory')],
  [], ['dump/load and dumps/loads', 'raw and managed binary reader/writer events'])

p('C03', 'Timestamps survive binary and text round trips',
  'Writing a timestamp, as binary or as text, and reading it back yields a timestamp denoting the same instant with the same precision, the same local offset (or the same unknown offset) and exactly the same fractional-second digits, for any number of digits. '
  'This holds for every timestamp whose UTC fields lie in years 1 to 9999; a timestamp of day or coarser precision carries no known offset.',
  ['inputs'], 'All dates, times, precisions, whole-minute offsets in (-24h, 24h) and fractional seconds of any length.',
  'Tests sample single timestamps; offset normalisation crossing day, month and year boundaries, each precision, and long fractions combine freely.',
  ['writer_binary_raw.py', 'writer_text.py', 'reader_binary.py', 'reader_text.py', 'core.py'],
  [('binary timestamp encoder', 'writer_binary_raw.py:_serialize_timestamp,_write_timestamp_fractional_seconds'),
   ('binary timestamp decoder', 'reader_binary.py:_timestamp_factory'),
   ('text timestamp formatter', 'writer_text.py:_bytes_datetime,_bytes_utc_offset'),
   ('text timestamp parser', 'reader_text.py:_parse_timestamp'),
   ('offset adjustment', 'core.py:Timestamp.adjust_from_utc_fields')],
  [], ['dumps/loads in both encodings'])

p('C04', 'Binary containers and annotation wrappers declare exact lengths',
  'In every stream the binary writer emits, each container and annotation wrapper declares exactly the number of octets its contents occupy, its header directly precedes those contents, and children, field names and annotations appear in the order they were given. '
  'Reading such a stream therefore yields the same nesting, order, field names and annotations that were written, for any depth, breadth and mixture.',
  ['inputs', 'histories'], 'All finite event sequences with balanced containers: any nesting, child counts, annotation counts and value sizes.',
  'Tests use small hand-written trees; the length bookkeeping is a running invariant over arbitrary histories of start, scalar and end events, and header sizes depend on accumulated lengths.',
  ['writer_buffer.py', 'writer_binary_raw.py', 'reader_binary.py'],
  [('buffer tree with pending container lengths', 'writer_buffer.py:BufferTree'),
   ('container and annotation headers', 'writer_binary_raw.py:_serialize_container,_serialize_annotation_wrapper,_raw_writer_coroutine'),
   ('container and annotation handlers', 'reader_binary.py:_container_handler,_annotation_handler')],
  [('current_container_length', 'octets accumulated in the active container', 'writer_buffer.py')],
  ['octets emitted at stream end', 'event sequence of the binary reader'])

p('C05', 'Text output reads back as the same values',
  'Writing any value or stream as text Ion, compact or indented with any whitespace string, with or without a version marker, produces text that reads back as the same sequence of values: same types, nesting, order, field names, annotations and scalar values. '
  'Indentation never changes the data, and neither do whitespace and comments between the tokens of text that is read.',
  ['inputs', 'configurations'], 'All Ion values of any nesting; all whitespace indents; marker on or off; single value or stream.',
  'Tests compare a small set of values with fixed expected strings; delimiters, nesting, annotations and indentation combine without bound.',
  ['writer_text.py', 'reader_text.py', 'simpleion.py'],
  [('text writer coroutine: delimiters, field names, annotations, indentation', 'writer_text.py:_raw_writer_coroutine'),
   ('text scalar serializers', 'writer_text.py:_serialize_*'),
   ('text container and value handlers', 'reader_text.py:_container_handler')],
  [], ['dumps(binary=False) followed by loads'])

p('C06', 'Input chunk boundaries never change what a reader reports',
  'For any Ion stream, binary or text, the sequence of events and values a reader reports is the same however the input is split into non-empty chunks, down to single bytes or characters. '
  'Chunking never loses, duplicates or reorders input.',
  ['inputs', 'schedules'], 'All streams and all partitions of them into non-empty chunks, delivered whenever the reader asks for data.',
  'Tests feed whole inputs or a few fixed splits; the number of partitions is exponential and each parser state can meet a boundary.',
  ['reader.py', 'reader_binary.py', 'reader_text.py'],
  [('byte/char queue over segments', 'reader.py:BufferQueue'),
   ('data request coroutines', 'reader_binary.py:_read_data_handler; reader_text.py'),
   ('file pump', 'reader.py:blocking_reader')],
  [('segments, offset, size, position', 'unread input and absolute stream offset', 'reader.py:BufferQueue')],
  ['event stream of raw, managed and blocking readers'])

p('C07', 'Skipping a container is equivalent to reading through it',
  'When a consumer skips the rest of a container, at any point inside it and with any chunking of the input, the reader next reports the end of that same container, and everything reported afterwards is identical to what it would have reported had every remaining child been read.',
  ['histories', 'inputs', 'schedules'], 'All binary and text streams, all positions inside any container at which skip is requested, all chunkings.',
  'Tests skip in a handful of fixed streams; skip points, nesting, buffered remainders and chunk boundaries multiply.',
  ['reader_binary.py', 'reader_text.py', 'reader.py'],
  [('skip handling by remaining length', 'reader_binary.py:_container_handler,_read_data_handler'),
   ('queue skip', 'reader.py:BufferQueue.skip'),
   ('text container skip', 'reader_text.py:_skip')],
  [], ['events after a skip'])

p('C08', 'Truncated, overrunning or mis-nested binary data is rejected',
  'A binary value whose declared length extends past the end of its enclosing container, an annotation wrapper whose single value does not end exactly at the wrapper end, an illegal type descriptor, a bad version marker, or input ending inside a value always raises an error instead of producing a value. '
  'No value is ever reported whose octets lie outside its container.',
  ['inputs'], 'All octet strings presented as a binary Ion stream.',
  'Bad-input tests list a few dozen byte strings; overruns can occur at any nesting depth, length form and type.',
  ['reader_binary.py', 'reader.py'],
  [('remaining-length check', 'reader_binary.py:_HandlerContext,_read_data_handler'),
   ('annotation wrapper limit checks', 'reader_binary.py:_annotation_handler,event_transition,_container_start_handler'),
   ('invalid type octets', 'reader_binary.py:_HANDLER_DISPATCH_TABLE'),
   ('end-of-input handling', 'reader.py:blocking_reader')],
  [], ['exceptions from the raw, managed and load APIs'])

p('C09', 'Symbol tables assign and look up symbol IDs consistently',
  'In any symbol table, system symbols (for local tables), then imported symbols in import order, then locally defined symbols occupy consecutive IDs starting at 1, and the maximum ID equals the number of symbols. '
  'Looking up an ID returns the symbol at that position and looking up text returns the first symbol defined with it; interning returns the existing symbol if the text is defined and otherwise appends exactly one, never changing any earlier ID.',
  ['inputs', 'histories'], 'All lists of imports and symbols (duplicates and unknown text included) and all sequences of intern and lookup operations.',
  'Tests build small tables; the law is an invariant over arbitrarily long interning histories and arbitrary duplicate patterns.',
  ['symbols.py'],
  [('construction and interning', 'symbols.py:SymbolTable.__init__,intern'),
   ('lookup', 'symbols.py:SymbolTable.get,__getitem__')],
  [('symbol list and text mapping', 'ordered tokens and first definition by text', 'symbols.py:SymbolTable'),
   ('max_id', 'highest assigned ID', 'symbols.py:SymbolTable')],
  ['SymbolTable public operations'])

p('C10', 'Import resolution honours name, version and declared maximum ID',
  'Resolving a shared-table import returns the registered table when name and version match exactly and no different maximum ID is requested; otherwise the result has exactly the requested name, version and maximum ID, its leading symbols taken from the best registered version (the exact one, else the highest) and every remaining position having unknown text. '
  'When no exact match exists and no maximum ID is given, resolution fails.',
  ['inputs', 'histories'], 'All catalog contents and registration orders, all requested names, versions and maximum IDs.',
  'Tests cover a few registered tables and requests; subset, superset and version combinations are unbounded.',
  ['symbols.py'],
  [('catalog', 'symbols.py:SymbolTableCatalog.register,resolve'),
   ('placeholders and substitutes', 'symbols.py:placeholder_symbol_table,substitute_symbol_table')],
  [('registered tables by name and version', 'catalog content', 'symbols.py:SymbolTableCatalog')],
  ['catalog resolution results'])

p('C11', 'Readers resolve symbol IDs against the symbol table in force',
  'Every symbol ID used as a value, field name or annotation is reported with the text that the symbol table in force at that point of the stream assigns to it, where a version marker resets the table to the system symbols, a local symbol table replaces it (after its declared imports), and one that imports the current table extends it. '
  'An ID beyond the table in force is an error, an ID whose text is unknown is reported without text, and local symbol tables and version markers are never reported as user values.',
  ['inputs', 'histories'], 'All streams mixing version markers, local symbol tables with imports and appends, and values using any symbol IDs, in binary and text.',
  'Tests use short scripted streams; table replacement and extension sequences are unbounded histories.',
  ['reader_managed.py', 'symbols.py'],
  [('table context and resolution', 'reader_managed.py:_ManagedContext,_managed_thunk_event'),
   ('local symbol table processing', 'reader_managed.py:_local_symbol_table_handler,_imports_handler,_import_desc_handler,_symbols_handler'),
   ('system value interception', 'reader_managed.py:managed_reader')],
  [('current context', 'symbol table in force', 'reader_managed.py:managed_reader')],
  ['events of the managed reader; load'])

p('C12', 'Binary output declares exactly the symbols its IDs refer to',
  'Each flushed segment of binary output starts with a version marker and carries a local symbol table, naming the configured imports, such that every symbol ID in the segment resolves to the text the application wrote as value, field name or annotation. '
  'The same text always gets one ID within a segment, text already provided by system symbols or imports is not declared again, and nothing carries over between segments.',
  ['inputs', 'histories', 'configurations'], 'All event histories with any symbols, any shared-table imports, and any number of flushes.',
  'Tests check a few byte-exact outputs; interning order, duplicates against imports, and multi-segment histories are unbounded.',
  ['writer_binary.py', 'symbols.py', 'writer_binary_raw.py'],
  [('symbol table writer coroutine', 'writer_binary.py:_symbol_table_coroutine'),
   ('managed writer coroutine', 'writer_binary.py:_managed_binary_writer_coroutine')],
  [('local symbols of the current segment', 'interned text to ID', 'writer_binary.py')],
  ['octets emitted', 'managed read back with the same catalog'])

p('C13', 'Ion equivalence is a sound, discriminating comparison',
  'Ion equivalence of two values is reflexive, does not depend on operand order, and holds exactly when both have the same type and annotations (where declared) and the same data-model value: it distinguishes positive from negative zero, decimals of different precision, timestamps of different precision, offset or fractional digits, and sequences of different order or length, while treating nan as equal to nan and ignoring struct field order. '
  'In instants-only mode, timestamps are equal exactly when they denote the same point in time to the microsecond, an unknown offset counting as UTC.',
  ['inputs'], 'All pairs of Ion values, nested to any depth, with or without Ion type metadata.',
  'Tests enumerate a fixed matrix of pairs; reflexivity, symmetry and discrimination quantify over all pairs.',
  ['equivalence.py', 'core.py', 'simple_types.py'],
  [('pairwise comparison', 'equivalence.py:_ion_equals,_symbols_eq,_decimals_eq,_floats_eq,_timestamps_eq'),
   ('sequence and struct comparison', 'equivalence.py:_sequences_eq,_structs_eq')],
  [], ['ion_equals'])

p('C14', 'Timestamp construction keeps its fractional fields consistent',
  'Every timestamp that can be constructed has microseconds equal to its fractional seconds truncated to six digits, a fractional precision equal to the number of fractional digits capped at six, and fractional seconds at least 0 and below 1; these agree whichever of microseconds or fractional seconds was supplied, for any number of digits. '
  'Contradictory or out-of-range arguments are rejected, and a UTC offset must lie strictly between -24 and +24 hours.',
  ['inputs'], 'All combinations of constructor arguments, with fractional seconds of any length.',
  'Tests sample specific digit counts; truncation versus rounding and argument combinations range over all decimals.',
  ['core.py'],
  [('Timestamp constructor', 'core.py:Timestamp.__new__'),
   ('offset type and shorthand constructor', 'core.py:OffsetTZInfo,timestamp')],
  [('microsecond, fractional_precision, fractional_seconds', 'normalised sub-second fields', 'core.py:Timestamp')],
  ['Timestamp attributes'])

p('C15', 'Structs keep every value of a repeated field in order',
  'A struct read from Ion keeps all values of every field name, including repeated names: plain indexing returns the value added last, retrieving all values returns them in order of addition, the length counts every value, iteration over items yields each name-value pair once with names in first-seen order, and assigning a name replaces all of its values. '
  'Deleting a name removes all of its values and no others.',
  ['histories', 'inputs'], 'All sequences of add, assign, delete and lookup operations on any keys and values.',
  'Tests run a few short operation sequences; the laws are invariants over all histories.',
  ['core.py', 'simpleion.py'],
  [('multi-valued dictionary', 'core.py:Multimap,MultimapValue'),
   ('struct population on load', 'simpleion.py:_load')],
  [('ordered store of value lists', 'key to values in insertion order', 'core.py:Multimap')],
  ['Multimap public operations', 'loaded structs', 'structs dumped again'])

p('C16', 'Text numbers, timestamps and lobs decode to their exact value',
  'Every legal text Ion int (decimal, hexadecimal or binary, with underscores), decimal, float, timestamp, blob and clob decodes to exactly the value the Ion 1.0 grammar assigns to it, whatever its length, precision or sign. '
  'Malformed ones, such as leading zeros, misplaced underscores or impossible calendar dates, are rejected instead of being decoded to something else.',
  ['inputs'], 'All texts of legal numeric, timestamp and lob literals of any length, and their single-character corruptions.',
  'Tests list individual literals; digit counts, underscore positions, exponents and digit values are unbounded.',
  ['reader_text.py'],
  [('numeric state machines', 'reader_text.py:_number_or_timestamp_handler,_parse_number,_parse_decimal'),
   ('timestamp parser', 'reader_text.py:_timestamp_handler,_parse_timestamp'),
   ('lob parsing', 'reader_text.py:_parse_lob,_lob_handler')],
  [], ['values from the text reader'])

p('C17', 'Native values and Ion values convert without loss',
  'Every supported native Python value is written as the Ion type documented for its type, including subclasses and with tuples written as lists or, on request, s-expressions, and values returned by loading can be dumped again preserving type, annotations, field names and typed nulls. '
  'Loading a stream returns its top-level values in order, a single value is returned only if the stream holds exactly one, and unsupported values are rejected.',
  ['inputs', 'configurations'], 'All native values and nestings of the supported types; all option combinations of dump and load.',
  'Tests cover fixed samples per type; nesting, subclassing, nulls and repeated fields combine without bound.',
  ['simpleion.py', 'simple_types.py'],
  [('type mapping and recursive dump', 'simpleion.py:_ion_type,_dump'),
   ('recursive load', 'simpleion.py:_load,load'),
   ('event conversion of Ion values', 'simple_types.py:_IonNature')],
  [], ['dump/dumps/load/loads'])

p('C18', 'Text quoting and escaping never change a symbol or string',
  'Any string, clob, symbol value, field name or annotation written as text Ion is quoted and escaped so that it reads back with exactly the same characters and the same kind: symbol text that looks like a keyword, a number, an operator, a symbol-ID reference or is empty is still read as that symbol text. '
  'Output is printable ASCII, and every escape sequence the reader accepts denotes the code point the Ion specification assigns to it.',
  ['inputs'], 'All sequences of Unicode code points (surrogates excluded) and, for clobs, all byte strings.',
  'Tests use a short list of escapes; there are over a million code points and unboundedly many texts that could be mistaken for another token.',
  ['writer_text.py', 'reader_text.py'],
  [('quoting decision and escape emission', 'writer_text.py:_symbol_needs_quotes,_bytes_text,_escape'),
   ('escape, quoted text and symbol parsing', 'reader_text.py:_escape_sequence handlers, _symbol_token_end')],
  [], ['text output', 'values from the text reader'])

p('C19', 'Readers and writers reject protocol violations',
  'A writer accepts an event only when it is legal in its current state: containers end only when one is open, a stream ends only at the top level, scalars carry a value of their declared type, and input is neither withheld nor forced while output is pending. '
  'A reader accepts data only when it asked for it, never accepts empty data, and never lets a consumer skip at the top level; every violation raises an error, and no encoding of a rejected value is emitted.',
  ['histories'], 'All sequences of events sent to readers and writers in both encodings.',
  'Tests try a few wrong events; every reachable state crossed with every event is unbounded in depth.',
  ['reader.py', 'writer.py', 'writer_binary_raw.py', 'writer_text.py', 'writer_buffer.py'],
  [('reader and writer trampolines', 'reader.py:reader_trampoline; writer.py:writer_trampoline'),
   ('writer state machines', 'writer_binary_raw.py:_raw_writer_coroutine; writer_text.py:_raw_writer_coroutine'),
   ('scalar type validation', 'writer.py:serialize_scalar,validate_scalar_value')],
  [], ['exceptions from send on readers and writers'])

p('C20', 'Lazily read values are stable and equal to eager ones',
  'The value, field name and annotations of an event are the same whenever and however often they are accessed: immediately, after further events have been read, after the symbol table in force has changed, or after the event has been derived into another with a different field name, annotations or depth. '
  'Deriving an event changes only the named attribute, and each underlying value is decoded at most once.',
  ['histories', 'inputs'], 'All streams, all access times and orders, all chains of derivations.',
  'Tests touch values right after each event; delayed access across symbol table changes and derivation chains are histories.',
  ['core.py', 'reader_managed.py', 'reader_binary.py'],
  [('memoizing thunks and event derivation', 'core.py:MemoizingThunk,IonThunkEvent,IonEvent.derive_*'),
   ('managed thunk events bound to their context', 'reader_managed.py:_managed_thunk_event,_IonManagedThunkEvent')],
  [], ['event attributes'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        assert x['statement'].count('. ') <= 2, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
