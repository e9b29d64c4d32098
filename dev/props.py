SCOPE = ('Static: every path of the code reached by the scripted operations is interpreted over symbolic values, byte streams and failures; scripts bound nesting and the number of consecutive operations, '
         'values, sizes and failures are not bounded. Trusted: go/ssa, the models of bufio, io and encoding/binary in the checker, and the reference encoding tables in the checker, written from the Thrift specification. '
         'Paths the analysis cannot decide are listed in the evidence (none on the present tree).')
RW = [('binary read and write methods', 'encoding/thriftbinary/thriftbinary.go'), ('compact read and write methods', 'encoding/thriftcompact/thriftcompact.go')]
IO = RW + [('buffered look-ahead, string and byte reads', 'encoding/thriftwire/bufio.go'), ('varints', 'encoding/thriftwire/varint.go')]
prop('B01', 'Binary protocol: what is written is the specified encoding',
 'For every value of every wire type, header and message, strict and non-strict, the binary protocol writes exactly the bytes the Thrift binary protocol specifies for it, in the specified byte order. A successful write leaves those bytes, and no others, pending for the underlying writer.',
 ['inputs'], 'all values, sizes, names, field IDs and sequence IDs',
 'The existing tests encode a few sample values per type; a wrong bit for other values, sizes or IDs goes unseen.', BIN,
 [('write methods', BIN[0]), ('size check', BIN[0])], AI + 'output matched with the specified encoding', SCOPE)
prop('B02', 'Binary protocol: what is read is what was encoded, and exactly consumed',
 'Given any valid binary encoding, each read returns the value that was encoded without error and consumes exactly its bytes, strict and non-strict. Strict mode refuses messages without a version; non-strict mode accepts both forms.',
 ['inputs'], 'all values, sizes, names, IDs and all splits of the input into buffer fills',
 'Tests decode a few samples which fit the buffer; other values, lengths beyond the buffer and following data are not reached.', BIN + WIRE[:1],
 [('read methods', BIN[0]), ('chunked reads', WIRE[0])], AI + 'input generated from the specified encoding', SCOPE)
prop('C01', 'Compact protocol: what is written is the specified encoding',
 'For every value of every wire type, header and message, the compact protocol writes exactly the bytes the Thrift compact protocol specifies for it: zigzag varints, little-endian doubles, packed list and map headers, type codes. A successful write leaves those bytes, and no others, pending for the underlying writer.',
 ['inputs'], 'all values, sizes, names, field IDs and sequence IDs',
 'The existing tests encode a few sample values per type; boundaries such as sizes 14 and 15 or 5- and 10-byte varints go unseen.', CMP,
 [('write methods', CMP[0]), ('type codes', CMP[1])], AI + 'output matched with the specified encoding', SCOPE)
prop('C02', 'Compact protocol: what is read is what was encoded, and exactly consumed',
 'Given any valid compact encoding, each read returns the value that was encoded without error and consumes exactly its bytes, for every permitted form of the encoding.',
 ['inputs'], 'all values, sizes, names, IDs, permitted encodings and all splits of the input into buffer fills',
 'Tests decode a few samples produced by this writer; other permitted forms, boundaries and lengths beyond the buffer are not reached.', CMP + WIRE,
 [('read methods', CMP[0]), ('type codes', CMP[1]), ('varints', WIRE[1])], AI + 'input generated from the specified encoding', SCOPE)
prop('C03', 'Compact writer: field IDs and booleans stay apart across fields and structs',
 'In any sequence of fields and nested structs, the compact writer emits each field ID as the right delta or full ID with respect to the previous field of the same struct, and folds each boolean field into its own header while booleans in containers are written as values.',
 ['inputs', 'histories'], 'all field IDs and types, over sequences of fields and nested structs',
 'Tests write a couple of structs with fixed IDs; the state kept between calls matters for orders and nestings they never use.', CMP[:1],
 [('field ID stack and pending boolean of the writer', CMP[0])], AI + 'writer state followed over scripts of operations', SCOPE)
prop('C04', 'Compact reader: field IDs and booleans stay apart across fields and structs',
 'Given the valid encoding of any sequence of fields and nested structs, the compact reader returns each field ID and type and each boolean as encoded, whether folded into a header or held in a container.',
 ['inputs', 'histories'], 'all field IDs and types, over sequences of fields and nested structs',
 'Tests read a couple of structs with fixed IDs; the state kept between calls matters for orders and nestings they never use.', CMP[:1],
 [('field ID stack and pending boolean of the reader', CMP[0])], AI + 'reader state followed over scripts of operations', SCOPE)
prop('W01', 'No failure of the underlying writer is swallowed',
 'When the underlying writer fails at any point, the write or flush operation that ran into the failure returns an error, in every protocol.',
 ['inputs', 'fault_sequences'], 'all failures at every write, for all values',
 'Tests use writers that never fail.', BIN + CMP, RW, AI + 'error flow from every failing output operation to the result', SCOPE)
prop('W02', 'No failure of the underlying reader is swallowed',
 'When the underlying reader fails or ends at any point inside a value, the read or skip operation that ran into it returns an error, in every protocol.',
 ['inputs', 'fault_sequences'], 'all failures at every read, for all values and all truncations',
 'Tests truncate a few samples; they cannot fail at each read of each value.', BIN + CMP + WIRE + ['encoding/thriftwire/skip.go'], IO, AI + 'error flow from every failing input operation to the result', SCOPE)
prop('W03', 'Sizes read are in range, and allocation is bounded by what was received',
 'Whatever the input, a header read without error has a size within 0..2^31-1. No read allocates memory in proportion to a length the input merely claims: allocations are bounded by a constant, the buffer size, or the bytes received.',
 ['inputs'], 'all inputs, well-formed or not',
 'Tests cannot try the claims of all inputs; a single unchecked length is a denial of service.', BIN + CMP + WIRE, IO, AI + 'range analysis of returned sizes and of allocation sizes', SCOPE)
prop('W04', 'Sizes which do not fit the encoding are refused when written',
 'Writing a container header, string or name whose size is negative or exceeds 2^31-1 returns an error instead of emitting a wrapped or truncated size; a negative map size may be written as the empty map by the compact protocol.',
 ['inputs'], 'all sizes',
 'Tests never write such sizes.', BIN + CMP, RW, AI + 'range split of the size argument at every write', SCOPE)
prop('W05', 'Reads do not ask the source for bytes beyond the value',
 'While reading or skipping a value, no protocol demands bytes from the underlying reader beyond the last byte of that value, so a complete value is never held up by what has not been sent yet.',
 ['inputs', 'schedules'], 'all values and all arrivals of their bytes',
 'Tests read from memory, where further bytes or the end are always at hand.', BIN + CMP + WIRE, IO, AI + 'demand of each input operation compared with the rest of the value', SCOPE)
prop('W06', 'Skipping a value consumes exactly its encoding',
 'Skipping a value of any type consumes exactly its encoding, nested structs, maps, sets and lists included, and leaves the reader as reading the value would, so that what follows is read correctly. A type that does not exist is refused.',
 ['inputs', 'histories'], 'all values of all types, in all positions',
 'Tests skip a handful of samples; a mistake shows only for particular nestings, for example booleans in skipped structs.', ['encoding/thriftwire/skip.go'] + BIN + CMP,
 [('Skip', 'encoding/thriftwire/skip.go')] + RW, AI + 'calls made by Skip matched with the grammar of values; skipped encodings followed by further reads', SCOPE)
prop('W07', 'Flush delivers everything written, in order, to the underlying writer',
 'A successful flush hands all bytes written so far, in order and once, to the underlying writer and then flushes that writer if it can be flushed; any failure on the way is returned.',
 ['inputs', 'fault_sequences', 'histories'], 'all operations before the flush, all writers',
 'Tests flush into plain buffers only.', BIN + CMP + ['encoding/thriftwire/protocol.go'], [('Flush of the writers', BIN[0]), ('Flush of the writers', CMP[0]), ('Flush helper', 'encoding/thriftwire/protocol.go')],
 AI + 'delivered bytes and order of events on every path', SCOPE)
prop('W08', 'Reset leaves nothing of the past behind',
 'After Reset, a reader or writer behaves exactly like a new one on the new stream, whatever was done before and however it ended: no pending bytes, errors, field IDs or booleans carry over. It never redirects or alters a buffered reader or writer that belongs to the caller.',
 ['inputs', 'histories', 'fault_sequences'], 'all operations before Reset, failed ones included',
 'Tests reset fresh objects or none.', BIN + CMP, [('Reset of readers and writers', BIN[0]), ('Reset of readers and writers', CMP[0])],
 AI + 'states after arbitrary operations and Reset, judged like fresh ones', SCOPE)
prop('W11', 'No input and no value makes the protocols panic',
 'No input, however malformed, makes a read or skip panic, and no header or value makes a write panic, in any protocol; ending a struct that was never begun is the only misuse excluded.',
 ['inputs', 'histories'], 'all inputs and all headers and values, after operations that succeeded or failed',
 'Tests try few malformed inputs; panics hide behind particular lengths and codes.', BIN + CMP + WIRE + ['encoding/thriftwire/skip.go'], IO, AI + 'absence of run-time panics on every path', SCOPE)
NA = []
P_END = None
prop('W09', 'Exported compact header helpers agree with the protocol and their bounds',
 'The exported helpers that append and read compact headers produce and accept exactly the encodings of the compact protocol, and keep what the buffer already held. The exported maximum sizes are never exceeded by what a helper appends, and a header which has no encoding is refused with the buffer unchanged.',
 ['inputs'], 'all headers, preceding field IDs and buffers',
 'Tests call the helpers only through the writer, with a few headers.', CMP[:1], [('Append and Read header functions', CMP[0])], AI + 'helper results matched with the specified encoding', SCOPE)
prop('W10', 'Messages, type codes and sizes outside the protocol are refused when read',
 'A message of another protocol or version, a type code the compact protocol does not define, and a size outside 0..2^31-1 are each refused with an error when read or skipped.',
 ['inputs'], 'all wrong versions, undefined codes and out-of-range sizes, whatever follows them',
 'Tests try one or two wrong headers.', BIN + CMP, RW, AI + 'malformed encodings generated symbolically, every path must end in an error', SCOPE)
prop('W12', 'A joined protocol reads by the first protocol and writes by the second',
 'Readers made by a joined protocol are those of its first protocol and writers those of its second, on the stream given, unchanged.',
 ['inputs', 'configurations'], 'all pairs of protocols and all streams',
 'Tests join a protocol with itself or not at all.', ['encoding/thriftwire/protocol.go'], [('JoinProtocol', 'encoding/thriftwire/protocol.go')], AI + 'routing of calls on opaque protocols', SCOPE)
prop('W13', 'Skipping nests only to a bounded depth',
 'However deeply the input nests structs and containers, skipping a value recurs only to a bounded depth and then returns an error, so no input exhausts the stack.',
 ['inputs'], 'all inputs',
 'Tests skip shallow values; exhaustion needs input millions of levels deep.', ['encoding/thriftwire/skip.go'], [('Skip', 'encoding/thriftwire/skip.go')], 'interprocedural analysis of recursive calls: a bounded measure must move on each, decided by abstract interpretation', SCOPE)
TH = ['thrift/arshal.go', 'thrift/arshal_default.go', 'thrift/fields.go', 'thrift/errors.go']
TSCOPE = 'Decided for opaque Go types of each kind and for struct shapes of up to four fields with symbolic IDs; nested codecs are used by their contract (they succeed or fail, and read or write one value), which the same checks establish for each kind.'
DEF = [('codecs of the kinds of types', 'thrift/arshal_default.go')]
RT = 'abstract interpretation of the codecs in SSA form with a model of package reflect, '
prop('T01', 'Marshal writes every scalar with the wire type and call of its Go type',
 'Marshal writes a bool, integer, float, string or byte slice, named types of these kinds included, and [16]byte, by the one Thrift write of its type, with exactly the value of the Go value.',
 ['inputs'], 'all scalar Go types and all their values',
 'Tests marshal a few values of the predeclared types.', TH[1:2], DEF, RT + 'calls on an opaque writer matched with the specified mapping', TSCOPE)
prop('T02', 'Unmarshal stores in every scalar exactly what was read',
 'Unmarshal reads a bool, integer, float, string or byte slice, named types of these kinds included, and [16]byte, by the one Thrift read of its type, and the Go value holds afterwards what was read, in full; a float32 holds it rounded.',
 ['inputs'], 'all scalar Go types and all values read',
 'Tests unmarshal a few values of the predeclared types.', TH[1:2], DEF, RT + 'calls on an opaque reader and the content of the value on every path', TSCOPE)
prop('T03', 'A wire type which is not that of the Go type is refused untouched',
 'Where the wire type announced for a value differs from the one its Go type has, unmarshalling it fails before anything of the value is read and before the Go value changes; only nil pointers on the way to it may have been allocated.',
 ['inputs'], 'all Go types and all wire types',
 'Tests try one or two mismatches; each codec has its own test for it.', TH[1:2], DEF, RT + 'paths on which the wire type may differ', TSCOPE)
prop('T04', 'Lists, sets and maps are written as header, all elements in order, and end',
 'Marshal writes a slice as a list or set header with the wire type of its elements and their exact number, every element in order, and the end; a map as header, each key followed by its value, and the end; and a pointer as what it points to, nil as the zero value.',
 ['inputs'], 'all lengths and contents, all element types',
 'Tests marshal a few short containers.', TH[1:2], DEF, RT + 'sequence of calls, loops by inductive header states, matched with the grammar of containers', TSCOPE)
prop('T05', 'Lists, sets and maps hold what was read after Unmarshal',
 'Unmarshal reads exactly as many elements as the header of a list, set or map announces, by the announced element types and in order; the slice then has that length and these elements, whatever it held before, and the map holds each pair that was read. Nil pointers, and nil maps about to receive a pair, are allocated, others are kept.',
 ['inputs', 'histories'], 'all sizes announced, all element types, all previous contents of the value',
 'Tests decode short containers into empty values; growth and reuse of old content show only in longer ones.', TH[1:2], DEF, RT + 'sequence of calls, loops by inductive header states, and the content of the value at the end', TSCOPE)
prop('T06', 'Structs are written as their fields in ID order, zero ones left out',
 'Marshal writes a struct as its tagged fields in increasing order of field ID, each with a header of its own name, type and ID, and then ends the struct. Fields which are zero are left out unless they are required, and no other field is left out; ignored and unexported fields are never written.',
 ['inputs', 'configurations'], 'all struct types, field IDs and orders of declaration, all zero and non-zero values',
 'Tests use structs with IDs in order and with a few zero fields.', [TH[1], TH[2]], DEF + [('makeStructFields', TH[2])], RT + 'sequence of calls over struct shapes with symbolic field IDs', TSCOPE)
prop('T07', 'Structs are read field by field: known IDs decoded, unknown ones skipped',
 'Unmarshal reads the fields of a struct up to the stop field in whatever order and number they come; a field whose ID the Go type has is decoded into that Go field by the wire type of its header, any other is skipped by that type, and no other Go field changes.',
 ['inputs', 'histories'], 'all sequences of fields, IDs and types on the wire, all struct types',
 'Tests read fields in order and with few unknown ones.', [TH[1], TH[2]], DEF + [('lookup of fields by ID', TH[2])], RT + 'every round of the field loop matched with the grammar of structs', TSCOPE)
prop('T08', 'Struct types are refused exactly if their tags break the rules',
 'A struct type with a malformed field ID, an ID outside 16 bits, an ID used twice, a malformed, misspelt or repeated option, an exported field without tag or a tag on an unexported field is refused with an error before anything is read or written. Every type whose tags keep to the rules is accepted.',
 ['inputs', 'configurations'], 'all struct types and tags',
 'Tests have a handful of types with good tags and some bad ones.', [TH[2], TH[1]], [('makeStructFields and parseFieldOptions', TH[2])], RT + 'a table of tags around each rule, field IDs partly symbolic', TSCOPE)
prop('T09', 'Decoding never starts from stale content',
 'What Unmarshal decodes an element, map entry or pointed-to value into is a zero value, the entry the map already has for that key, or the value a non-nil pointer points to, so nothing of other or former elements shows up in what was not on the wire.',
 ['inputs', 'histories'], 'all sizes, all previous contents and capacities of the value',
 'Tests decode into fresh values; leftovers show only when old capacity is reused.', TH[1:2], DEF, RT + 'tracking of what is known of each place at the time it is decoded into', TSCOPE)
prop('T10', 'Failures while coding end the work and come out as a semantic error',
 'When any call of the reader or writer fails, Marshal and Unmarshal make no further calls and return an error: a *SemanticError that names the direction and Go type and from which the failure can be unwrapped, passed on unchanged by enclosing codecs.',
 ['inputs', 'fault_sequences'], 'a failure at any call, for all types and values',
 'Tests cannot fail every call of every codec.', TH[1:2] + TH[3:], DEF + [('SemanticError', TH[3])], RT + 'error flow from every failing call to the result', TSCOPE)
prop('T11', 'Marshal does not modify the value',
 'Marshal changes nothing reachable from the value it is given: no field, element, map entry, length or pointer.',
 ['inputs'], 'all types and values', 'Tests compare only a few values, if any, after marshalling.', TH[1:2], DEF, 'effect analysis by ' + RT + 'every mutating operation must act on memory made by the call', TSCOPE)
prop('T12', 'Codecs which goroutines share are changed only under synchronisation',
 'State that concurrent Marshal and Unmarshal calls share, such as the cache of codecs and the codecs in it, changes only before it is published, within sync.Once, under a lock or by atomic operations of sync types; so concurrent use is free of data races.',
 ['schedules', 'histories'], 'all interleavings of first and later uses of all types',
 'Tests run in one goroutine; a race shows in particular interleavings of first uses.', TH[:3], [('cache of codecs', TH[0]), ('lazy initialisation of codecs', TH[1])], 'escape and effect analysis by ' + RT + 'shared objects compared between synchronisation points', TSCOPE)
prop('T13', 'Recursive types are coded, and nesting of values is bounded',
 'A codec is made in finite time for every type, recursive ones included, and types of nothing but pointers are refused. Values nested deeper than a fixed bound, in memory or on the wire, make Marshal or Unmarshal return an error instead of exhausting the stack.',
 ['inputs', 'configurations'], 'all recursive types, all cyclic or deep values and all deep inputs',
 'Tests have one or two recursive types with shallow values.', TH[:2], [('cache of codecs', TH[0]), ('depth options', TH[0]), ('lazy initialisation of codecs', TH[1])], RT + 'codecs of a set of type graphs; a bounded depth must grow on each nested call', TSCOPE)
prop('T14', 'Invalid arguments and unsupported types give an error and touch nothing',
 'Marshal of an invalid or unsupported value, and Unmarshal into anything but a non-nil pointer to a supported type, return a *SemanticError without panicking and without reading or writing anything; every other argument is handed to the codec of its type.',
 ['inputs'], 'all kinds of arguments and types', 'Tests try nil and one or two kinds.', TH[:2], [('Marshal and Unmarshal', TH[0])], RT + 'all kinds of arguments', TSCOPE)
prop('T15', 'Decoding allocates as elements arrive, not as headers claim',
 'Unmarshal never makes room for the number of elements a header announces; a slice grows only for an element about to be read, and a map is made without the announced size as hint, so a short input cannot make it allocate much.',
 ['inputs'], 'all sizes announced', 'Tests cannot observe how much is allocated for sizes that are never delivered.', TH[1:2], DEF, 'taint analysis by ' + RT + 'sizes of all allocations and growths', TSCOPE)
TF = ['tools/thriftfile/scanner.go', 'tools/thriftfile/parser.go', 'tools/thriftfile/tokens.go', 'tools/thriftfile/nodes.go']
SC = [('scanning of tokens', TF[0]), ('steps from character to character', TF[0])]
PA = [('recursive descent', TF[1])]
PSCOPE = ('Static: every function is interpreted over symbolic characters or tokens, loops by inductive header states, and every path is matched with an automaton or grammar in the checker, written from the Thrift IDL. '
          'Sources are not bounded in length, nesting or content. Characters beyond ASCII are told apart only as letters, digits and others. Trusted: go/ssa, go/token, unicode/utf8, and the grammar in the checker. '
          'Paths the analysis cannot decide are listed in the evidence (none on the present tree).')
prop('P01', 'IDL source is split into the longest tokens of the lexical grammar',
 'For every source, parsing a .thrift file sees the tokens of the Thrift IDL by longest match: identifiers with dots and Unicode letters, exactly the reserved words (case-sensitive) as keywords, signed decimal, hexadecimal and exponent numbers, strings in either quote with escapes, operators and punctuation. White space (blank, tab, newline, carriage return), comments (//, # and /* */) and a byte order mark at the start yield no token.',
 ['inputs'], 'all sources', 'Tests scan a list of sample tokens; combinations of characters around token boundaries are unbounded.', [TF[0], TF[2]],
 SC + [('keyword table', TF[2])], AI + 'paths matched with a finite automaton over character classes', PSCOPE)
prop('P02', 'Tokens, errors and lines of IDL source have their true positions',
 'Every token and every node has as position the offset of its first character, an error of the scanner the offset of the character it is about, and the line table begins a line after each newline and nowhere else. So the positions reported for errors name the line and column in the source.',
 ['inputs'], 'all sources', 'Tests look at the positions in a few small files; multi-byte characters, last lines and errors right after newlines go unseen.', TF[:1],
 SC, AI + 'offsets at token starts, errors and added lines', PSCOPE)
prop('P03', 'Malformed IDL characters and literals are reported, well-formed ones never',
 'An error is reported exactly once, at the character concerned, for each illegal character, NUL, invalid UTF-8, misplaced byte order mark, unterminated string or comment, newline in a string, unknown escape, and identifier which begins with a digit beyond ASCII. Nothing else is a lexical error.',
 ['inputs'], 'all sources', 'Tests contain a few malformed literals; silent acceptance of another one is not observed.', TF[:1],
 SC, AI + 'error reports matched with those due in an automaton over character classes', PSCOPE)
prop('P04', 'The IDL scanner always terminates and never reads outside the source',
 'For every source, scanning a token ends, and every token but the end of file consumes at least one character. No index or slice of the source is out of range and no panic occurs.',
 ['inputs'], 'all sources', 'An endless loop or a slice out of range may need an input that no test has, such as a source that ends in the middle of a literal.', TF[:1],
 SC, AI + 'ranking by consumed characters, interval and difference bounds for indices', PSCOPE)
prop('P06', 'Parse accepts exactly the Thrift IDL grammar',
 'A sequence of tokens parses without an error if and only if the IDL grammar derives it: headers before definitions, optional separators, annotations, field IDs, requiredness, references, defaults, throws and extends included. Only nesting deeper than a fixed bound is refused in addition.',
 ['inputs'], 'all sequences of tokens', 'Tests parse a handful of files; the language is infinite, and most errors in a parser concern combinations or malformed input that no file contains.', TF[1:3],
 PA, AI + 'paths of each function matched with its LL(1) production, calls by nonterminals', PSCOPE)
prop('P07', 'The IDL syntax tree reflects every part of the source, in order',
 'For every source that parses, the tree has exactly the headers, definitions, fields, values, methods and annotations of the source, in source order and in the proper fields of their nodes, with names and literals as in the source and flags (union, exception, required, optional, oneway, void, reference) set exactly where the keyword stands.',
 ['inputs'], 'all sources that parse', 'Tests compare a few trees; a lost, swapped or misplaced part needs the particular combination.', TF[1:4],
 PA + [('nodes', TF[3])], AI + 'nodes returned compared with those the production determines', PSCOPE)
prop('P08', 'Parse always terminates and never panics',
 'For every source, however malformed, Parse returns: every round of every loop and every call that may recur consumes a token, and no panic escapes.',
 ['inputs'], 'all sources', 'An endless loop on malformed input needs an error at the very place where recovery does not consume; tests have few malformed files.', TF[1:3],
 PA, AI + 'ranking by consumed tokens on the cycles of loop states, panics of all functions', PSCOPE)
prop('P09', 'Nesting in IDL source is bounded, so parsing cannot exhaust the stack',
 'Types and values nested beyond a fixed depth are refused with an error, so no source makes Parse recur without bound. The depth is accounted exactly: it is restored when a type or value ends and when parsing gives up, so no source is refused for the total number of types and values in it.',
 ['inputs'], 'all sources', 'Stack exhaustion takes huge inputs, and a leak in the accounting shows only after thousands of definitions.', TF[1:2],
 PA + [('depth accounting', TF[1])], 'call graph weighted with the change of the depth counter, which ' + AI + 'yields; cycles without growth and unbounded growth are violations', PSCOPE)
prop('P10', 'Parse returns an error if and only if there was one, and all in order',
 'Parse returns the file parsed, and a nil error exactly when neither scanner nor parser found an error; otherwise the error lists all of them, each at its position with its message, ordered by file, line, column and message. The file is added once to the file set, with the name given and the size of the source.',
 ['inputs'], 'all sources', 'Tests check one error at a time; lost errors or a wrong order of several on one line go unseen.', TF[1:2],
 PA + [('list of errors', TF[1])], AI + 'of Parse with scanner and parser abstracted; the comparison decided for all orderings of the keys', PSCOPE)
prop('P11', 'Syntax errors are reported where they are, and parsing goes on',
 'Each syntax error is reported at the unexpected token before anything more is skipped, and giving up on a definition always leaves an error. Parsing goes on with the next definition keyword without skipping a definition, and the placeholder node spans exactly the skipped source.',
 ['inputs'], 'all sources', 'Tests contain few syntax errors and do not look at what follows them.', TF[1:3],
 PA + [('recovery', TF[1])], AI + 'error events on the paths and the state after recovery', PSCOPE)
