"""The properties. tools/gen.py writes properties.jsonl and MANIFEST.json from this list."""
C = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=''):
    C.append(dict(id=id, na=na, note=note, prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None))))

p('C01', 'Buffer cursor operations are all or nothing and stay inside the buffer',
  'Whatever cursor position and length it is given, a buffer operation that reads or writes an integer or a byte string either transfers all of it, little endian and byte exact, and advances the cursor by exactly its size, or transfers nothing, returns 0 and leaves the cursor, the buffer and the caller\'s memory as they were. '
  'No operation touches memory outside the buffer, also when position plus length wraps around. '
  'A new buffer is zero filled with its cursor at 0; seeking sets the cursor, resetting rewinds it and keeps the bytes, and the remaining span is exactly the unread part (empty when the cursor is past the end).',
  ['inputs'], 'for every buffer size and content, every cursor position, every length and every value',
  'tests only make transfers that fit, from position zero; positions and lengths are 64 bit numbers and the boundary cases (one octet short, wrap around) are never tried',
  ['src/buf.cc', 'include/crefl/buf.h'], [('capacity check', 'include/crefl/buf.h: crefl_buf_read_*/write_*'), ('byte transfers', 'include/crefl/buf.h: crefl_buf_read_bytes, crefl_buf_write_bytes'), ('byte order', 'include/crefl/endian.h: le16..le64')],
  [('cursor', 'next octet to transfer', 'crefl_buf.data_offset')], ['return values', 'crefl_buf_offset', 'crefl_buf_data', 'crefl_buf_remaining'])
p('C02', 'BER identifier, tag and length octets are exact, minimal and invertible',
  'Every class, form and tag number below 2^56 and every 64-bit definite length encodes to the octets X.690 prescribes in its shortest form, occupying exactly the number of octets the length functions announce, and reads back to the same fields. '
  'Reading arbitrary octets yields the fields those octets denote and consumes exactly them, or fails when they are truncated, indefinite or too large to represent. '
  'What does not fit in the remaining space or in the representation is refused and never written truncated.',
  ['inputs'], 'for every tag number, class, form and length, and for every octet sequence read',
  'the tests try a handful of small tags and lengths; the carry, the class bits, high tag numbers and lengths above 127 need particular values',
  ['src/asn1.cc'], [('identifier octets', 'src/asn1.cc: crefl_asn1_ber_ident_read/write/length'), ('base 128 tag numbers', 'src/asn1.cc: crefl_asn1_ber_tag_read/write/length'), ('length octets', 'src/asn1.cc: crefl_asn1_ber_length_read/write/length')],
  [], ['crefl_asn1_ber_ident_read', 'crefl_asn1_ber_length_read', 'buffer contents'])
p('C03', 'Integers encode in the shortest form, at every width, and read back exactly',
  'Every 64-bit value, signed or unsigned, big or little endian, by pointer or by value, has contents of exactly the announced shortest length, reads back to the same value, and is consumed exactly; a DER integer additionally carries its tag and length. '
  'For any requested length of 1 to 8 octets the reader returns the value those octets denote (sign extended for signed) and the writer stores exactly the low octets; other lengths, truncated contents and contents that do not fit are refused. '
  'The pointer and by value variants behave identically.',
  ['inputs'], 'for every 64-bit value, every length argument and every content',
  'tests encode about a dozen values; an error at one octet boundary, one sign or one variant is missed',
  ['src/asn1.cc'], [('unsigned contents', 'src/asn1.cc: crefl_asn1_ber_integer_u64_*'), ('signed contents', 'src/asn1.cc: crefl_asn1_ber_integer_s64_*'), ('little endian contents', 'src/asn1.cc: crefl_le_ber_integer_*'), ('tag and length', 'src/asn1.cc: crefl_asn1_der_integer_*')],
  [], ['buffer contents', 'return value', 'value read'])
p('C04', 'ASN.1 REAL round-trips every double bit for bit in canonical form',
  'Every double, including subnormals, signed zeros and infinities, encodes as the REAL contents X.690 prescribes for DER (base 2, odd mantissa, shortest exponent and mantissa), in exactly the announced number of octets, and decodes to the same bits; every NaN decodes to a NaN. '
  'Reading arbitrary contents gives the value they denote under X.690 (any base 2, 8 or 16, any scale factor, exponents of up to two octets, excess precision truncated) and consumes exactly them, or refuses contents that are malformed, truncated or out of range. '
  'An encoding that does not fit is refused, and pointer and by value variants behave identically.',
  ['inputs'], 'for every double and for every contents of up to 12 octets',
  'tests compare a few dozen doubles; exponent boundaries, subnormals, other bases and scale factors are untested',
  ['src/asn1.cc'], [('REAL contents', 'src/asn1.cc: crefl_asn1_ber_real_f64_*'), ('double assembly', 'src/asn1.cc: f64_asn1_data_get, f64_asn1_data_put'), ('tag and length', 'src/asn1.cc: crefl_asn1_der_real_f64_*')],
  [], ['buffer contents', 'value read'])
p('C05', 'The vf128 float encoding is lossless, canonical and total',
  'Every double and every float encodes in vf128 as the documented form (inlined exactly when it is a float7 value, otherwise the shorter of explicit and implicit exponent with redundant octets and mantissa bits removed) and decodes to the same bits, or to a NaN for a NaN. '
  'Reading any well formed encoding gives the value it denotes, truncated to the target precision, infinity when too large and zero when too small, and consumes exactly it; the reserved header, zero mantissas, over-long mantissas and truncated encodings are refused. '
  'A float encoding read as a double is the same number, encodings that do not fit are refused, and pointer and by value variants behave identically.',
  ['inputs'], 'for every double and float and for every header and contents',
  'the random test samples doubles from a narrow distribution; subnormals, extreme exponents, foreign encodings and truncated input are never reached',
  ['src/asn1.cc', 'docs/vf128.md'], [('double encoder and decoder', 'src/asn1.cc: crefl_vf_f64_*'), ('float encoder and decoder', 'src/asn1.cc: crefl_vf_f32_*'), ('mantissa and exponent layout', 'src/asn1.cc: crefl_vf_f64_data_get, _vf_unpack')],
  [], ['buffer contents', 'value read'])
p('C06', 'LEB128 and VLU integers round-trip below 2^56 and refuse everything else',
  'Every value below 2^56 encodes in seven bits per octet, in the fewest octets, as LEB128 (continuation bits) or VLU (unary length prefix), touches nothing after its last octet, and reads back exactly. '
  'Larger values and values that do not fit are refused with the cursor unmoved. '
  'Any encoding of at most eight octets decodes to the value it denotes and is consumed exactly, and truncated or longer ones are refused.',
  ['inputs'], 'for every 64-bit value, capacity and octet sequence',
  'tests use a few values; the limit at 56 bits and truncated input are not tried',
  ['src/asn1.cc'], [('LEB128', 'src/asn1.cc: crefl_leb_u64_*'), ('VLU', 'src/asn1.cc: crefl_vlu_u64_*')], [], ['buffer contents', 'value read', 'crefl_buf_offset'])
p('C07', 'Object identifiers encode per X.690 and read back arc for arc',
  'Every object identifier of two or more arcs (first arc 0 to 2, second below 40 under 0 and 1, others below 2^56) encodes to base 128 subidentifiers with the first two arcs combined, in exactly the announced number of octets, and reads back arc for arc; DER adds the exact tag and length. '
  'Arbitrary contents are decoded to their arcs and consumed exactly, or refused with no arcs when a subidentifier is truncated or longer than eight octets. '
  'More arcs than can be held are counted but never stored outside the object, and such an object identifier cannot be written.',
  ['inputs'], 'for every object identifier and every contents',
  'tests encode one object identifier; first arc 2, wide arcs, truncated contents and too many arcs are untested',
  ['src/asn1.cc'], [('subidentifiers', 'src/asn1.cc: crefl_asn1_ber_oid_length/read/write'), ('tag and length', 'src/asn1.cc: crefl_asn1_der_oid_read/write')],
  [('arc count', 'number of arcs in the encoding', 'asn1_oid.count')], ['asn1_oid', 'buffer contents'])
p('C08', 'Dotted object identifier text parses and prints exactly',
  'Text is accepted exactly when it is a sequence of dot separated decimal numbers below 2^56 without leading zeros (a trailing dot and the empty text are allowed), each number giving one arc with its value, and never a character beyond the given length is read. '
  'Printing gives the dotted decimal text of all arcs and its length, a short buffer receives a terminated beginning of it and nothing is written beyond it, and parsing what was printed gives the same arcs.',
  ['inputs'], 'for every text, every object identifier and every buffer size',
  'tests parse and print a single identifier with ample room; boundaries of numbers, buffers and malformed text are not tried',
  ['src/asn1.cc'], [('parser', 'src/asn1.cc: crefl_asn1_oid_from_string'), ('printer', 'src/asn1.cc: crefl_asn1_oid_to_string')], [], ['asn1_oid', 'text buffer', 'returned length'])
p('C09', 'Octet strings, booleans and null transfer exactly their contents',
  'Reading an octet string of any declared length moves the cursor over the whole contents, reports the full length and copies no more than the caller\'s buffer holds; writing stores exactly the string\'s octets and nothing else; a length that does not fit is refused with nothing moved. '
  'A boolean has exactly one contents octet, false exactly when it is zero, and null has none; other lengths are refused. '
  'The DER forms carry the exact tag and length and read back what was written.',
  ['inputs'], 'for every length, every caller buffer size and every content',
  'tests use strings shorter than the buffer; lengths near the limits and refused lengths are not tried',
  ['src/asn1.cc'], [('octet strings', 'src/asn1.cc: crefl_asn1_ber_octets_*, crefl_asn1_der_octets_*'), ('booleans', 'src/asn1.cc: crefl_asn1_ber_boolean_*'), ('null', 'src/asn1.cc: crefl_asn1_ber_null_*')], [], ['cursor', 'caller buffer', 'asn1_string.count'])
p('C10', 'DER readers are safe and exact on arbitrary input',
  'For any octets at any position, each DER reader (boolean, integers, reals, octet string, object identifier, null) either succeeds, having consumed exactly the header and the declared contents and returned the value they denote, or reports failure; it never moves the cursor outside the buffer and never touches memory outside the buffer and the caller\'s objects. '
  'It fails exactly when the header is malformed or truncated, the contents run past the buffer, or their length or form is not allowed for the type. '
  'Values written one after another read back in order, ending where writing ended.',
  ['inputs', 'histories'], 'for every buffer content, size and position',
  'tests feed the readers only what the writers produced',
  ['src/asn1.cc', 'src/buf.cc'], [('headers', 'src/asn1.cc: crefl_asn1_ber_ident_read, crefl_asn1_ber_length_read'), ('readers', 'src/asn1.cc: crefl_asn1_der_*_read')], [], ['return value', 'cursor', 'value read'])

p('C11', 'Database images and files round-trip everything the application stored',
  'A database written to memory takes exactly the announced size, and reading it back gives the same nodes field for field, the same names octet for octet, the same root and the same builtin types, so that writing it again gives the same image. '
  'An output that is too small is refused and left untouched. '
  'Writing a file succeeds exactly when every octet of the image reached the file and was flushed; reading takes either the whole file or nothing. Destroying a database frees everything.',
  ['inputs', 'faults'], 'for every node content and name content within the bounds, every capacity, and a fault at any file operation',
  'the tests save one small database; which field or octet is lost, and what happens when a file operation fails half way, depends on values and faults they never produce',
  ['src/db.cc', 'include/crefl/util.h', 'src/model.cc'], [('memory image', 'src/db.cc: crefl_db_read_mem, crefl_db_write_mem, crefl_db_size'), ('files', 'include/crefl/util.h: crefl_read_file, crefl_write_file'), ('allocation', 'src/model.cc: crefl_db_new, crefl_decl_new, crefl_name_new')],
  [('nodes', 'the declarations, builtin ones first', 'decl_db.decl'), ('names', 'NUL terminated names', 'decl_db.name')], ['crefl_db_read_mem', 'crefl_db_write_mem', 'crefl_db_read_file', 'crefl_db_write_file'])
p('C12', 'Arbitrary images are refused or give a well formed database',
  'Reading any sequence of octets as a database image never touches memory outside it. An image without the magic, shorter than its header says, made for other builtin types or with an unterminated name table is refused. '
  'An accepted image gives exactly its nodes and names after the builtin ones, every link and name offset of every node is in range, and every name is NUL terminated within the name table.',
  ['inputs'], 'for every image within the bounds',
  'tests read only images the library wrote; corrupt sizes, links and names are adversarial inputs',
  ['src/db.cc'], [('reader', 'src/db.cc: crefl_db_read_mem'), ('magic', 'src/db.cc: crefl_db_magic')],
  [('nodes', 'the declarations, builtin ones first', 'decl_db.decl'), ('names', 'NUL terminated names', 'decl_db.name')], ['crefl_db_read_mem', 'crefl_decl_name', 'crefl_decl_link'])
p('C13', 'Reflection queries list exactly the children of the right kind',
  'A list query (constants, fields, parameters, declarations, types, functions, sources) on a node of its kind gives, in order, exactly the children of the wanted kind; it gives no more than the caller has room for while still counting all of them, accepts no array or no count, and changes nothing. On a node of any other kind it is refused with nothing written. '
  'Every predicate holds for exactly its kind, and every accessor returns the stored link, count, value or name for its kind and void or zero for others.',
  ['inputs'], 'for every sequence of children of every kind, every parent kind and every limit',
  'tests query well formed lists of one kind with ample room; mixed children, short arrays and wrong parents are not tried',
  ['src/model.cc', 'include/crefl/model.h'], [('list queries', 'src/model.cc: crefl_list_scan, crefl_enum_constants, crefl_struct_fields, crefl_source_types, ...'), ('accessors', 'src/model.cc: crefl_is_*, crefl_*_type')],
  [('nodes', 'declarations linked by next and link', 'decl_db.decl')], ['query results', 'count'])
p('C14', 'Sizes, alignments and field offsets are those of the C ABI',
  'The width of every type built from builtin types, pointers, arrays of any length, arrays of arrays, structures, unions, enumerations, sets, typedefs, qualifiers and aliases is the one the C compiler of the platform gives it: fields at the next multiple of their alignment, structures padded to the strictest alignment of a field, unions as large as their largest member. '
  'The reported alignment and field offsets agree with it. Bit-fields, packing and alignment attributes are outside this property.',
  ['inputs'], 'for every combination of the type shapes, and every array length',
  'the tests look at widths of a handful of declarations, none nested or padded',
  ['src/model.cc', 'src/types.cc'], [('widths', 'src/model.cc: crefl_type_width, crefl_array_width, crefl_struct_width, crefl_union_width'), ('alignment', 'src/model.cc: crefl_type_align and its callees'), ('builtin types', 'src/types.cc')],
  [('nodes', 'declarations linked by next and link', 'decl_db.decl')], ['crefl_type_width', 'crefl_type_align'])
p('C15', 'Nodes, names and builtin types are stored without loss and found again',
  'New nodes and names are numbered one after another, start empty, and never disturb what was stored before, however often the tables grow; the empty name is offset 0. A fresh database has the builtin types once each with their widths and properties. '
  'Looking up an intrinsic gives the first type of exactly that width having all the wanted properties, or void. Destroying a database frees everything.',
  ['inputs', 'histories'], 'for every property set and width, and every sequence of allocations within the bounds',
  'growth of the tables at particular name lengths and node counts, and lookups for arbitrary properties, are not sampled by the tests',
  ['src/model.cc', 'src/types.cc'], [('allocation', 'src/model.cc: crefl_decl_new, crefl_name_new'), ('lookup', 'src/model.cc: crefl_intrinsic'), ('builtin types', 'src/types.cc: crefl_db_defaults')],
  [('nodes', 'declarations', 'decl_db.decl'), ('names', 'NUL terminated names', 'decl_db.name')], ['crefl_lookup', 'crefl_decl_name', 'crefl_intrinsic'])
p('C17', 'The hash map behaves as a map',
  'After any history of insertions, lookups, subscripting, erasures and clearing, the map holds exactly the keys inserted and not erased, each once and with the value last stored, whatever their hashes collide on and whenever the table grows; size, iteration and find agree with it. '
  'Copies are independent, moves leave the source empty and usable, and nothing is read or written outside the tables or leaked.',
  ['histories', 'inputs'], 'for every history of operations and every key and hash within the bounds',
  'tests insert many distinct keys in one pattern; erasure followed by insertion through deleted slots, small tables and moves are not covered',
  ['include/crefl/hashmap.h'], [('probing', 'include/crefl/hashmap.h: find, insert_internal, erase'), ('growth', 'include/crefl/hashmap.h: resize_internal'), ('copy and move', 'include/crefl/hashmap.h')],
  [('entries', 'keys and values in the map', 'hashmap.data, hashmap.bitmap')], ['size', 'find', 'iteration'])
p('C18', 'Digests are SHA-224 and SHA-256',
  'The digest of every message is the one FIPS 180-4 defines, of 28 or 32 octets and nothing beyond them, however the message is cut into updates, and a context that was used before gives the same digest after it is initialised again.',
  ['inputs', 'histories'], 'for every message content of the lengths within the bounds and every way to cut it',
  'tests digest one fixed message',
  ['src/sha256.cc', 'include/crefl/endian.h'], [('compression', 'src/sha256.cc: sha256_transform'), ('padding', 'src/sha256.cc: sha256_final'), ('buffering', 'src/sha256.cc: sha256_update')],
  [('block', 'octets not yet digested', 'sha256_ctx.block, nbytes'), ('chain', 'chaining value', 'sha256_ctx.chain')], ['sha256_final'])
p('C16', 'Bit counting and octet order helpers are right for every value',
  'Counting leading zeros, trailing zeros and set bits gives the count defined bit by bit, the full width for zero included, for 32 and 64 bit values of either signedness. Byte swapping reverses the octets; conversions to and from big and little endian put the most or the least significant octet first in memory. '
  'C++ callers, C callers (generic selections) and compilers without builtins (the portable definitions) all get the same answers.',
  ['inputs'], 'for every 16, 32 and 64 bit value',
  'tests do not call most of these helpers; the failing values are single points among 2^64 and depend on the language and compiler used',
  ['include/crefl/bits.h', 'include/crefl/endian.h'], [('bit counting', 'include/crefl/bits.h: clz, ctz, popcnt and their _u32, _u64 forms'), ('octet order', 'include/crefl/endian.h: bswap16, bswap32, bswap64, be*, le*, htobe, betoh, htole, letoh')],
  [('value', 'the operand', 'none')], ['results'])
p('C22', 'asn1tool --dump shows exactly the elements of any file',
  'For a file of well formed BER, asn1tool --dump writes one line for each element in order, with its offset, length, nesting depth, whether it is constructed, the name of its tag and its contents (integers, bit strings and reals in hex, object identifiers in dotted form, texts quoted), and succeeds with nothing on the error output. '
  'Any other file, one that cannot be opened, examined or read included, is reported on the error output, and no file whatever makes it read outside the file, crash, run on or leave the file open.',
  ['inputs', 'faults'], 'for every file within the bounds and every read fault',
  'no test runs the tool; damaged and nested files are unbounded in variety',
  ['tool/asn1tool.cc', 'src/asn1.cc', 'src/buf.cc', 'include/crefl/util.h'], [('dump', 'tool/asn1tool.cc: dump_asn1, read_asn1, oid_str, hex_str'), ('headers', 'src/asn1.cc: crefl_asn1_ber_ident_read, crefl_asn1_ber_length_read'), ('file reading', 'include/crefl/util.h: read_file')],
  [('file', 'octets of the file', 'crefl_buf'), ('output', 'lines written', 'stdout, stderr')], ['standard output', 'error output', 'exit status'])
p('C19', 'Type hashes identify declarations up to structure, wherever they are stored',
  'Two declarations have equal hashes exactly when their kinds, names, properties, quantities, all attributes in order and everything they link to agree, whatever their numbers, databases and neighbours: containers (archives, sources, sets, enumerations, structures, unions, functions) link to all their children in order, others to one declaration, and a link back to a declaration being hashed counts as its kind and name. '
  'Every declaration within reach of the root gets a hash and a qualified name, the names of its named enclosing declarations within the source joined by "::"; no others do, however the tables grow. Names contain no semicolon.',
  ['inputs'], 'for every pair of declaration trees within the bounds, with every name, property and quantity',
  'tests print hashes of a few sources; collisions, ordering and dependence on numbering need pairs of trees chosen against the scheme',
  ['src/link.cc', 'include/crefl/link.h'], [('hashing', 'src/link.cc: crefl_node_hash, crefl_hash_node_sum'), ('qualified names', 'src/link.cc: crefl_node_name, crefl_entry_name_new'), ('table growth', 'src/link.cc: crefl_entry_ref')],
  [('declarations', 'nodes linked by next, link and attr', 'decl_db.decl'), ('entries', 'hash and qualified name of each node', 'decl_index.entry, decl_index.name')], ['crefl_entry_ptr()->hash', 'crefl_entry_fqn'],
  note='SHA-224 is replaced by an ideal digest (equal transcripts get equal digests, different ones different digests); C18 shows it is SHA-224.')
p('C20', 'Merging keeps every declaration and stores equal ones once',
  'The output of crefl_link_merge has the builtin types, then an archive with the base name of the output whose children are the sources, in order, each with all its declarations: kinds, names, properties, quantities, attributes, order of children and links are those of the input, where an alias stands for the declaration of its name. '
  'Structures, unions, enumerations, sets and functions that are equal are stored once, self references lead to the declaration itself, nothing else is stored, the inputs are left alone, and outputs can be merged again.',
  ['inputs', 'histories'], 'for every choice of declarations in up to three sources, with every name, property and quantity, equal or different',
  'tests do not check what merging makes of sources that share, nearly share or repeat declarations',
  ['src/link.cc', 'src/model.cc'], [('merging', 'src/link.cc: crefl_link_merge, crefl_copy_node'), ('sharing', 'src/link.cc: crefl_link_state, hashmap<decl_hash,...>')],
  [('inputs', 'databases merged', 'decl_db'), ('output', 'the merged database', 'decl_db'), ('map', 'hash to declaration', 'crefl_link_state.map')], ['declarations of the output'],
  note='SHA-224 is replaced by an ideal digest. Known finding: parts that refer back to structures of one name but different contents.')
p('C21', 'Text helpers give whole texts of any length',
  'string_printf and string_vprintf return exactly the formatted text whatever its length. crefl_basename gives what follows the last slash or backslash. Octets and buffers are drawn in hex and two bits to a character, sixteen octets to a row with the first rightmost; nothing is written beyond the room given, and a text cut short is reported.',
  ['inputs'], 'for every text length within the bounds, every path, octet and room',
  'the lengths at which the first attempt just fits or just fails are not sampled by tests',
  ['include/crefl/util.h', 'src/buf.cc'], [('formatting', 'include/crefl/util.h: string_printf, string_vprintf'), ('names', 'include/crefl/util.h: crefl_basename'), ('drawing', 'src/buf.cc: crefl_format_byte, crefl_buf_dump')],
  [('text', 'the text returned', 'std::string')], ['the text returned', 'standard output'])
p('C23', 'crefltool emits, merges and counts faithfully and reports every failure',
  'crefltool --emit writes a C text declaring an array of exactly the octets of the database and its size. --merge writes exactly the merged database. --stats shows the numbers of records and octets, builtin and user, and the size of the file. '
  'An input that cannot be opened, examined, read or is no database, and an output that cannot be opened, written or closed, is reported on the error output with status 1. Command lines that are not understood are refused with the usage and status 1 before any file is touched.',
  ['inputs', 'faults'], 'for every database within the bounds, every fault and every command line',
  'tests run the tool on good inputs only; array ends depend on the size modulo 16 and faults are not injected',
  ['tool/crefltool.cc', 'src/db.cc', 'src/link.cc', 'src/dump.cc'], [('emit', 'tool/crefltool.cc: do_emit'), ('merge', 'tool/crefltool.cc: do_merge'), ('statistics', 'src/dump.cc: crefl_db_dump_stats'), ('options', 'tool/crefltool.cc: main')],
  [('files', 'inputs and output', 'files named on the command line'), ('output', 'text written', 'stdout, stderr')], ['files written', 'standard output', 'error output', 'exit status'])
p('C24', 'Dumps show every declaration of a database in columns',
  'crefltool --dump and its seven variants print a header, one line for each declaration in order and a footer; each line has, in columns of the width of the variant, number, attribute, next and link numbers, kind, name, properties in their fixed order with the width, size, value or address where the kind has one, what it links to, and where asked for its hash and qualified name (that of its target for an alias). Cells too long are cut with an ellipsis. No database makes a dump read outside its tables.',
  ['inputs'], 'for every kind, property and option, and every length of name within the bounds',
  'tests do not compare dumps, least of all of long names, rare properties or declarations out of reach of the root',
  ['src/dump.cc', 'tool/crefltool.cc', 'include/crefl/util.h'], [('rows', 'src/dump.cc: crefl_db_get_row, _props, _link, _fqn'), ('columns', 'src/dump.cc: _pad_str, fields_std, ...')],
  [('declarations', 'nodes of the database', 'decl_db.decl'), ('index', 'hashes and qualified names', 'decl_index')], ['standard output'])
p('C25', 'Every listed object identifier has its name, and no other has one',
  'crefl_asn1_oid_desc gives, for the contents octets of each object identifier listed in data/oids.txt, the name listed for it (the last one if listed twice, without "OBJ_"), and for every other octet string of any length the empty text; the first call answers like all later ones.',
  ['inputs'], 'for every octet string within the bounds', 'tests cannot try all octet strings; a lookup that compares prefixes, signed octets or up to a terminator differs only on particular ones',
  ['src/oid.cc', 'data/oids.txt'], [('lookup', 'src/oid.cc: crefl_asn1_oid_desc'), ('table', 'src/oid.cc: oid_map')], [('table', 'names by contents octets', 'static map')], ['crefl_asn1_oid_desc'])
p('C26', 'The plug-in records every declaration of a C translation unit',
  'For every C translation unit the compiler accepts, the database the plug-in writes has one source, named after the last part of the input\'s path, whose children are the file\'s declarations: typedefs, enumerations with their constants, structures and unions with their fields and nested declarations, variables and functions with their parameters (the result first), each once, in order, under the declaration that encloses it, with its kind, name, value or width, properties (bit field, static, extern C, global, inline, noreturn) and all its attributes in order with their values. '
  'Each links to its type: builtin types, the one declaration that defines a structure, union or enumeration wherever it stands, pointers, arrays with their length, and the qualifiers const, volatile and restrict as written; functions and types without a definition are void. Declarations local to functions and what the compiler adds itself are left out, and no program makes the plug-in crash or say anything.',
  ['inputs'], 'for every tree of declarations and types within the bounds, with every name, value, width and property',
  'tests only look whether the plug-in writes something for a few headers; the order of definitions and uses, nesting, qualifiers and attributes combine without bound',
  ['src/reflect.cc', 'src/db.cc'], [('declarations', 'src/reflect.cc: VisitDecl, VisitTypedefDecl, VisitEnumDecl, VisitEnumConstantDecl, VisitRecordDecl, VisitFieldDecl, VisitVarDecl, VisitFunctionDecl'), ('types', 'src/reflect.cc: get_intrinsic_type, get_named_node'), ('attributes', 'src/reflect.cc: create_attributes'), ('nesting and order', 'src/reflect.cc: create_node, TraverseStmt')],
  [('visited', 'number of each declaration met', 'ReflectVisitor.idmap'), ('enclosing', 'declarations being visited', 'ReflectVisitor.stack')], ['the file written, as crefl_db_read_file reads it'],
  note='The plug-in runs against a stand-in for the clang 14 interface (clang_standin), not clang itself. Vectors, complex integers, qualifiers inside typedefs, C++ classes and programs with errors are outside the claim. A reflect.cc that uses parts of clang the stand-in lacks gives INCOMPLETE.')
p('C27', 'The plug-in does what its options ask and reports failures',
  'The plug-in writes the database to the file given with -o, dumps it with -dump and logs with -debug, in any order and combination; options that are unknown, lack their parameter or ask for nothing are refused with a message before anything is written. The dump is that of the database written. '
  'A file that cannot be opened, written or closed is reported on the error output with a status other than 0, the input is always released, and no file is left open.',
  ['inputs', 'faults'], 'for every list of options within the bounds and every write fault',
  'tests use one command line and no faults',
  ['src/reflect.cc', 'src/db.cc', 'src/dump.cc'], [('options', 'src/reflect.cc: ReflectAction::ParseArgs'), ('output', 'src/reflect.cc: ReflectAction::EndSourceFileAction'), ('file writing', 'src/db.cc: crefl_db_write_file')],
  [('options', 'what is asked for', 'ReflectAction.outputFile, debug, dump')], ['the file written', 'standard output', 'error output', 'exit status'],
  note='Runs against the stand-in for clang of C26.')
