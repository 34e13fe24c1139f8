import os
from driver import Unit, Task, VERIF, REPO
P = {}
def prop(pid, bounds, assumptions=()):
    def d(f):
        P[pid] = dict(fn=f, bounds=bounds, assumptions=list(assumptions)); return f
    return d
LIB = ['src/asn1.cc', 'src/buf.cc', 'src/db.cc', 'src/dump.cc', 'src/link.cc', 'src/model.cc', 'src/oid.cc', 'src/sha256.cc', 'src/types.cc']

@prop('C01', 'buffer sizes 0..12, every 64-bit offset, every 64-bit length, every content')
def c01(thorough):
    u = Unit('h_buf.cc', ['src/buf.cc'])
    return [Task(u, 'buf_int'), Task(u, 'buf_bytes'), Task(u, 'buf_rest')]

@prop('C02', 'every 56-bit tag number, class and form; every 64-bit length; buffers of 0..11 octets with every content')
def c02(thorough):
    u = Unit('h_hdr.cc', ['src/buf.cc', 'src/asn1.cc'])
    return [Task(u, e) for e in ('tag_rt', 'ident_rt', 'length_rt', 'tag_read', 'ident_read', 'length_read')]
ASN = ['src/buf.cc', 'src/asn1.cc']

@prop('C03', 'every 64-bit value, signed and unsigned; every length argument; buffers of 0..11 octets with every content')
def c03(thorough):
    u = Unit('h_int.cc', ASN)
    return [Task(u, e) for e in ('int_rt', 'int_any', 'int_der')]

@prop('C04', 'every double; every REAL contents of 0..12 octets in buffers of 0..12 octets')
def c04(thorough):
    u = Unit('h_real.cc', ASN)
    return [Task(u, e, {'subnormal': s, 'lo': lo, 'hi': hi}) for e in ('real_rt', 'real_len_args', 'real_der')
            for s, lo, hi in [(1, 0, 52)] + [(0, i, min(i + 6, 52)) for i in range(0, 53, 7)]] + [Task(u, 'real_short')] + \
        [Task(u, 'real_read', {'len': n, 'el': 0}) for n in range(0, 13)] + \
        [Task(u, 'real_read', {'len': n, 'el': el, 'base': bs}) for bs in range(4) for el in (1, 2) for n in range(2 + el, 10 + el)]

@prop('C05', 'every double and every float; every header with exponents of 0..3 and mantissas of 0..15 octets; buffers of 0..16 octets with every content')
def c05(thorough):
    u = Unit('h_vf.cc', ASN)
    ts = [Task(u, e) for e in ('vf_inline', 'vf_short')] + [Task(u, 'vf_room', {'subnormal': s, 'lo': lo, 'hi': hi}) for s in (0, 1) for lo, hi in ((0, 5), (6, 11), (12, 17), (18, 23))]
    ts += [Task(u, 'vf64_rt', {'subnormal': s, 'lo': lo, 'hi': hi}) for s, lo, hi in [(1, 0, 52)] + [(0, i, min(i + 6, 52)) for i in range(0, 53, 7)]]
    ts += [Task(u, 'vf32_rt', {'subnormal': s, 'lo': lo, 'hi': hi}) for s, lo, hi in [(1, 0, 23)] + [(0, i, i + 5) for i in range(0, 24, 6)]]
    ts += [Task(u, 'vf_minimal', {'f32': f, 'subnormal': 0, 'lo': k, 'hi': k}) for f in (0, 1) for k in range(0, 24 if f else 53)]
    ts += [Task(u, 'vf_read', {'f32': f, 'xl': xl, 'ml': ml}) for f in (0, 1) for xl in range(4) for ml in range(16)]
    return ts

@prop('C06', 'every 64-bit value; capacities 0..9 at offsets 0..1; inputs of 0..10 octets with every content')
def c06(thorough):
    u = Unit('h_var.cc', ASN)
    return [Task(u, e) for e in ('var_rt', 'var_read')]

@prop('C07', 'object identifiers of 2..15 arcs, one arc besides the second of up to 56 bits and the rest of one octet; contents of 0..12 octets with every content, and 15..18 one octet subidentifiers')
def c07(thorough):
    u = Unit('h_oid.cc', ASN)
    ts = [Task(u, e, {'count': n, 'bits': 56 if n < 10 or thorough else 28}) for n in range(2, 16) for e in ('oid_rt', 'oid_der')]
    ts += [Task(u, 'oid_read', {'len': n}) for n in range(0, 15 if thorough else 13)] + [Task(u, 'oid_many')]
    return ts

@prop('C08', 'every string of 0..12 octets, every arc of up to 20 digits; object identifiers of 1..15 arcs, one of them any 56-bit number; output buffers of 0..70 octets; texts of 13..18 arcs')
def c08(thorough):
    u = Unit('h_oid.cc', ASN)
    ts = [Task(u, 'oid_parse', {'len': n}) for n in range(0, 17 if thorough else 13)] + [Task(u, 'oid_parse_long', {'len': n}) for n in range(1, 21)]
    ts += [Task(u, 'oid_text', {'count': n, 'wide': w}) for n, w in ([(1, 0), (2, 0), (2, 1), (4, 1), (15, 14)] if not thorough else [(n, w) for n in range(1, 16) for w in range(n)])] + [Task(u, 'oid_text_bound')] + [Task(u, 'oid_parse_many', {'count': n}) for n in (13, 15, 16, 17, 18)]
    return ts

@prop('C09', 'every length argument and user buffer size; strings of 0..6 octets and DER strings of selected lengths 0..300 with every content; booleans and null in buffers of 0..4 octets')
def c09(thorough):
    u = Unit('h_oct.cc', ASN)
    return [Task(u, e) for e in ('octets_read', 'octets_write', 'octets_der', 'boolean_any', 'boolean_rt', 'null_any')]

@prop('C10', 'ten DER readers on every buffer of 0..11 octets (REAL: 0..7), at offsets 0 and 1; one sequence of five values')
def c10(thorough):
    u = Unit('h_der.cc', ASN)
    return [Task(u, 'der_any', {'kind': k, 'len': n}) for k in range(10) for n in range(0, (9 if thorough else 8) if k >= 8 else 14 if thorough else 12)] + [Task(u, 'der_seq')]

DBS = ['src/db.cc', 'src/model.cc', 'src/types.cc']
DBU = lambda: Unit('h_db.cc', DBS, ['-include', VERIF + '/rt/vf_io.h'])

@prop('C11', 'databases of 0..3 arbitrary nodes beyond the builtin types and 0..45 octets of arbitrary names; every capacity below the size; one fault (open, stat, short transfer of any length, close) per file operation; up to 2100 nodes and 70000 octets of names of which few are arbitrary')
def c11(thorough):
    u = DBU()
    return [Task(u, 'db_rt', {'nodes': n, 'names': m}) for n in range(0, 6 if thorough else 4) for m in ((0, 2, 7, 45) if not thorough else (0, 2, 3, 7, 20, 45, 90))] + [Task(u, 'db_short'), Task(u, 'db_file')] + \
        [Task(u, 'db_big', {'nodes': n, 'names': m, 'span': s}, max_steps=300000000) for n, m, s in [(i, 0, 19) for i in range(0, 140, 20)] + [(2, 30000, 0), (2, 65535, 2), (1, 70000, 0), (2100, 3, 1)] + ([(65534, 0, 3)] if thorough else [])]

@prop('C12', 'images of 0..118 octets with every content (arbitrary magic up to 30 octets)')
def c12(thorough):
    u = DBU()
    return [Task(u, 'db_any', {'len': n, 'valid': 0}) for n in range(0, 31)] + [Task(u, 'db_any', {'len': n, 'valid': 1}) for n in (20, 21, 51, 52, 53, 54, 55, 60, 84, 86, 88) + ((116, 118, 120, 148, 150) if thorough else (116, 118))] + [Task(u, 'db_magic')]

MODU = lambda: Unit('h_model.cc', DBS)

@prop('C13', 'list queries on 0..4 children of every kind in either order, with every kind of parent and every limit up to one more than the children; accessors on every node')
def c13(thorough):
    u = MODU()
    return [Task(u, 'model_lists', {'list': k, 'children': n}) for k in range(10) for n in range(0, 7 if thorough else 5)] + [Task(u, 'model_access')]

@prop('C14', 'types of 20 shapes (scalars, pointers, arrays and arrays of arrays of any length up to 2^32, nested structures and unions, enumerations, sets, typedefs, qualifiers, aliases); structures and unions of 1..3 such fields; no bit-fields and no packing or alignment attributes')
def c14(thorough):
    u = MODU()
    return [Task(u, 'layout_types', {'outer': o}) for o in (0, 1)] + [Task(u, 'layout_struct', {'fields': n, 'union': un, 'first': k, 'outer': k & 1}) for un in (0, 1) for n in ((1, 2, 3) if thorough or not un else (1, 2)) for k in range(20)]

@prop('C15', 'every property set and width over the builtin types and up to 3 arbitrary further nodes; up to 70 nodes and 3 names of 14 lengths from 0 to 130 octets with every content')
def c15(thorough):
    u = MODU()
    return [Task(u, 'model_builtin')] + [Task(u, 'model_intrinsic', {'more': n}) for n in range(4)] + [Task(u, 'model_alloc', {'defaults': d, 'nodes': n}) for d in (0, 1) for n in (1, 9, 10, 31, 32, 33, 70)] + [Task(u, 'model_names', {'count': n, 'first': f}) for n in ((1, 2, 3, 4) if thorough else (1, 2, 3)) for f in range(14)]

@prop('C17', 'every history of 4..5 operations on maps of 1, 2 and 4 slots and of 3..4 on 16 and 32 with up to 3 arbitrary keys whose hashes are equal, adjacent, at the end of the table or equal before growth only; growth to 70 entries; copies, assignments and moves')
def c17(thorough):
    u = Unit('h_map.cc', [])
    ops = [(l, k, n + thorough) for l in (1, 2, 4) for k, n in ((2, 5), (3, 5 if l == 4 else 4))] + [(l, k, n + thorough) for l in (16, 32) for k, n in ((2, 4), (3, 3))]
    return [Task(u, 'map_ops', {'limit': l, 'ops': n, 'keys': k, 'first': f, 'hashes': 4}) for l, k, n in ops for f in range(4)] + \
        [Task(u, 'map_grow', {'limit': l, 'count': n}) for l, n in ((1, 9), (2, 20), (16, 20), (16, 40), (32, 70))] + [Task(u, 'map_copy', {'limit': l, 'how': h, 'hashes': 3}) for l in (2, 16) for h in range(5)]

@prop('C18', 'every message of 0..66, 110, 111, 118..121 and 126..130 octets with every content; every way to cut messages of up to 130 arbitrary octets in two and of up to 24 in three, on a context new or used before')
def c18(thorough):
    u = Unit('h_sha.cc', ['src/sha256.cc']); lens = list(range(0, 201)) if thorough else list(range(0, 67)) + [110, 111] + list(range(118, 122)) + list(range(126, 131))
    return [Task(u, 'sha_msg', {'bits': b, 'len': n, 'fixed': 0}) for b in (224, 256) for n in lens] + [Task(u, 'sha_pieces', {'bits': b, 'len': n, 'three': t}) for b in (224, 256) for n, t in ((64, 0), (65, 0), (70, 0), (120, 0), (130, 0), (1, 1), (12, 1), (24, 1))]

@prop('C16', 'every 32 and 64 bit value, through the C++ templates, the C11 selections and the portable versions')
def c16(thorough):
    u = Unit('h_bits.cc', [VERIF + '/harness/bits_c.c', VERIF + '/harness/bits_fb.c'])
    return [Task(u, 'bits_count', {'op': o, 'wide': w}) for o in range(3) for w in (0, 1)] + [Task(u, 'bits_endian')]

TOOLF = ['-include', VERIF + '/rt/vf_tool.h']
@prop('C22', 'files of 0..5 octets with every content and files of 6..7 octets whose identifiers are of representative tags; nesting of 1..20 sequences; files of two elements, of which one of 8..300 octets with two arbitrary octets')
def c22(thorough):
    u = Unit('h_asn1tool.cc', ['src/asn1.cc', 'src/buf.cc'], TOOLF + ['-I' + REPO])
    return [Task(u, 'asn1_dump', {'len': n, 'kind': 32, 'all': 1}) for n in range(0, 5 if thorough else 4)] + [Task(u, 'asn1_dump', {'len': n, 'kind': k, 'all': 0}) for n in ((4, 5, 6, 7) if thorough else (4, 5)) for k in (0, 2, 6, 16, 19, 31) if thorough or (n, k) != (5, 6)] + [Task(u, 'asn1_nest', {'depth': d}) for d in (1, 2, 16, 20)] + [Task(u, 'asn1_missing')] + [Task(u, 'asn1_long', {'len': n, 'form': f}) for n in ((0, 1, 8, 9, 10, 16, 20, 33, 127, 128, 255, 256, 300, 600) if thorough else (8, 9, 10, 20, 127, 128, 256, 300)) for f in range(3)]

LINKU = lambda: Unit('h_link.cc', ['src/link.cc', 'src/model.cc', 'src/types.cc'])
@prop('C19', 'pairs of trees of up to 3 declarations of 18 shapes and 3 kinds (every pair of kinds for one shape), with names of 0..1 octets and every property and quantity, and of cycles through them; up to 130 nodes and names up to 130 octets')
def c19(thorough):
    u = LINKU()
    return [Task(u, 'hash_trees', {'shape': s, 'tag': t, 'names': n}) for s in range(18) for t in (0, 1) for n in (0, 1)] + [Task(u, 'hash_cycles', {'names': n}) for n in (0, 1)] + [Task(u, 'hash_tags', {'attr': k}) for k in (0, 1)] + [Task(u, 'hash_grow', {'wide': a, 'deep': b, 'junk': j}) for a, b, j in ((0, 0, 5), (1, 3, 40), (3, 12, 0), (2, 12, 2), (12, 5, 30), (12, 0, 90), (2, 12, 100))]

@prop('C20', 'up to 3 sources of up to 3 declarations (two sources: 2 each) of 10 kinds, names of one octet; outputs merged again; declarations of 14 kinds with up to 3 attributes and 2 members at the top or in a structure')
def c20(thorough):
    u = LINKU()
    return [Task(u, 'merge_attrs', {'kind': k, 'sources': n, 'inside': i}) for k in range(14) for n in (1, 2) for i in (0, 1) if not (i and k > 11)] + [Task(u, 'merge_one', {'decls': n, 'first': k}) for n in ((1, 2, 3, 4) if thorough else (1, 2, 3)) for k in range(10)] + [Task(u, 'merge_two', {'first': k, 'second': j}) for k in range(10) for j in range(10)] + [Task(u, 'merge_nested', {'first': k}) for k in range(10)] + [Task(u, 'merge_count'), Task(u, 'merge_mutual')]

@prop('C21', 'texts of 0..620 octets; paths of 0..7 octets; every octet and room of 0..20; buffers of 0..33, 300 and 4120 octets')
def c21(thorough):
    u = Unit('h_util.cc', ['src/buf.cc'], TOOLF)
    return [Task(u, 'util_printf', {'from': a, 'to': a + 19}) for a in range(0, 1200 if thorough else 600, 20)] + [Task(u, 'util_basename'), Task(u, 'util_byte')] + [Task(u, 'util_dump', {'len': n}, max_steps=2000000000) for n in (0, 1, 2, 15, 16, 17, 31, 32, 33, 300, 4120) + ((65560,) if thorough else ())]

TOOLU = lambda: Unit('h_tool.cc', ['src/db.cc', 'src/model.cc', 'src/types.cc', 'src/link.cc', 'src/dump.cc'], TOOLF + ['-I' + REPO])
@prop('C23', 'databases of 2..4 declarations with every property and quantity and names of 0..16 octets; merges of 1..2 inputs; statistics for 2..11 declarations; one fault in any file operation; options with one octet changed or added, words of 0..3 octets')
def c23(thorough):
    u = TOOLU()
    return [Task(u, 'tool_emit', {'name': n, 'fields': k, 'faults': 0}) for n in range(0, 17) for k in (0, 1)] + [Task(u, 'tool_emit', {'name': 3, 'fields': k, 'faults': 1}) for k in (0, 2)] + [Task(u, 'tool_merge', {'inputs': n}) for n in (1, 2)] + [Task(u, 'tool_stats'), Task(u, 'tool_usage')]

@prop('C24', 'databases of 4..5 declarations of every kind with names of 7 lengths from 0 to 40, 16 sets of properties and 4 quantities, in 8 formats; up to 46 declarations with an alias anywhere')
def c24(thorough):
    u = TOOLU()
    return [Task(u, 'tool_dump', {'format': f, 'part': k}, max_time=3000 if k == 2 else 300) for k in ((2,) if thorough else (0, 1)) for f in range(8)] + [Task(u, 'tool_dump_far', {'format': f}) for f in (0, 1)]

def oid_rows():
    rows = {}
    for l in open(REPO + '/data/oids.txt'):
        if '=' in l:
            k, v = l.strip().split('=', 1); k = k[4:] if k.startswith('OBJ_') else k
            rows[bytes.fromhex(v.strip('"').replace('\\x', ''))] = k
    os.makedirs(VERIF + '/build', exist_ok=True); t = VERIF + '/build/oids.%d' % os.getpid()
    with open(t, 'w') as f:
        f.write(''.join('{ %d, "%s", "%s" },\n' % (len(o), ''.join('\\x%02x' % b for b in o), n) for o, n in rows.items()))
    os.replace(t, VERIF + '/build/oids.inc')

@prop('C25', 'object identifiers of 0..20 octets with every content')
def c25(thorough):
    oid_rows(); u = Unit('h_desc.cc', ['src/oid.cc'])
    return [Task(u, 'oid_desc', {'len': n}, max_steps=300000000) for n in range(0, 41 if thorough else 21)]

PLUGU = lambda: Unit('h_plugin.cc', ['src/reflect.cc', 'src/db.cc', 'src/model.cc', 'src/types.cc', 'src/dump.cc', 'src/link.cc', 'src/sha256.cc'], TOOLF + ['-I' + VERIF + '/clang_standin'])
@prop('C26', 'translation units of 1 item of any of 12 sorts with nested declarations two deep, 2 items one deep or 3 flat; types of one derivation (thorough: two) over 19 basic types, structures, unions, enumerations (defined before, after or never), void, functions, pointers, three sorts of array and typedefs with every qualifier; every value, width, property; names of 1..260 octets; up to 40 members; up to 2 attributes of 11 sorts on 7 sorts of declaration')
def c26(thorough):
    u = PLUGU()
    return [Task(u, 'plug_basic')] + [Task(u, 'plug_types', {'where': w, 'depth': 2 if thorough else 1, 'later': l}) for w in range(5) for l in (0, 1)] + \
        [Task(u, 'plug_shapes', {'items': n, 'first': k, 'depth': d, 'most': m}) for n, d, m in ((1, 2, 2), (2, 1, 2), (3, 0, 1)) for k in range(12)] + [Task(u, 'plug_values', {'kind': k}) for k in range(6)] + \
        [Task(u, 'plug_names', {'len': n}) for n in (1, 2, 15, 16, 100, 260)] + [Task(u, 'plug_many', {'count': n}) for n in (1, 17, 40)] + [Task(u, 'plug_attrs', {'where': w, 'count': n}) for w in range(7) for n in (0, 1, 2)]

@prop('C27', 'option lists of 0..3 words: the known options, an output, the empty word, and every word that differs from an option in one octet; 4..5 words that do not; one fault when writing; one translation unit; every path of 1..4 octets')
def c27(thorough):
    u = PLUGU()
    return [Task(u, 'plug_options', {'words': n, 'first': f, 'plain': 0}) for n, f in [(0, 0)] + [(n, f) for n in ((1, 2, 3, 4) if thorough else (1, 2, 3)) for f in range(6)]] + [Task(u, 'plug_options', {'words': n, 'first': f, 'plain': 1}) for n in ((4, 5, 6) if thorough else (4, 5)) for f in range(4)] + [Task(u, 'plug_faults')] + [Task(u, 'plug_paths', {'len': n, 'debug': d}) for n in range(1, 7 if thorough else 5) for d in (0, 1)]
