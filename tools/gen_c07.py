"""writes units/C07/bits.c3 and bits.c: bitstructs over every kind of container, each member read, written, updated and initialised"""
import os, random
T = {'bool': (1, 0, 'uint8_t'), 'char': (8, 0, 'uint8_t'), 'ichar': (8, 1, 'int8_t'), 'short': (16, 1, 'int16_t'), 'ushort': (16, 0, 'uint16_t'), 'int': (32, 1, 'int32_t'),
     'uint': (32, 0, 'uint32_t'), 'long': (64, 1, 'int64_t'), 'ulong': (64, 0, 'uint64_t'), 'Kind': (8, 0, 'uint8_t')}
SIZE = {'char': 1, 'ichar': 1, 'ushort': 2, 'uint': 4, 'int': 4, 'ulong': 8, 'long': 8, 'uint128': 16}
B = [
    ('Bchar', 'char', '', [('bool', 0), ('char', 1, 3), ('ichar', 4, 6), ('bool', 7)]),
    ('Bush', 'ushort', '', [('ichar', 0, 4), ('bool', 5), ('ushort', 6, 13), ('Kind', 14, 15)]),
    ('Buint', 'uint', '', [('int', 0, 10), ('char', 11, 14), ('long', 15, 30), ('bool', 31)]),
    ('Bint', 'int', '', [('uint', 0, 31)]),
    ('Bulong', 'ulong', '', [('bool', 0), ('ulong', 1, 40), ('int', 41, 61), ('char', 62, 63)]),
    ('Bwide', 'uint128', '', [('char', 0, 2), ('ulong', 3, 66), ('bool', 67), ('long', 70, 127)]),
    ('Bushbe', 'ushort', '@bigendian', [('ichar', 0, 4), ('bool', 5), ('ushort', 6, 15)]),
    ('Buintbe', 'uint', '@bigendian', [('int', 0, 10), ('char', 11, 14), ('long', 15, 30), ('bool', 31)]),
    ('Bulongbe', 'ulong', '@bigendian', [('bool', 0), ('ulong', 1, 40), ('int', 41, 61), ('char', 62, 63)]),
    ('Buintle', 'uint', '@littleendian', [('ushort', 0, 15), ('short', 16, 31)]),
    ('Bover', 'uint', '@overlap', [('uint', 0, 31), ('ushort', 0, 15), ('short', 8, 23), ('bool', 12)]),
    ('Barr', 'char[3]', '', [('int', 0, 2), ('char', 3, 6), ('bool', 7), ('ushort', 8, 23)]),
    ('Bfill', 'char[6]', '', [('uint', 0, 7), ('short', 8, 23), ('char', 24, 27), ('ichar', 28, 30), ('bool', 31), ('ushort', 32, 47)]),
    ('Bcross', 'char[6]', '', [('bool', 0), ('uint', 1, 15), ('char', 16, 18), ('int', 19, 39), ('bool', 43), ('char', 44, 46), ('bool', 47)]),
    ('Bpart', 'char[8]', '', [('char', 0, 2), ('uint', 3, 12), ('int', 13, 35), ('ulong', 36, 61), ('bool', 62)]),
    ('Blong', 'char[12]', '', [('ulong', 0, 63), ('bool', 64), ('char', 65, 68), ('ichar', 69, 71), ('uint', 72, 95)]),
    ('Bbool', 'char[2]', '', [('bool', i) for i in range(16)]),
    ('Barrbe', 'char[8]', '@bigendian', [('ushort', 0, 15), ('uint', 16, 47), ('char', 48, 51), ('ichar', 52, 54), ('bool', 55), ('char', 56, 63)]),
    ('Boffbe', 'char[8]', '@bigendian', [('bool', 0), ('char', 1, 3), ('ushort', 4, 19), ('bool', 20), ('int', 24, 55)]),
]


def size(c):
    return int(c[5:-1]) if '[' in c else SIZE[c]


def main():
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'units', 'C07')
    z = ['// generated by tools/gen_c07.py', 'module vp_bits;', 'enum Kind : char { ONE, TWO, THREE, FOUR }']
    c = ['// generated by tools/gen_c07.py: every member of every container kind, on every initial content',
         '//@file lang=c3 probe=bits.c3 d.off=signed-overflow d.unwind=130 nosan=signed-integer-overflow d.fns=llvm_extract_bitvalue,llvm_extract_bitvalue_from_array,llvm_emit_bitstruct_value_update,llvm_emit_update_bitstruct_array,llvm_emit_bitassign_expr,llvm_emit_initialize_reference_bitstruct,llvm_emit_const_bitstruct',
         '#include "bits.h"']
    rnd = random.Random(7)
    for name, cont, attr, mem in B:
        n = size(cont)
        arr = '[' in cont
        be = attr == '@bigendian'
        ms = [(t, r[0], r[-1]) for t, *r in mem]
        z.append('bitstruct %s : %s %s { %s }' % (name, cont, attr, ' '.join('%s m%d : %s;' % (t, i, a if t == 'bool' else '%d..%d' % (a, b)) for i, (t, a, b) in enumerate(ms))))
        cases = []
        for i, (t, a, b) in enumerate(ms):
            w, s, ct = T[t]
            f = '%s_%d' % (name.lower(), i)
            z.append('fn %s %s_get(%s* p) @export("c_%s_get") => p.m%d;' % (t, f, name, f, i))
            z.append('fn void %s_set(%s* p, %s v) @export("c_%s_set") { p.m%d = v; }' % (f, name, t, f, i))
            z.append('fn %s %s_val(%s* p) @export("c_%s_val") { %s x = *p; return x.m%d; }' % (t, f, name, f, name, i))
            z.append('fn void %s_des(%s* p, %s v) @export("c_%s_des") { *p = { .m%d = v }; }' % (f, name, t, f, i))
            c.append('%s c_%s_get(void *), c_%s_val(void *); void c_%s_set(void *, %s), c_%s_des(void *, %s);' % (ct, f, f, f, ct, f, ct))
            d = 'mem(%d, %d, %d, %d, %d, %d, %d, %d)' % (n, a, b, s, int(arr), int(be), w, int(t == 'bool'))
            body = 'GETSET(%s, %s, %s)' % (f, ct, d)
            if t not in ('bool', 'Kind'):
                z.append('fn void %s_add(%s* p, %s v) @export("c_%s_add") { p.m%d += v; }' % (f, name, t, f, i))
                z.append('fn void %s_xor(%s* p, %s v) @export("c_%s_xor") { p.m%d ^= v; }' % (f, name, t, f, i))
                z.append('fn void %s_inc(%s* p) @export("c_%s_inc") { p.m%d++; }' % (f, name, f, i))
                z.append('fn void %s_dec(%s* p) @export("c_%s_dec") { --p.m%d; }' % (f, name, f, i))
                c.append('void c_%s_add(void *, %s), c_%s_xor(void *, %s), c_%s_inc(void *), c_%s_dec(void *);' % (f, ct, f, ct, f, f))
                body += ' OPS(%s, %s, %s)' % (f, ct, d)
            cases.append((d, body))
        low = name.lower()
        # whole values
        if 'Bover' != name:
            ps = ', '.join('%s a%d' % (t, i) for i, (t, a, b) in enumerate(ms))
            z.append('fn void %s_init(%s* p, %s) @export("c_%s_init") { *p = { %s }; }' % (low, name, ps, low, ', '.join('a%d' % i for i in range(len(ms)))))
            c.append('void c_%s_init(void *, %s);' % (low, ', '.join(T[t][2] for t, a, b in ms)))
            vals = []
            for t, a, b in ms:
                bits = b - a + 1
                v = rnd.getrandbits(bits) | (1 << (bits - 1))
                vals.append(v)
            lits = []
            for (t, a, b), v in zip(ms, vals):
                bits = b - a + 1
                if t == 'bool':
                    lits.append('true' if v else 'false')
                elif t == 'Kind':
                    lits.append('Kind.' + ['ONE', 'TWO', 'THREE', 'FOUR'][v & 3])
                else:
                    sv = v - (1 << bits) if T[t][1] else v
                    lits.append(str(sv) if sv > -(1 << 63) else 'long.min')
            z.append('%s %s_global = { %s };' % (name, low, ', '.join(lits)))
            z.append('fn void %s_const(%s* p) @export("c_%s_const") { *p = { %s }; }' % (low, name, low, ', '.join(lits)))
            z.append('fn void %s_glob(%s* p) @export("c_%s_glob") { *p = %s_global; }' % (low, name, low, low))
            c.append('void c_%s_const(void *), c_%s_glob(void *);' % (low, low))
        z.append('fn void %s_and(%s* p, %s* q) @export("c_%s_and") { *p = *p & *q; }' % (low, name, name, low))
        z.append('fn void %s_or(%s* p, %s* q) @export("c_%s_or") { *p |= *q; }' % (low, name, name, low))
        z.append('fn void %s_xor(%s* p, %s* q) @export("c_%s_xor") { *p = *p ^ *q; }' % (low, name, name, low))
        z.append('fn void %s_not(%s* p) @export("c_%s_not") { *p = ~*p; }' % (low, name, low))
        z.append('fn bool %s_eq(%s* p, %s* q) @export("c_%s_eq") => *p == *q;' % (low, name, name, low))
        z.append('fn void %s_cast(%s* p, %s* q) @export("c_%s_cast") { *q = (%s)*p; }' % (low, name, cont, low, cont))
        z.append('fn void %s_back(%s* p, %s* q) @export("c_%s_back") { *p = (%s)*q; }' % (low, name, cont, low, name))
        c.append('void c_%s_and(void *, void *), c_%s_or(void *, void *), c_%s_xor(void *, void *), c_%s_not(void *), c_%s_cast(void *, void *), c_%s_back(void *, void *); uint8_t c_%s_eq(void *, void *);' % ((low,) * 7))
        known = [i for i, (t, a, b) in enumerate(ms) if arr and t != 'bool' and b % 8 != 7 and (a % 8 == 0 or b // 8 != a // 8)]
        c.append('//@unit bits_%s each=0..%d' % (low, len(ms) - 1))
        c.append('void vp_bits_%s(uint64_t n)\n{' % low)
        c.append('	START(%d)' % n)
        c.append('	switch (n) {')
        for i, (d, body) in enumerate(cases):
            if i in known:
                body = body.replace('GETSET(', 'KNOWN_GETSET(').replace('OPS(', 'KNOWN_OPS(')
            c.append('	case %d: %s break;' % (i, body))
        c.append('	}\n	VP_REACH();\n}')
        if known:
            c.append('//@unit bits_%s_lost each=0..%d known=bits-partial-last-byte' % (low, len(known) - 1))
            c.append('void vp_bits_%s_lost(uint64_t n)\n{\n	START(%d)\n	switch (n) {' % (low, n))
            for k, i in enumerate(known):
                c.append('	case %d: %s break;' % (k, cases[i][1]))
            c.append('	}\n	VP_REACH();\n}')
        c.append('//@unit bits_%s_whole' % low)
        c.append('void vp_bits_%s_whole(void)\n{' % low)
        c.append('	START(%d) BITWISE(%s, %d)' % (n, low, n))
        if 'Bover' != name:
            c.append('	uint8_t w[16] = { 0 };')
            for i, (t, a, b) in enumerate(ms):
                d = cases[i][0]
                if t == 'Kind':
                    c.append('	uint8_t a%d = (uint8_t)VP_BITS("a%d", 2); put(w, %s, a%d);' % (i, i, d, i))
                else:
                    c.append('	%s a%d = (%s)VP_BITS("a%d", %d); put%s(w, %s, (uint64_t)a%d);' % (T[t][2], i, T[t][2], i, T[t][0], '_known' if i in known else '', d, i))
            c.append('	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < %d ? x[i] : 0;' % n)
            c.append('	c_%s_init(v, %s);' % (low, ', '.join('a%d' % i for i in range(len(ms)))))
            if known:
                c.append('	for (int i = 0; i < %d; i++) VP_ENSURES("an initializer sets the members and nothing else", v[i] == w[i]);' % n)
            else:
                c.append('	ALL("an initializer sets the members and nothing else", v[i] == w[i])')
            c.append('	uint8_t k[16] = { 0 };')
            for i, (t, a, b) in enumerate(ms):
                c.append('	put(k, %s, %dULL);' % (cases[i][0], vals[i] & (3 if t == 'Kind' else (1 << 64) - 1)))
            c.append('	for (int i = 0; i < 16; i++) v[i] = i < %d ? x[i] : 0;' % n)
            c.append('	c_%s_const(v);\n	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])' % low)
            c.append('	c_%s_glob(v);\n	ALL("a constant global has the members it was given", v[i] == k[i])' % low)
        c.append('	VP_REACH();\n}')
    open(here + '/bits.c3', 'w').write('\n'.join(z) + '\n')
    open(here + '/bits.c', 'w').write('\n'.join(c) + '\n')


main()
