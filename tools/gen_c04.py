"""writes units/C04/arith.c3 and arith.c (template programs for every operator and integer type, with their contracts)"""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/units/C04/'
T = [('ichar', 's8', 8, 1), ('char', 'u8', 8, 0), ('short', 's16', 16, 1), ('ushort', 'u16', 16, 0), ('int', 's32', 32, 1), ('uint', 'u32', 32, 0),
     ('long', 's64', 64, 1), ('ulong', 'u64', 64, 0), ('int128', 's128', 128, 1), ('uint128', 'u128', 128, 0)]
CT = {'s8': 'int8_t', 'u8': 'uint8_t', 's16': 'int16_t', 'u16': 'uint16_t', 's32': 'int32_t', 'u32': 'uint32_t', 's64': 'int64_t', 'u64': 'uint64_t', 's128': 'vp_i128', 'u128': 'vp_u128'}
c3, decl, units = ['module vp;'], [], []


def inp(n, b):
    return 'VP_U128("%s")' % n if b == 128 else 'vp_input("%s", %d)' % (n, b)


def fn(name, ret, params, body, cret, cparams, stmt=None):
    """exports one template program; 128-bit values travel through pointers, so that the C prototype matches the IR"""
    wide = [x for x in params.split(', ') if '128' in x.split()[0] and '*' not in x]
    if '128' not in ret and not wide:
        c3.append('fn %s c_%s(%s) @export("c_%s") %s' % (ret, name, params, name, stmt or '=> %s;' % body))
        decl.append('%s c_%s(%s);' % (cret, name, cparams))
        return
    # the template itself, called through a shim
    c3.append('fn %s t_%s(%s) %s' % (ret, name, params, stmt or '=> %s;' % body))
    ps = [x.split() for x in params.split(', ')]
    cps = cparams.split(', ')
    sp = ', '.join('%s* %s' % (t, n) if '128' in t and '*' not in t else '%s %s' % (t, n) for t, n in ps)
    ar = ', '.join('*' + n if '128' in t and '*' not in t else n for t, n in ps)
    c3.append('fn void s_%s(%s* r_, %s) @export("s_%s") { *r_ = t_%s(%s); }' % (name, ret, sp, name, name, ar))
    decl.append('void s_%s(%s *, %s);' % (name, cret, ', '.join(c + ' *' if '128' in t and '*' not in t else c for c, (t, n) in zip(cps, ps))))
    decl.append('static %s c_%s(%s) { %s r; s_%s(&r, %s); return r; }' % (cret, name, ', '.join('%s %s' % (c, n) for c, (t, n) in zip(cps, ps)), cret, name,
                ', '.join('&' + n if '128' in t and '*' not in t else n for t, n in ps)))


def unit(name, lines, **kw):
    units.append('//@unit %s %s\nvoid vp_%s(void)\n{\n%s\n\tVP_REACH();\n}' % (name, ' '.join('%s=%s' % x for x in kw.items()), name, '\n'.join(lines)))


def wrap(op, s, b, assign=0):
    w = b if assign else max(b, 32)
    pre = CT['s%d' % w] if s[0] == 's' else CT['u%d' % w]
    if op == '*':
        return '(%s)vp_uf_mul_%d((%s)a, (%s)b)' % (CT[s], w, pre, pre)
    return '(%s)((%s)(%s)a %s (%s)(%s)b)' % (CT[s], CT['u%d' % w], pre, op, CT['u%d' % w], pre)


# ---- wrapping binary operators
for op, nm in [('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('&', 'and'), ('|', 'or'), ('^', 'xor')]:
    L = []
    for t, s, b, sg in T:
        u = CT['u%d' % b]
        fn('%s_%s' % (nm, s), t, '%s a, %s b' % (t, t), '(%s)(a %s b)' % (t, op), CT[s], '%s, %s' % (CT[s], CT[s]))
        L.append('\t{ %s a = (%s)%s, b = (%s)%s; VP_ENSURES("%s %s wraps", c_%s_%s(a, b) == %s); }' % (
            CT[s], CT[s], inp('a', b), CT[s], inp('b', b), t, op, nm, s, wrap(op, s, b)))
    unit(nm, L, fns='llvm_emit_binary', cost=5)
    # compound assignment
    L = []
    for t, s, b, sg in T:
        u = CT['u%d' % b]
        fn('%sa_%s' % (nm, s), t, '%s a, %s b' % (t, t), '', CT[s], '%s, %s' % (CT[s], CT[s]), '{ a %s= b; return a; }' % op)
        L.append('\t{ %s a = (%s)%s, b = (%s)%s; VP_ENSURES("%s %s= wraps", c_%sa_%s(a, b) == %s); }' % (
            CT[s], CT[s], inp('a', b), CT[s], inp('b', b), t, op, nm, s, wrap(op, s, b, 1)))
    unit(nm + '_assign', L, fns='llvm_emit_binary,llvm_emit_binary_assign_expr', cost=5)
# ---- division
for op, nm in [('/', 'div'), ('%', 'rem')]:
    for t, s, b, sg in T:
        fn('%s_%s' % (nm, s), t, '%s a, %s b' % (t, t), '(%s)(a %s b)' % (t, op), CT[s], '%s, %s' % (CT[s], CT[s]))
        mn = '(%s)((%s)1 << %d)' % (CT[s], CT['u%d' % b], b - 1)
        L = ['\t%s a = (%s)%s, b = (%s)%s;' % (CT[s], CT[s], inp('a', b), CT[s], inp('b', b)), '\tVP_REQUIRES(b != 0);']
        if sg:
            L.append('\tVP_REQUIRES(!(a == %s && b == -1));' % mn)
        L.append('\tVP_ENSURES("%s %s truncates towards zero", c_%s_%s(a, b) == (%s)vp_uf_%s%s_%d((%s)a, (%s)b));' % (
            t, op, nm, s, CT[s], 's' if sg else 'u', nm, max(b, 32), CT[s[0] + str(max(b, 32))], CT[s[0] + str(max(b, 32))]))
        unit('%s_%s' % (nm, s), L, fns='llvm_emit_binary', cost=8 if b > 32 else 1)
# ---- shifts
for op, nm in [('<<', 'shl'), ('>>', 'shr')]:
    L = []
    for t, s, b, sg in T:
        fn('%s_%s' % (nm, s), t, '%s a, int b' % t, '(%s)(a %s b)' % (t, op), CT[s], '%s, int32_t' % CT[s])
        fn('%sa_%s' % (nm, s), t, '%s a, int b' % t, '', CT[s], '%s, int32_t' % CT[s], '{ a %s= b; return a; }' % op)
        u = CT['u%d' % b]
        want = '(%s)(%s)((%s)a << b)' % (CT[s], u, u if b >= 32 else 'uint32_t') if op == '<<' else '(%s)(a >> b)' % CT[s]
        L.append('\t{ %s a = (%s)%s; int32_t b = (int32_t)VP_RANGE("b", 0, %d);' % (CT[s], CT[s], inp('a', b), b - 1))
        L.append('\tVP_ENSURES("%s %s", c_%s_%s(a, b) == %s);' % (t, op, nm, s, want))
        L.append('\tVP_ENSURES("%s %s=", c_%sa_%s(a, b) == %s); }' % (t, op, nm, s, want))
    unit(nm, L, fns='llvm_emit_binary', off='signed-overflow', cost=5)
# ---- unary
L = []
for t, s, b, sg in T:
    u = CT['u%d' % b]
    L.append('\t{ %s a = (%s)%s;' % (CT[s], CT[s], inp('a', b)))
    for nm, ex, want in [('neg', '(%s)(-a)' % t, '(%s)(%s)(0 - (%s)a)' % (CT[s], u, u)), ('not', '(%s)~a' % t, '(%s)~a' % CT[s])]:
        fn('%s_%s' % (nm, s), t, '%s a' % t, ex, CT[s], CT[s])
        L.append('\tVP_ENSURES("%s %s", c_%s_%s(a) == %s);' % (t, nm, nm, s, want))
    fn('lnot_%s' % s, 'int', '%s a' % t, '(int)!a', 'int32_t', CT[s])
    L.append('\tVP_ENSURES("%s !", c_lnot_%s(a) == (a == 0));' % (t, s))
    fn('bool_%s' % s, 'int', '%s a' % t, '(int)(bool)a', 'int32_t', CT[s])
    L.append('\tVP_ENSURES("%s to bool", c_bool_%s(a) == (a != 0));' % (t, s))
    fn('tern_%s' % s, t, '%s a, %s b' % (t, t), 'a ? a : b', CT[s], '%s, %s' % (CT[s], CT[s]))
    L.append('\tVP_ENSURES("%s ?:", c_tern_%s(a, (%s)7) == (a ? a : (%s)7));' % (t, s, CT[s], CT[s]))
    for nm, st, r in [('preinc', 'return ++*p', '+ 1'), ('predec', 'return --*p', '- 1'), ('postinc', 'return (*p)++', ''), ('postdec', 'return (*p)--', '')]:
        fn('%s_%s' % (nm, s), t, '%s* p' % t, '', CT[s], CT[s] + ' *', '{ %s; }' % st)
        d = '+' if 'inc' in nm else '-'
        L.append('\t{ %s x = a; %s r = c_%s_%s(&x); VP_ENSURES("%s %s stores", x == (%s)(%s)((%s)a %s 1)); VP_ENSURES("%s %s value", r == %s); }' % (
            CT[s], CT[s], nm, s, t, nm, CT[s], u, u, d, t, nm, 'x' if nm[:3] == 'pre' else 'a'))
    L.append('\t}')
unit('unary', L, fns='llvm_emit_unary_expr,llvm_emit_pre_inc_dec,llvm_emit_post_inc_dec', cost=3)
# ---- comparisons, all pairs of types
for op, nm in [('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('==', 'eq'), ('!=', 'ne')]:
    L = []
    for t1, s1, b1, g1 in T:
        for t2, s2, b2, g2 in T:
            n = '%s_%s_%s' % (nm, s1, s2)
            fn(n, 'int', '%s a, %s b' % (t1, t2), '(int)(a %s b)' % op, 'int32_t', '%s, %s' % (CT[s1], CT[s2]))
            if g1 == g2:
                want = '(a %s b)' % op
            elif g1:
                want = '(a < 0 ? %d : (vp_u128)a %s (vp_u128)b)' % (eval('-1 %s 0' % op), op)
            else:
                want = '(b < 0 ? %d : (vp_u128)a %s (vp_u128)b)' % (eval('0 %s -1' % op), op)
            L.append('\t{ %s a = (%s)%s; %s b = (%s)%s; VP_ENSURES("%s %s %s is the mathematical comparison", c_%s(a, b) == %s); }' % (
                CT[s1], CT[s1], inp('a', b1), CT[s2], CT[s2], inp('b', b2), t1, op, t2, n, want))
    unit('cmp_' + nm, L, fns='llvm_emit_int_comp', cost=6)
# ---- conversions, all pairs
L = []
for t1, s1, b1, g1 in T:
    L.append('\t{ %s a = (%s)%s;' % (CT[s1], CT[s1], inp('a', b1)))
    for t2, s2, b2, g2 in T:
        if t1 == t2:
            continue
        fn('cv_%s_%s' % (s1, s2), t2, '%s a' % t1, '(%s)a' % t2, CT[s2], CT[s1])
        L.append('\tVP_ENSURES("%s to %s", c_cv_%s_%s(a) == (%s)a);' % (t1, t2, s1, s2, CT[s2]))
        # implicit widening
        if (g1 == g2 and b2 > b1) or (not g1 and g2 and b2 > b1):
            fn('im_%s_%s' % (s1, s2), t2, '%s a' % t1, 'a', CT[s2], CT[s1])
            L.append('\tVP_ENSURES("%s widens to %s", c_im_%s_%s(a) == (%s)a);' % (t1, t2, s1, s2, CT[s2]))
    L.append('\t}')
unit('convert', L, fns='llvm_emit_cast', cost=4)
# ---- mixed-width arithmetic (common type)
L = []
for i, (t1, s1, b1, g1) in enumerate(T):
    for (t2, s2, b2, g2) in T:
        if t1 == t2 or b1 == b2 or g1 != g2:
            continue
        w = max(b1, b2, 32)
        r = [x for x in T if x[2] == w and x[3] == g1][0]
        n = 'mix_%s_%s' % (s1, s2)
        fn(n, r[0], '%s a, %s b' % (t1, t2), 'a - b', CT[r[1]], '%s, %s' % (CT[s1], CT[s2]))
        u = CT['u%d' % w]
        L.append('\t{ %s a = (%s)%s; %s b = (%s)%s; VP_ENSURES("%s - %s in the common type", c_%s(a, b) == (%s)((%s)(%s)a - (%s)(%s)b)); }' % (
            CT[s1], CT[s1], inp('a', b1), CT[s2], CT[s2], inp('b', b2), t1, t2, n, CT[r[1]], u, CT[r[1]], u, CT[r[1]]))
unit('mixed', L, fns='llvm_emit_binary,cast_numeric_arithmetic_promotion', cost=4)
# ---- comparisons with a constant that only a macro may compare (negative against unsigned), both sides
for op, nm in [('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('==', 'eq'), ('!=', 'ne')]:
    c3.append('macro bool k_%s(x, y) => x %s y;' % (nm, op))
    L = []
    for t, s, b, sg in T:
        L.append('\t{ %s a = (%s)%s;' % (CT[s], CT[s], inp('a', b)))
        for k, (kc, kv) in enumerate([('-1', -1), ('int.min', -2**31), ('0', 0), ('7', 7), ('(ichar)-128', -128), ('(short)-300', -300), ('(long)-5', -5), ('(char)200', 200), ('0xFFFF_FFFFu', 2**32 - 1)]):
            for side in 0, 1:
                n = 'k%s_%s_%d%s' % (nm, s, k, 'lr'[side])
                fn(n, 'int', '%s a' % t, '(int)k_%s(%s)' % (nm, 'a, %s' % kc if side else '%s, a' % kc), 'int32_t', CT[s])
                if kv < 0 and not sg:
                    want = str(int(eval('1 %s -1' % op) if side else eval('-1 %s 1' % op)))
                elif sg:
                    w = '((vp_i128)%dLL)' % kv
                    want = '((vp_i128)a %s %s)' % (op, w) if side else '(%s %s (vp_i128)a)' % (w, op)
                else:
                    w = '((vp_u128)%dLL)' % kv
                    want = '((vp_u128)a %s %s)' % (op, w) if side else '(%s %s (vp_u128)a)' % (w, op)
                L.append('\tVP_ENSURES("%s %s constant %s is the mathematical comparison", c_%s(a) == %s);' % (t, op, kc, n, want))
        L.append('\t}')
    unit('const_' + nm, L, fns='llvm_emit_int_comp', cost=4)
# ---- vectors, element by element
VT = [('ichar', 's8', 4), ('char', 'u8', 4), ('short', 's16', 4), ('ushort', 'u16', 2), ('int', 's32', 4), ('uint', 'u32', 3), ('long', 's64', 2), ('ulong', 'u64', 2)]
for op, nm in [('+', 'add'), ('-', 'sub'), ('&', 'and'), ('|', 'or'), ('^', 'xor'), ('<<', 'shl'), ('>>', 'shr'), ('*', 'mul'), ('/', 'div'), ('%', 'rem')]:
    L = []
    for t, s, n in VT:
        b = int(s[1:])
        u = CT['u%d' % b]
        c3.append('fn void v%s_%s(%s[<%d>]* a, %s[<%d>]* b, %s[<%d>]* r) @export("c_v%s_%s") { *r = *a %s *b; }' % (nm, s, t, n, t, n, t, n, nm, s, op))
        decl.append('void c_v%s_%s(%s *, %s *, %s *);' % (nm, s, CT[s], CT[s], CT[s]))
        want = {'*': '(%s)vp_uf_mul_%d((%s)a[k], (%s)b[k])' % (CT[s], b, u, u), '/': '(%s)vp_uf_%sdiv_%d((%s)a[k], (%s)b[k])' % (CT[s], s[0], b, u, u), '%': '(%s)vp_uf_%srem_%d((%s)a[k], (%s)b[k])' % (CT[s], s[0], b, u, u), '<<': '(%s)(%s)((%s)a[k] << b[k])' % (CT[s], u, u if b >= 32 else 'uint32_t'), '>>': '(%s)(a[k] >> b[k])' % CT[s]}.get(op, '(%s)(%s)((%s)a[k] %s (%s)b[k])' % (CT[s], u, u, op, u))
        L.append('\t{ %s a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (%s)vp_input("a", %d); b[k] = (%s)%s; }' % (
            CT[s], CT[s], b, CT[s], 'VP_RANGE("b", 0, %d)' % (b - 1) if op in ('<<', '>>') else '(VP_RANGE("b", 1, 0x%xULL))' % (2**b - 1) if op in '/%' else 'vp_input("b", %d)' % b))
        if op in '/%' and s[0] == 's': L.append('\tfor (int k = 0; k < 4; k++) VP_REQUIRES(b[k] != -1);')
        L.append('\tc_v%s_%s(a, b, r); for (int k = 0; k < %d; k++) VP_ENSURES("%s vector %s", r[k] == %s); }' % (nm, s, n, t, op, want))
    unit('vec_' + nm, L, fns='llvm_emit_binary', off='signed-overflow', cost=3, unwind=5)
L = []
for t, s, n in VT:
    b = int(s[1:])
    for nm, ex, want in [('neg', '-*a', '(%s)(%s)(0 - (%s)a[k])' % (CT[s], CT['u%d' % b], CT['u%d' % b])), ('not', '~*a', '(%s)~a[k]' % CT[s])]:
        c3.append('fn void v%s_%s(%s[<%d>]* a, %s[<%d>]* r) @export("c_v%s_%s") { *r = %s; }' % (nm, s, t, n, t, n, nm, s, ex))
        decl.append('void c_v%s_%s(%s *, %s *);' % (nm, s, CT[s], CT[s]))
        L.append('\t{ %s a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (%s)vp_input("a", %d); c_v%s_%s(a, r); for (int k = 0; k < %d; k++) VP_ENSURES("%s vector %s", r[k] == %s); }' % (CT[s], CT[s], b, nm, s, n, t, nm, want))
for t1, s1 in [('ichar', 's8'), ('char', 'u8'), ('short', 's16'), ('ushort', 'u16'), ('int', 's32'), ('uint', 'u32'), ('long', 's64'), ('ulong', 'u64')]:
    for t2, s2 in [('char', 'u8'), ('short', 's16'), ('int', 's32'), ('ulong', 'u64')]:
        if t1 == t2:
            continue
        c3.append('fn void vcv_%s_%s(%s[<4>]* a, %s[<4>]* r) @export("c_vcv_%s_%s") { *r = (%s[<4>])*a; }' % (s1, s2, t1, t2, s1, s2, t2))
        decl.append('void c_vcv_%s_%s(%s *, %s *);' % (s1, s2, CT[s1], CT[s2]))
        L.append('\t{ %s a[4] __attribute__((aligned(32))); %s r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (%s)vp_input("a", %d); c_vcv_%s_%s(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("%s vector to %s", r[k] == (%s)a[k]); }' % (CT[s1], CT[s2], CT[s1], int(s1[1:]), s1, s2, t1, t2, CT[s2]))
unit('vec_unary', L, fns='llvm_emit_unary_expr,llvm_emit_cast', cost=3, unwind=5)
open(V + 'arith.c3', 'w').write('\n'.join(c3) + '\n')
open(V + 'arith.c', 'w').write('// generated by tools/gen_c04.py\n//@file lang=c3 probe=arith.c3 uf=mul,sdiv,udiv,srem,urem\n#define VP_UF\n#include "vp.h"\n' + '\n'.join(decl) + '\n' + '\n'.join(units) + '\n')
