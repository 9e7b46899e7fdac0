"""Mechanical translation of LLVM IR text (as emitted by c3c or clang from /repo) into C that goto-cc accepts.

What is translated: every function reachable from the requested roots, with every global it mentions.
One IR instruction becomes one C statement; one basic block becomes one label.

What the translation drops or fixes (the extraction contract, repeated in DESIGN.md):
  * atomic orderings, volatile, alignment and fast-math annotations (single-threaded semantics);
  * the exact and inbounds flags (a violated nsw/nuw leaves the result unconstrained);
  * `llvm.assume`, lifetime, debug, expect, stack save/restore, prefetch intrinsics;
  * `undef`/`poison` operands become an unconstrained value; an over-wide shift yields an unconstrained value;
  * `llvm.trap` becomes vp_trap() (a proof obligation that it is unreachable unless a unit says otherwise);
  * global constructors are not run; dynamic interface lookup `.dyn_search` becomes a table built from the
    registrations present in the module.
Anything not understood raises Unsupported: the run is an error, never a verdict.
"""
import re
import struct


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- tokens

TOK = re.compile(
    r'\s*(?:;[^\n]*|('
    r'c"(?:[^"\\]|\\.)*"'
    r'|[%@$]"(?:[^"\\]|\\.)*"'
    r'|[%@$][-a-zA-Z$._0-9]+'
    r'|![-a-zA-Z$._0-9]*'
    r'|#[0-9]+'
    r'|"(?:[^"\\]|\\.)*"'
    r'|\.\.\.'
    r'|0x[KLMHR]?[0-9A-Fa-f]+'
    r'|[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?'
    r'|-?[0-9]+'
    r'|[a-zA-Z_$.][-a-zA-Z_$.0-9]*'
    r'|[\[\]{}()<>,=*:|]'
    r'))')


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Unsupported('token at ' + s[i:i + 60])
        i = m.end()
        if m.group(1) is not None:
            out.append(m.group(1))
    return out


# ---------------------------------------------------------------- types

class Ty:
    __slots__ = ('k', 'n', 'e', 'packed', 'name')

    def __init__(self, k, n=0, e=None, packed=False, name=None):
        self.k, self.n, self.e, self.packed, self.name = k, n, e, packed, name

    def key(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'arr':
            return 'A%d_%s' % (self.n, self.e.key())
        if self.k == 'vec':
            return 'V%d_%s' % (self.n, self.e.key())
        if self.k == 'struct':
            return ('P' if self.packed else 'S') + '%d_' % len(self.e) + '_'.join(x.key() for x in self.e) + '_E'
        if self.k == 'named':
            return 'N_' + san(self.name)
        return self.k

    def __repr__(self):
        return self.key()


VOID, PTR, F32, F64, F16, F80, F128, LABEL, META = (Ty(x) for x in
    ('void', 'ptr', 'float', 'double', 'half', 'x86_fp80', 'fp128', 'label', 'metadata'))
PRIM = {'void': VOID, 'ptr': PTR, 'float': F32, 'double': F64, 'half': F16, 'x86_fp80': F80, 'fp128': F128,
        'label': LABEL, 'metadata': META, 'bfloat': Ty('bfloat')}
FLOATS = ('float', 'double', 'half', 'x86_fp80', 'fp128', 'bfloat')


def I(n):
    return Ty('int', n)


_san = {}
_used = set()


def san(name):
    r = _san.get(name)
    if r:
        return r
    base = re.sub(r'[^a-zA-Z0-9_]', lambda m: '_' if m.group(0) in '.-' else '_%02x' % ord(m.group(0)), name.strip('"'))
    r = base
    i = 1
    while r in _used:
        r = base + '__%d' % i
        i += 1
    _used.add(r)
    _san[name] = r
    return r


PARAM_ATTRS = {
    'zeroext', 'signext', 'noalias', 'nocapture', 'nonnull', 'readonly', 'readnone', 'writeonly', 'noundef', 'returned',
    'inreg', 'immarg', 'nofree', 'swiftself', 'nest', 'noinline', 'nounwind', 'dead_on_unwind', 'writable',
    'dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'captures', 'allocalign', 'range', 'inrange',
    'allocptr', 'noext', 'initializes',
}
FN_PRE = {'private', 'internal', 'weak', 'weak_odr', 'linkonce', 'linkonce_odr', 'external', 'extern_weak', 'common',
          'appending', 'available_externally', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
          'unnamed_addr', 'local_unnamed_addr', 'dllimport', 'dllexport', 'fastcc', 'ccc', 'coldcc', 'tail', 'musttail',
          'notail', 'thread_local', 'externally_initialized'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Unsupported('unexpected end')
        self.i += 1
        return self.t[self.i - 1]

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise Unsupported('expected %s got %s in %s' % (x, self.t[self.i - 1], ' '.join(self.t[:40])))

    def is_type_start(self):
        t = self.peek()
        return t is not None and (t in PRIM or re.fullmatch(r'i\d+', t) or t in ('[', '{', '<') or t[0] == '%')

    def type(self):
        t = self.next()
        if t in PRIM:
            r = PRIM[t]
            if t == 'ptr' and self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif re.fullmatch(r'i\d+', t):
            r = I(int(t[1:]))
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            r = Ty('arr', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = Ty('struct', 0, self.tlist('}'), True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                r = Ty('vec', n, e)
        elif t == '{':
            r = Ty('struct', 0, self.tlist('}'))
        elif t[0] == '%':
            r = Ty('named', name=t[1:])
        else:
            raise Unsupported('type ' + t)
        # function type suffix "(...)": only its return type matters to us
        if self.peek() == '(' and self.mod.in_call:
            save = self.i
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            if self.peek() and (self.peek()[0] in '@%'):
                return r
            self.i = save
        return r

    def tlist(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            out.append(self.type())
            if self.accept(end):
                return out
            self.expect(',')

    def attrs(self):
        """parameter attributes; returns byval type if any"""
        byval = None
        while True:
            t = self.peek()
            if t in ('byval', 'sret'):
                self.next()
                ty = None
                if self.accept('('):
                    ty = self.type(); self.expect(')')
                if t == 'byval':
                    byval = ty
            elif t == 'align':
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif t in PARAM_ATTRS:
                self.next()
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        d += (x == '(') - (x == ')')
                        if d == 0:
                            break
            elif t and t[0] == '"' and t not in (',',):
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return byval


# ---------------------------------------------------------------- module

class Func:
    def __init__(self):
        self.name = self.ret = None
        self.params = []      # (ty, name, byval)
        self.body = None      # list of lines
        self.vararg = False


class Module:
    def __init__(self, text):
        self.in_call = False
        self.types, self.globals, self.funcs = {}, {}, {}
        self.aliases = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                body = []
                head = ln
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self._fn(head, body)
            elif ln.startswith('declare '):
                self._fn(ln, None)
            elif ln.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w$.]+) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+) = (.*)$', ln)
                if m:
                    self.globals[m.group(1)] = m.group(2)
            i += 1
        self._tcache = {}

    def ty(self, name):
        if name not in self._tcache:
            src = self.types.get(name)
            if src is None:
                raise Unsupported('type %' + name)
            if src.strip() == 'opaque':
                self._tcache[name] = Ty('struct', 0, [])
            else:
                self._tcache[name] = P(tokenize(src), self).type()
        return self._tcache[name]

    def _fn(self, head, body):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\s*\(', head)
        if not m:
            raise Unsupported('function head ' + head[:100])
        f = Func()
        f.name, f.head, f.body = m.group(1), head, body
        self.funcs[f.name] = f

    def sig(self, f):
        if f.ret is not None:
            return f
        p = P(tokenize(f.head), self)
        p.next()
        while p.peek() in FN_PRE or p.peek() in PARAM_ATTRS or (p.peek() == 'cc'):
            if p.peek() == 'thread_local' and p.peek(1) == '(':
                p.i += 4
                continue
            if p.peek() in PARAM_ATTRS:
                p.attrs()
            else:
                p.next()
        f.ret = p.type()
        nm = p.next()
        assert nm[0] == '@', nm
        p.expect('(')
        k = 0
        while not p.accept(')'):
            if p.accept('...'):
                f.vararg = True
                p.expect(')')
                break
            t = p.type()
            bv = p.attrs()
            if p.peek() and p.peek()[0] == '%':
                name = p.next()[1:]
            else:
                name = str(k)
            k += 1
            f.params.append((t, name, bv))
            if not p.accept(','):
                p.expect(')')
                break
        return f

    # ---- layout
    def res(self, t):
        while t.k == 'named':
            t = self.ty(t.name)
        return t

    def align(self, t):
        t = self.res(t)
        if t.k == 'int':
            s = self.size(t)
            return min(s, 16)
        if t.k == 'ptr' or t.k == 'double':
            return 8
        if t.k == 'float':
            return 4
        if t.k in ('half', 'bfloat'):
            return 2
        if t.k in ('x86_fp80', 'fp128'):
            return 16
        if t.k == 'arr':
            return self.align(t.e)
        if t.k == 'vec':
            return max(1, self.size(t))
        if t.k == 'struct':
            return 1 if t.packed else max([self.align(x) for x in t.e] or [1])
        raise Unsupported('align ' + t.k)

    def size(self, t):
        t = self.res(t)
        if t.k == 'int':
            b = (t.n + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k in ('half', 'bfloat'):
            return 2
        if t.k in ('x86_fp80', 'fp128'):
            return 16
        if t.k == 'arr':
            return t.n * self.size(t.e)
        if t.k == 'vec':
            if t.e.k == 'int' and t.e.n < 8:
                raise Unsupported('bit vector in memory')
            raw = t.n * self.size(t.e)
            s = 1
            while s < raw:
                s *= 2
            return s
        if t.k == 'struct':
            return self.offsets(t)[1]
        raise Unsupported('size ' + t.k)

    def offsets(self, t):
        t = self.res(t)
        o, out = 0, []
        for x in t.e:
            if not t.packed:
                a = self.align(x)
                o = (o + a - 1) // a * a
            out.append(o)
            o += self.size(x)
        if not t.packed:
            a = self.align(t)
            o = (o + a - 1) // a * a
        return out, o


# ---------------------------------------------------------------- emission

def c_unescape(tok):
    s = tok[2:-1]
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]) if ord(s[i]) < 128 else s[i].encode())
            i += 1
    flat = []
    for x in out:
        if isinstance(x, bytes):
            flat += list(x)
        else:
            flat.append(x)
    return flat


IGNORED = ('llvm.assume', 'llvm.lifetime', 'llvm.dbg', 'llvm.donothing', 'llvm.prefetch', 'llvm.invariant',
           'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.va_end', 'llvm.annotation')


PANICS = ('std.core.builtin.panicf', 'std.core.builtin.default_panic', 'std.core.builtin.default_panic_no_backtrace')


class Emit:
    def __init__(self, mod, roots, stubs=(), dyn_types=(), cuts=None, rename=None, uf=()):
        """roots: IR names; stubs: IR function names (or prefixes ending in *) left bodyless for the harness to define;
        cuts: {fn: [(k, hook, [locals])]}: at the head of the k-th loop of fn, hook(&local...) is called (loop invariants); rename: {ir: c name}"""
        self.m, self.stubs, self.cuts, self.cut_done = mod, stubs, cuts or {}, set()
        self.rename = rename or {}
        self.out_types, self.tdone = [], {}
        self.gl_decl, self.gl_def, self.gdone = [], [], set()
        self.fn_decl, self.fn_def, self.fdone = [], [], set()
        self.ext_done = set()
        self.queue = list(roots)
        self.roots = list(roots)
        self.dyn_types = dyn_types
        self.uf = uf            # operators left uninterpreted (sound: holds for every interpretation, so for the real one)
        self.helpers = {}
        self.blockids = {}
        self.stats = {'functions': [], 'external': [], 'stubbed': []}

    # -- types
    def ct(self, t):
        if t.k == 'named':
            return self.ct(self.m.ty(t.name))
        if t.k == 'void':
            return 'void'
        if t.k == 'int':
            s = self.m.size(t) * 8
            return 'vp_u128' if s == 128 else 'uint%d_t' % s if s <= 64 else self._wide(t)
        if t.k == 'ptr':
            return 'vpp'
        if t.k in ('float', 'double'):
            return t.k
        if t.k == 'half':
            return '_Float16'
        if t.k == 'x86_fp80':
            return 'long double'
        if t.k == 'fp128':
            return '__float128'
        key = t.key()
        if key in self.tdone:
            return self.tdone[key]
        nm = 'T%d' % len(self.tdone)
        self.tdone[key] = nm
        if t.k in ('arr', 'vec'):
            if t.n == 0:
                body = ''
            elif t.k == 'vec' and t.e.k == 'int' and t.e.n < 8:
                body = '%s a[%d];' % ('uint8_t', t.n)
            else:
                body = '%s a[%d];' % (self.ct(t.e), t.n)
            al = ' __attribute__((aligned(%d)))' % self.m.size(t) if t.k == 'vec' and not (t.e.k == 'int' and t.e.n < 8) and t.n else ''
        elif t.k == 'struct':
            body = ''.join('%s f%d; ' % (self.ct(x), i) for i, x in enumerate(t.e) if self.m.size(x) > 0)
            al = ' __attribute__((packed))' if t.packed else ''
        else:
            raise Unsupported('ctype ' + t.k)
        self.out_types.append('typedef struct %s { %s}%s %s;' % (nm, body, al, nm))
        return nm

    def _wide(self, t):
        raise Unsupported('int width %d' % t.n)

    def is_agg(self, t):
        return self.m.res(t).k in ('arr', 'struct', 'vec')

    def mask(self, t, e):
        if t.k == 'int' and t.n not in (8, 16, 32, 64, 128):
            if t.n == 1:
                return '((%s) & 1)' % e
            return '((%s) & %s)' % (e, self.lit(t, (1 << t.n) - 1))
        return e

    def lit(self, t, v):
        t = self.m.res(t)
        v &= (1 << t.n) - 1
        if t.n > 64:
            return '((((vp_u128)0x%xULL) << 64) | 0x%xULL)' % (v >> 64, v & (2 ** 64 - 1))
        if t.n > 32:
            return '0x%xULL' % v
        return '((%s)0x%xU)' % (self.ct(t), v)

    def signed(self, t, e):
        """C expression for e as a signed value of type t"""
        n = t.n
        if n in (8, 16, 32, 64):
            return '((int%d_t)%s)' % (n, e)
        if n == 128:
            return '((vp_i128)%s)' % e
        s = self.m.size(t) * 8
        it = 'vp_i128' if s == 128 else 'int%d_t' % s
        sh = s - n
        return '((%s)((%s)((%s)(%s) << %d)) >> %d)' % (it, it, self.ct(t), e, sh, sh)

    # -- symbols
    def gname(self, name):
        if name in self.rename:
            return self.rename[name]
        if name in self.m.funcs:
            f = self.m.funcs[name]
            if name.startswith('llvm.'):
                raise Unsupported('address of ' + name)
            if f.body is None and re.fullmatch(r'[A-Za-z_]\w*', name):
                # external C symbol: keep name
                if name not in self.fdone:
                    self.queue.append(name)
                return self.extname(name)
            if name not in self.fdone:
                self.queue.append(name)
            return self.fname(name)
        if name in self.m.globals:
            self.need_global(name)
            return 'g_' + san(name)
        raise Unsupported('symbol @' + name)

    def extname(self, name):
        return 'vpx_' + name

    def fname(self, name):
        if name in self.rename:
            return self.rename[name]
        if name in self.roots:
            return name if re.fullmatch(r'[A-Za-z_]\w*', name) else san(name)
        return 'f_' + san(name)

    def need_global(self, name):
        if name in self.gdone:
            return
        self.gdone.add(name)
        src = self.m.globals[name]
        p = P(tokenize(src), self.m)
        ext = False
        while True:
            t = p.peek()
            if t == 'thread_local':
                p.next()
                if p.accept('('):
                    p.next(); p.expect(')')
            elif t in ('external', 'extern_weak'):
                ext = True
                p.next()
            elif t in ('alias', 'ifunc'):
                raise Unsupported('alias ' + name)
            elif t in FN_PRE:
                p.next()
            elif t == 'addrspace':
                p.i += 4
            elif t in ('global', 'constant'):
                const = p.next() == 'constant'
                break
            else:
                raise Unsupported('global %s: %s' % (name, t))
        ty = p.type()
        c = 'g_' + san(name)
        q = 'const ' if (const and not ext) else ''
        if self.m.size(ty) == 0:
            self.gl_decl.append('extern uint8_t %s[1];' % c)
            self.gl_def.append('uint8_t %s[1];' % c)
            return
        self.gl_decl.append('extern %s%s %s;' % (q, self.ct(ty), c))
        if ext:
            self.gl_def.append('%s %s; /* external */' % (self.ct(ty), c))
            return
        init = self.const(p, ty)
        self.gl_def.append('%s%s %s = %s;' % (q, self.ct(ty), c, init))

    # -- constants (in initializers); returns C initializer text
    def const(self, p, ty):
        t = p.peek()
        rt = self.m.res(ty)
        if t == 'zeroinitializer':
            p.next()
            return '{0}' if self.is_agg(rt) else '0'
        if t in ('undef', 'poison'):
            p.next()
            return '{0}' if self.is_agg(rt) else '0'
        if rt.k == 'arr':
            if t.startswith('c"'):
                p.next()
                return '{{' + ','.join(str(x) for x in c_unescape(t)) + '}}'
            p.expect('[')
            els = []
            while not p.accept(']'):
                et = p.type()
                els.append(self.const(p, et))
                p.accept(',')
            return '{{' + ','.join(els) + '}}' if els else '{}'
        if rt.k == 'struct':
            if rt.packed:
                p.expect('<')
            p.expect('{')
            els = []
            while not p.accept('}'):
                et = p.type()
                x = self.const(p, et)
                if self.m.size(et) > 0:
                    els.append(x)
                p.accept(',')
            if rt.packed:
                p.expect('>')
            return '{' + ','.join(els) + '}'
        if rt.k == 'vec':
            p.expect('<')
            els = []
            while not p.accept('>'):
                et = p.type()
                els.append(self.const(p, et))
                p.accept(',')
            return '{{' + ','.join(els) + '}}'
        return self.scalar(p, rt)

    def fnum(self, tok, ty):
        if tok.startswith('0x'):
            if tok[2] in 'KLMHR':
                raise Unsupported('float literal ' + tok)
            d = struct.unpack('>d', struct.pack('>Q', int(tok, 16)))[0]
        else:
            d = float(tok)
        if d != d:
            return '(%s)__builtin_nan("")' % self.ct(ty)
        if d in (float('inf'), float('-inf')):
            return '(%s(%s)__builtin_inf())' % ('-' if d < 0 else '', self.ct(ty))
        h = d.hex()
        return '(%s%s)' % (h, 'f' if ty.k == 'float' else '')

    def scalar(self, p, ty, fn=None):
        """a non-aggregate constant or value operand"""
        t = p.next()
        ty = self.m.res(ty)
        if t in ('null', 'none'):
            return '((vpp)0)'
        if t == 'true':
            return '((uint8_t)1)'
        if t == 'false':
            return '((uint8_t)0)'
        if t in ('undef', 'poison'):
            return self.undef(ty)
        if t == 'zeroinitializer':
            return '0'
        if t[0] == '@':
            nm = self.gname(t[1:])
            return '((vpp)%s%s)' % ('' if t[1:] in self.m.funcs else '&', nm)
        if re.fullmatch(r'-?\d+', t) and ty.k == 'int':
            return self.lit(ty, int(t))
        if t == 'blockaddress':
            p.expect('(')
            f = p.next()
            p.expect(',')
            b = p.next()
            p.expect(')')
            return '((vpp)(uint64_t)%du)' % self.blockid(f[1:], b[1:])
        if ty.k in FLOATS:
            return self.fnum(t, ty)
        if t == 'getelementptr':
            p.accept('inbounds')
            p.expect('(')
            base = p.type()
            p.expect(',')
            p.type()
            b = self.scalar(p, PTR, fn)
            idx = []
            while p.accept(','):
                p.accept('inrange')
                it = p.type()
                idx.append((it, self.scalar(p, it, fn)))
            p.expect(')')
            return '(%s)' % self.gep(base, b, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            p.expect('(')
            st = p.type()
            v = self.scalar(p, st, fn)
            p.expect('to')
            dt = p.type()
            p.expect(')')
            return self.cast(t, st, v, dt)
        if t in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while p.peek() in ('nsw', 'nuw'):
                p.next()
            p.expect('(')
            t1 = p.type(); a = self.scalar(p, t1, fn); p.expect(',')
            t2 = p.type(); b = self.scalar(p, t2, fn); p.expect(')')
            return self.binop(t, t1, a, b)
        if t == 'icmp':
            cc = p.next()
            p.expect('(')
            t1 = p.type(); a = self.scalar(p, t1, fn); p.expect(',')
            t2 = p.type(); b = self.scalar(p, t2, fn); p.expect(')')
            return self.icmp(cc, t1, a, b)
        raise Unsupported('constant %s : %s' % (t, ty))

    def blockid(self, fn, block):
        """the address of a block is a number: only compared (by indirectbr), never dereferenced"""
        return self.blockids.setdefault((fn.strip('"'), block.strip('"')), len(self.blockids) + 1)

    def undef(self, ty):
        t = self.ct(ty)
        h = 'vp_undef_' + re.sub(r'\W', '_', t)
        self.helpers[h] = ('static inline %s %s(void) { %s x; return x; }' % (t, h, t))
        return h + '()'

    def gep(self, base, b, idx):
        e = b
        t = base
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                s = self.m.size(t)
                e = self.addoff(e, it, iv, s)
                continue
            rt = self.m.res(t)
            if rt.k == 'struct':
                n = int(re.search(r'0x([0-9a-f]+)', iv).group(1), 16)
                o = self.m.offsets(rt)[0][n]
                if o:
                    e = '%s + %d' % (e, o)
                t = rt.e[n]
            elif rt.k in ('arr', 'vec'):
                t = rt.e
                e = self.addoff(e, it, iv, self.m.size(t))
            else:
                raise Unsupported('gep into ' + rt.k)
        self.gep_ty = t
        return e

    def addoff(self, e, it, iv, s):
        m = re.fullmatch(r'\(\(\w+\)0x([0-9a-f]+)U\)|0x([0-9a-f]+)ULL', iv)
        if m:
            v = int(m.group(1) or m.group(2), 16)
            n = self.m.res(it).n
            if v >> (n - 1):
                v -= 1 << n
            v *= s
            return e if v == 0 else '%s %s %d' % (e, '+' if v > 0 else '-', abs(v))
        sv = '(int64_t)%s' % (self.signed(self.m.res(it), iv) if self.m.res(it).n < 64 else iv)
        return '%s + %s' % (e, sv if s == 1 else '%s * %d' % (sv, s))

    def cast(self, op, st, v, dt):
        st, dt = self.m.res(st), self.m.res(dt)
        c = self.ct(dt)
        if st.k == 'vec':
            return self.vmap(op, st, dt, [v], lambda a: self.cast(op, st.e, a[0], dt.e))
        if op == 'ptrtoint':
            return self.mask(dt, '((%s)(uint64_t)%s)' % (c, v))
        if op == 'inttoptr':
            return '((vpp)(uint64_t)%s)' % v
        if op in ('bitcast', 'addrspacecast'):
            if st.key() == dt.key() or (st.k == 'ptr' and dt.k == 'ptr'):
                return v
            h = 'vp_bc_%s_%s' % (re.sub(r'\W', '_', self.ct(st)), re.sub(r'\W', '_', c))
            self.helpers[h] = 'static inline %s %s(%s x) { union { %s a; %s b; } u; u.a = x; return u.b; }' % (
                c, h, self.ct(st), self.ct(st), c)
            return '%s(%s)' % (h, v)
        if op == 'trunc':
            return self.mask(dt, '((%s)%s)' % (c, v))
        if op == 'zext':
            return '((%s)%s)' % (c, v)
        if op == 'sext':
            return self.mask(dt, '((%s)%s)' % (c, self.signed(st, v)))
        if op in ('fpext', 'fptrunc'):
            return '((%s)%s)' % (c, v)
        if op == 'uitofp':
            return '((%s)%s)' % (c, v)
        if op == 'sitofp':
            return '((%s)%s)' % (c, self.signed(st, v))
        if op == 'fptoui':
            h = 'vp_fptoui_%s_%s' % (st.k, dt.n)
            return self.mask(dt, '((%s)%s)' % (c, v))
        if op == 'fptosi':
            return self.mask(dt, '((%s)(%s)%s)' % (c, {128: 'vp_i128'}.get(self.m.size(dt) * 8, 'int%d_t' % (self.m.size(dt) * 8)), v))
        raise Unsupported('cast ' + op)

    def flagged(self, op, t, a, b, flags):
        # an overflow that nuw/nsw excludes is poison: the result is left unconstrained
        if not flags or op not in ('add', 'sub'):
            if flags:
                raise Unsupported('%s %s' % (op, flags))
            return self.binop(op, t, a, b)
        c, h = self.ct(t), 'vp_%s%s_%d' % (op, ''.join(flags), t.n)
        bad = []
        if 'nuw' in flags:
            bad.append('r < a' if op == 'add' else 'a < b')
        if 'nsw' in flags:
            bad.append('((%s) >> %d) & 1' % ('(a ^ r) & (b ^ r)' if op == 'add' else '(a ^ b) & (a ^ r)', t.n - 1))
        self.helpers[h] = 'static inline %s %s(%s a, %s b) { %s r = %s; if (%s) { %s u; return u; } return r; }' % (
            c, h, c, c, c, self.binop(op, t, 'a', 'b'), ' || '.join('(%s)' % x for x in bad), c)
        return '%s(%s, %s)' % (h, a, b)

    def binop(self, op, t, a, b, elem=False):
        t = self.m.res(t)
        if t.k == 'vec':
            return self.vmap(op, t, t, [a, b], lambda x: self.binop(op, t.e, x[0], x[1], True))
        if t.k in FLOATS:
            o = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}.get(op)
            if o:
                return '(%s %s %s)' % (a, o, b)
            if op == 'frem':
                return '(%s(%s, %s))' % ('fmodf' if t.k == 'float' else 'fmod', a, b)
            raise Unsupported('fp ' + op)
        c = self.ct(t)
        w = c if self.m.size(t) >= 4 else 'uint32_t'
        if op in self.uf and t.n in (8, 16, 32, 64, 128) and (elem or re.search(r'[A-Za-z]\w*_|v_', re.sub(r'u?int\d+_t|vp_u128|vp_i128', '', b))):
            h = 'vp_ufc_%s_%d' % (op, t.n)
            chk = '' if op == 'mul' else 'VP_DIV_CHECK(b != 0); '
            self.helpers[h] = '%s __CPROVER_uninterpreted_%s_%d(%s, %s);\nstatic inline %s %s(%s a, %s b) { %sreturn __CPROVER_uninterpreted_%s_%d(a, b); }' % (
                c, op, t.n, c, c, c, h, c, c, chk, op, t.n)
            return '%s(%s, %s)' % (h, a, b)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            o = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
            return self.mask(t, '((%s)((%s)%s %s (%s)%s))' % (c, w, a, o, w, b))
        if op in ('udiv', 'urem'):
            return '((%s)(%s %s %s))' % (c, a, '/' if op == 'udiv' else '%', b)
        if op in ('sdiv', 'srem'):
            h = 'vp_%s_%d' % (op, t.n)
            sa, sb = self.signed(t, 'a'), self.signed(t, 'b')
            # INT_MIN / -1 is undefined in IR; the quotient is left unconstrained, never assumed away
            it = 'vp_i128' if self.m.size(t) == 16 else 'int%d_t' % (self.m.size(t) * 8)
            self.helpers[h] = ('static inline %s %s(%s a, %s b) { VP_DIV_CHECK(b != 0); if (%s == -1) return %s; return %s; }' % (
                c, h, c, c, sb,
                self.mask(t, '((%s)(0 - (%s)a))' % (c, w)) if op == 'sdiv' else '0',
                self.mask(t, '((%s)((%s)%s %s (%s)%s))' % (c, it, sa, '/' if op == 'sdiv' else '%', it, sb))))
            return '%s(%s, %s)' % (h, a, b)
        if op in ('shl', 'lshr', 'ashr'):
            m = re.fullmatch(r'\(\(\w+\)0x([0-9a-f]+)U\)|0x([0-9a-f]+)ULL|\(\(\(\(vp_u128\)0x0ULL\) << 64\) \| 0x([0-9a-f]+)ULL\)', b)
            k = int(m.group(1) or m.group(2) or m.group(3), 16) if m else None
            if k is not None and k < t.n:
                bb = str(k)
                if op == 'shl':
                    return self.mask(t, '((%s)((%s)%s << %s))' % (c, w, a, bb))
                if op == 'lshr':
                    return '((%s)(%s >> %s))' % (c, a, bb)
                return self.mask(t, '((%s)(%s >> %s))' % (c, self.signed(t, a), bb))
            h = 'vp_%s_%d' % (op, t.n)
            body = {'shl': self.mask(t, '((%s)((%s)a << b))' % (c, w)), 'lshr': '((%s)(a >> b))' % c,
                    'ashr': self.mask(t, '((%s)(%s >> b))' % (c, self.signed(t, 'a')))}[op]
            self.helpers[h] = 'static inline %s %s(%s a, %s b) { if (b >= %d) { %s u; return u; } return %s; }' % (
                c, h, c, c, t.n, c, body)
            return '%s(%s, %s)' % (h, a, b)
        raise Unsupported('binop ' + op)

    def icmp(self, cc, t, a, b):
        t = self.m.res(t)
        if t.k == 'vec':
            r = Ty('vec', t.n, I(1))
            return self.vmap('icmp_' + cc, t, r, [a, b], lambda x: self.icmp(cc, t.e, x[0], x[1]))
        o = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<=',
             'sgt': '>', 'sge': '>=', 'slt': '<', 'sle': '<='}[cc]
        if t.k == 'ptr':
            if cc in ('eq', 'ne'):
                return '((uint8_t)(%s %s %s))' % (a, o, b)
            return '((uint8_t)((uint64_t)%s %s (uint64_t)%s))' % (a, o, b)
        if cc[0] == 's':
            a, b = self.signed(t, a), self.signed(t, b)
        return '((uint8_t)(%s %s %s))' % (a, o, b)

    def fcmp(self, cc, t, a, b):
        t = self.m.res(t)
        if t.k == 'vec':
            r = Ty('vec', t.n, I(1))
            return self.vmap('fcmp_' + cc, t, r, [a, b], lambda x: self.fcmp(cc, t.e, x[0], x[1]))
        un = '(%s != %s || %s != %s)' % (a, a, b, b)
        if cc == 'true':
            return '((uint8_t)1)'
        if cc == 'false':
            return '((uint8_t)0)'
        if cc == 'ord':
            return '((uint8_t)!%s)' % un
        if cc == 'uno':
            return '((uint8_t)%s)' % un
        o = {'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[cc[1:]]
        e = '(%s %s %s)' % (a, o, b)
        if cc == 'one':
            return '((uint8_t)(%s && !%s))' % (e, un)
        if cc[0] == 'o' or cc == 'une':
            return '((uint8_t)%s)' % e
        return '((uint8_t)(%s || %s))' % (e, un)

    def vmap(self, op, st, rt, args, fn):
        h = 'vp_v_%s_%s_%s_%d' % (re.sub(r'\W', '_', op), re.sub(r'\W', '_', self.ct(st)), re.sub(r'\W', '_', self.ct(rt)), len(args))
        if h not in self.helpers:
            n = rt.n
            body = ' '.join('r.a[%d] = %s;' % (i, fn(['%s.a[%d]' % (x, i) for x in 'xyz'[:len(args)]])) for i in range(n))
            self.helpers[h] = 'static inline %s %s(%s) { %s r; %s return r; }' % (
                self.ct(rt), h, ', '.join('%s %s' % (self.ct(st), x) for x in 'xyz'[:len(args)]), self.ct(rt), body)
        return '%s(%s)' % (h, ', '.join(args))

    # -- functions
    def is_stub(self, name):
        for s in self.stubs:
            if s == name or (s.endswith('*') and name.startswith(s[:-1])):
                return True
        return False

    def run(self):
        for s in self.stubs:
            if not s.endswith('*') and s not in self.m.funcs:
                raise Unsupported('no function @%s (called by contract)' % s)
        while self.queue:
            nm = self.queue.pop()
            if nm in self.fdone:
                continue
            self.fdone.add(nm)
            f = self.m.funcs.get(nm)
            if f is None:
                raise Unsupported('no function @' + nm)
            self.m.sig(f)
            if f.body is None:
                self.stats['external'].append(nm)
                self.fn_decl.append(self.proto(f, self.extname(nm)) + ';')
            elif self.is_stub(nm):
                self.stats['stubbed'].append(nm)
                self.fn_decl.append(self.proto(f, self.fname(nm)) + ';')
            elif nm in PANICS:
                # does not return: prints a message and stops the program
                self.fn_decl.append(self.proto(f, self.fname(nm)) + ';')
                self.fn_def.append('%s { vp_trap(); }' % self.proto(f, self.fname(nm), True))
            else:
                self.stats['functions'].append(nm)
                self.fn_decl.append(self.proto(f, self.fname(nm)) + ';')
                FnEmit(self, f).emit()
        return self.text()

    def link_dyn(self):
        """does statically what the .c3_dynamic_register constructors do at program start: chains the @dynamic methods of
        each allowed type into its type's method table (the real .dyn_search then walks it)"""
        g = self.m.globals
        types = [n for n in g if re.fullmatch(r'"\$ct\.(?!dyn\.).*"|\$ct\.(?!dyn\.).*', n)]
        strip = lambda n: n.strip('"')
        by = {}
        for n in g:
            if not strip(n).startswith('$ct.dyn.'):
                continue
            rest = strip(n)[8:]
            best = max((t for t in types if rest.startswith(strip(t)[4:] + '.')), key=len, default=None)
            if best is not None:
                by.setdefault(best, []).append(n)
        for t, ms in by.items():
            nm = strip(t)[4:]
            if not (nm.startswith('vp.') or nm in self.dyn_types):
                continue
            prev = 'ptr null'
            for m_ in sorted(ms):
                new = g[m_].replace('ptr inttoptr (i64 -1 to ptr)', prev)
                if new == g[m_] and prev != 'ptr null':
                    raise Unsupported('dynamic method record ' + m_)
                g[m_] = new
                prev = 'ptr @' + m_
            new = re.sub(r'(%\.introspect \{ i8 \d+, i64 [^,]+, )ptr null', lambda q: q.group(1) + prev, g[t], count=1)
            if new == g[t]:
                raise Unsupported('type record ' + t)
            g[t] = new

    def proto(self, f, cname, names=False):
        ps = ', '.join('%s%s' % (self.ct(t), (' p_' + san('p.' + n)) if names else '') for t, n, bv in f.params)
        if f.vararg:
            ps = ps + ', ...' if ps else ''
        return '%s %s(%s)' % (self.ct(f.ret), cname, ps or ('void' if not f.vararg else ''))

    def text(self):
        pre = ['#include "vp_ir.h"']
        return '\n'.join(pre + self.out_types + sorted(self.gl_decl) + sorted(self.fn_decl) +
                         [self.helpers[k] for k in sorted(self.helpers)] + self.gl_def + self.fn_def) + '\n'


def block_succs(ins):
    last = ins[-1] if ins else ''
    if last.startswith(('br ', 'switch ', 'indirectbr ')):
        return [x.strip('"') if x[0] != '"' else x for x in re.findall(r'label %("(?:[^"\\]|\\.)*"|[-\w$.]+)', last)]
    return []


def order_blocks(blocks, traps):
    """reverse postorder in which a loop's blocks come before the blocks after it, so that only loop edges go backwards
    (block order has no meaning in the IR; it matters for the speed of symbolic execution)"""
    names = [b for b, i in blocks]
    ins = dict(blocks)
    succ = {}
    for b, i in blocks:
        ss = [s for s in block_succs(i)]
        live = [s for s in ss if s not in traps] if i and i[-1].startswith('br ') else ss
        succ[b] = list(dict.fromkeys(live if live else ss))
    entry = names[0]
    # iterative depth first search -> postorder
    def dfs(order):
        seen, post = {entry}, []
        st = [(entry, iter(order(entry)))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(order(s))))
                    break
            else:
                post.append(b)
                st.pop()
        return post[::-1]
    rpo = dfs(lambda b: succ[b])
    num = {b: k for k, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            n = ps[0]
            for q in ps[1:]:
                x, y = n, q
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True
    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += pred[x]
    depth = {b: [h for h in loops if b in loops[h]] for b in rpo}
    # successors that stay in the most loops of b come last in the search, hence first in the order
    def order(b):
        return sorted(succ[b], key=lambda s: sum(1 for h in depth[b] if s in loops[h]))
    height = {}
    for h in sorted(loops, key=lambda h: len(loops[h])):
        height[h] = max([height[g] + 1 for g in height if g in loops[h]], default=0)
    return [(b, ins[b]) for b in dfs(order)], {h: n for h, n in height.items() if n}, set(loops)


class FnEmit:
    def __init__(self, em, f):
        self.e, self.f, self.m = em, f, em.m
        self.decl, self.code = [], []
        self.vt = {}       # value name -> type
        self.direct = {}   # alloca name -> C expr
        self.calls = 0
        self.ptr_ty = {}   # C expression of a pointer -> type of the object it was derived from

    def ptype(self, n, *ps):
        """aggregate type of n bytes that one of the pointers is known to address: copying by that type instead of by
        bytes keeps the fields apart in symbolic execution (goto-cc makes padding explicit, so it is copied as well)"""
        for p in ps:
            t = self.ptr_ty.get(p)
            if t is not None and self.m.size(t) == n:
                rt = self.m.res(t)
                if rt.k == 'struct' or rt.k == 'arr' and not (self.m.res(rt.e).k == 'int' and self.m.res(rt.e).n == 8):
                    return t
        return None

    def v(self, n):
        if n in self.direct:
            return self.direct[n]
        return 'v_' + self.ln(n)

    def ln(self, n):
        return re.sub(r'[^A-Za-z0-9_]', lambda m: '_' if m.group(0) == '.' else '_%02x' % ord(m.group(0)), n.strip('"'))

    def val(self, p, ty):
        """value operand of type ty as C expression"""
        t = p.peek()
        rt = self.m.res(ty)
        if t[0] == '%':
            p.next()
            return self.v(t[1:])
        if self.e.is_agg(rt):
            if t in ('undef', 'poison'):
                p.next()
                return self.e.undef(rt)
            return '((%s)%s)' % (self.e.ct(rt), self.e.const(p, rt))
        return self.e.scalar(p, rt, self)

    def setv(self, name, ty, expr):
        if ty.k == 'void':
            self.code.append('  %s;' % expr)
            return
        c = 'v_' + self.ln(name)
        if name not in self.vt:
            self.vt[name] = ty
            self.decl.append('%s %s;' % (self.e.ct(ty), c))
        self.code.append('  %s = %s;' % (c, expr))

    def emit(self):
        e, m, f = self.e, self.m, self.f
        # split blocks
        blocks, cur, name = [], [], 'entry'
        first = None
        lines = []
        i = 0
        body = f.body
        while i < len(body):
            ln = body[i]
            # join multi-line switch
            if re.match(r'\s+switch .*\[\s*$', ln):
                j = i + 1
                while body[j].strip() != ']':
                    ln += ' ' + body[j].strip()
                    j += 1
                ln += ' ]'
                i = j
            lines.append(ln)
            i += 1
        started = False
        for ln in lines:
            mm = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
            if mm and not ln.startswith(' '):
                if started:
                    blocks.append((name, cur))
                name, cur = mm.group(1), []
                started = True
            elif ln.strip() and not ln.strip().startswith(';'):
                if not started:
                    name = str(len(f.params))
                    started = True
                cur.append(ln.strip())
        blocks.append((name, cur))
        # phis per block
        self.phis = {}
        for bn, ins in blocks:
            for ln in ins:
                mm = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w$.]+) = phi ', ln)
                if mm:
                    p = P(tokenize(ln), m)
                    p.next(); p.next(); p.next()
                    ty = p.type()
                    inc = []
                    while True:
                        p.expect('[')
                        s = p.i
                        inc.append((p, s, ty))
                        # parse lazily: remember token position
                        depth = 1
                        start = p.i
                        toks = []
                        while True:
                            x = p.next()
                            if x == '[':
                                depth += 1
                            if x == ']':
                                depth -= 1
                                if depth == 0:
                                    break
                            toks.append(x)
                        inc[-1] = (toks[:-2], toks[-1][1:])
                        if not p.accept(','):
                            break
                    self.phis.setdefault(bn, []).append((mm.group(1), ty, inc))
        # allocas first so that they can be named anywhere
        for bn, ins in blocks:
            for ln in ins:
                mm = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w$.]+) = alloca ', ln)
                if mm:
                    p = P(tokenize(ln), m)
                    p.next(); p.next(); p.next()
                    p.accept('inalloca')
                    ty = p.type()
                    n = mm.group(1)
                    if p.accept(','):
                        if p.peek() != 'align':
                            continue
                    if m.size(ty) == 0:
                        self.decl.append('uint8_t s_%s[1];' % self.ln(n))
                        self.direct[n] = '((vpp)s_%s)' % self.ln(n)
                        continue
                    self.decl.append('%s s_%s;' % (e.ct(ty), self.ln(n)))
                    self.direct[n] = '((vpp)&s_%s)' % self.ln(n)
                    self.ptr_ty[self.direct[n]] = ty
        for t, n, bv in f.params:
            self.vt[n] = t
            if bv is not None:
                self.decl.append('%s bv_%s = *(%s*)p_%s;' % (e.ct(bv), self.ln(n), e.ct(bv), san('p.' + n)))
                self.decl.append('vpp v_%s = (vpp)&bv_%s;' % (self.ln(n), self.ln(n)))
            else:
                self.decl.append('%s v_%s = p_%s;' % (e.ct(t), self.ln(n), san('p.' + n)))
        for bn, ph in self.phis.items():
            for n, ty, inc in ph:
                self.vt[n] = ty
                self.decl.append('%s v_%s;' % (e.ct(ty), self.ln(n)))
        self.traps = {bn for bn, ins in blocks if bn not in self.phis and self.trap_block(ins)}
        blocks, outer, lheads = order_blocks(blocks, self.traps)
        cuts = {}
        heads = [bn for bn, ins in blocks if bn in lheads]
        for k, hook, names in e.cuts.get(f.name, ()):
            if k >= len(heads):
                raise Unsupported('loop %d of @%s not found' % (k, f.name))
            for n in names:
                if n not in self.direct:
                    raise Unsupported('local %s of @%s not found' % (n, f.name))
            e.fn_decl.append('void %s(%s);' % (hook, ', '.join('vpp' for n in names)))
            cuts[heads[k]] = '  %s(%s);' % (hook, ', '.join(self.direct[n] for n in names))
            if e.cut_done is not None:
                e.cut_done.add((f.name, k))
        for bn, ins in blocks:
            self.bn = bn
            self.code.append('L_%s: ;%s' % (self.ln(bn), ' /* outer loop %d */' % outer[bn] if bn in outer else ''))
            self.trapped = False
            if bn in cuts:
                self.code.append(cuts[bn])
            for ln in ins:
                try:
                    self.ins(ln)
                except Unsupported as ex:
                    raise Unsupported('%s in @%s: %s' % (ex, f.name, ln[:200]))
        e.fn_def.append('%s {\n  %s\n%s\n}' % (e.proto(f, e.fname(f.name), True), '\n  '.join(self.decl), '\n'.join(self.code)))

    def trap_block(self, ins):
        """a block that only prepares the arguments of a panic and stops the program"""
        if len(ins) < 2 or ins[-1].split(',')[0].strip() != 'unreachable':
            return False
        loaded = set()
        trap = False
        for ln in ins[:-1]:
            mm = re.match(r'(%\S+) = (load|insertvalue|getelementptr|extractvalue|zext|sext|trunc|ptrtoint|alloca)\b(.*)', ln)
            if mm and not trap:
                if mm.group(2) == 'load' and re.search(r'ptr @std\.core\.builtin\.panic\b', ln):
                    loaded.add(mm.group(1))
                continue
            if ln.startswith('store ') and not trap:
                continue
            if re.match(r'call void @llvm\.(dbg|lifetime)', ln):
                continue
            mm = re.match(r'(?:tail |notail )?call void (@llvm\.trap|@abort|%%\S+?|@(?:%s))\(' % '|'.join(map(re.escape, PANICS)), ln)
            if mm and (mm.group(1)[0] == '@' or mm.group(1) in loaded):
                trap = True
                continue
            return False
        return trap

    def goto(self, target):
        """phi moves for the edge bn->target, then goto"""
        ph = self.phis.get(target, [])
        out = []
        if ph:
            tmp = []
            for n, ty, inc in ph:
                for toks, frm in inc:
                    if frm == self.bn:
                        x = self.val(P(toks, self.m), ty)
                        tmp.append((n, ty, x))
                        break
                else:
                    raise Unsupported('phi edge')
            if len(tmp) == 1:
                out.append('v_%s = %s;' % (self.ln(tmp[0][0]), tmp[0][2]))
            else:
                for k, (n, ty, x) in enumerate(tmp):
                    out.append('%s ph%d = %s;' % (self.e.ct(ty), k, x))
                for k, (n, ty, x) in enumerate(tmp):
                    out.append('v_%s = ph%d;' % (self.ln(n), k))
        return '{ %s goto L_%s; }' % (' '.join(out), self.ln(target))

    def ins(self, ln):
        e, m = self.e, self.m
        ln = re.sub(r', ![-\w.]+ ![-\w.]+(?=,|$)', '', ln)
        ln = re.sub(r', !\w+ !\d+', '', ln)
        if ' ; ' in ln and '"' not in ln:
            ln = ln.split(' ; ')[0]
        toks = tokenize(ln)
        p = P(toks, m)
        dst = None
        if toks[0][0] == '%' and toks[1] == '=':
            dst = toks[0][1:]
            p.i = 2
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'phi':
            return
        if op == 'alloca':
            if dst in self.direct:
                return
            p.accept('inalloca')
            ty = p.type()
            p.expect(',')
            it = p.type()
            n = self.val(p, it)
            self.setv(dst, PTR, '(vpp)vp_alloca((uint64_t)%s * %d)' % (n, m.size(ty)))
            return
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type(); p.expect(','); p.type()
            a = self.val(p, PTR)
            rt = m.res(ty)
            if rt.k == 'int' and rt.n not in (1, 8, 16, 32, 64, 128):
                self.setv(dst, rt, e.mask(rt, self.load_odd(rt, a)))
                return
            if m.size(rt) == 0:
                return
            self.setv(dst, rt, '*(%s*)(%s)' % (e.ct(rt), a))
            return
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            v = self.val(p, ty)
            p.expect(','); p.type()
            a = self.val(p, PTR)
            rt = m.res(ty)
            if m.size(rt) == 0:
                return
            if rt.k == 'int' and rt.n not in (1, 8, 16, 32, 64, 128):
                n = (rt.n + 7) // 8
                for k in range(n):
                    self.code.append('  ((uint8_t*)(%s))[%d] = (uint8_t)(%s >> %d);' % (a, k, v, 8 * k))
                return
            self.code.append('  *(%s*)(%s) = %s;' % (e.ct(rt), a, v))
            return
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            base = p.type(); p.expect(',')
            pt = p.type()
            b = self.val(p, PTR)
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append((it, self.val(p, it)))
            ex = e.gep(base, b, idx)
            # keep addresses of locals symbolic so that constant offsets stay visible to symex
            self.setv(dst, PTR, '(vpp)(%s)' % ex)
            self.ptr_ty['v_' + self.ln(dst)] = e.gep_ty
            return
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = []
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                flags.append(p.next())
            ty = m.res(p.type())
            a = self.val(p, ty); p.expect(','); b = self.val(p, ty)
            self.setv(dst, ty, e.flagged(op, ty, a, b, [x for x in flags if x in ('nsw', 'nuw')]) if ty.k == 'int' else e.binop(op, ty, a, b))
            return
        if op == 'fneg':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            ty = m.res(p.type())
            a = self.val(p, ty)
            if ty.k == 'vec':
                self.setv(dst, ty, e.vmap('fneg', ty, ty, [a], lambda x: '(-%s)' % x[0]))
            else:
                self.setv(dst, ty, '(-%s)' % a)
            return
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            cc = p.next()
            ty = m.res(p.type())
            a = self.val(p, ty); p.expect(','); b = self.val(p, ty)
            rt = Ty('vec', ty.n, I(1)) if ty.k == 'vec' else I(1)
            self.setv(dst, rt, (e.icmp if op == 'icmp' else e.fcmp)(cc, ty, a, b))
            return
        if op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'uitofp', 'sitofp',
                  'fptoui', 'fptosi', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            st = m.res(p.type())
            v = self.val(p, st)
            p.expect('to')
            dt = m.res(p.type())
            self.setv(dst, dt, e.cast(op, st, v, dt))
            return
        if op == 'select':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            ct = m.res(p.type()); c = self.val(p, ct); p.expect(',')
            t1 = m.res(p.type()); a = self.val(p, t1); p.expect(',')
            p.type(); b = self.val(p, t1)
            if ct.k == 'vec':
                h = 'vp_vsel_%s' % e.ct(t1)
                e.helpers[h] = 'static inline %s %s(%s c, %s x, %s y) { %s r; %s return r; }' % (
                    e.ct(t1), h, e.ct(ct), e.ct(t1), e.ct(t1), e.ct(t1),
                    ' '.join('r.a[%d] = c.a[%d] ? x.a[%d] : y.a[%d];' % (i, i, i, i) for i in range(t1.n)))
                self.setv(dst, t1, '%s(%s, %s, %s)' % (h, c, a, b))
            else:
                self.setv(dst, t1, '(%s ? %s : %s)' % (c, a, b))
            return
        if op == 'freeze':
            ty = m.res(p.type())
            self.setv(dst, ty, self.val(p, ty))
            return
        if op == 'extractvalue':
            ty = m.res(p.type())
            v = self.val(p, ty)
            path = ''
            while p.accept(','):
                i = int(p.next())
                if ty.k == 'arr':
                    path += '.a[%d]' % i
                    ty = m.res(ty.e)
                else:
                    path += '.f%d' % i
                    ty = m.res(ty.e[i])
            if v.startswith('(('):
                self.setv(dst + '.agg', m.res(P(toks[3:] if dst else toks, m).type()), v)
                v = 'v_' + self.ln(dst + '.agg')
            self.setv(dst, ty, '%s%s' % (v, path))
            return
        if op == 'insertvalue':
            aty = m.res(p.type())
            v = self.val(p, aty)
            p.expect(',')
            ty = p.type()
            x = self.val(p, ty)
            path = ''
            while p.accept(','):
                i = int(p.next())
                path += ('.a[%d]' if aty.k == 'arr' and path == '' else '.f%d') % i if path == '' else '.f%d' % i
            if '.f' in path and path.count('.') > 1:
                raise Unsupported('nested insertvalue')
            if v.startswith('vp_undef'):
                if dst not in self.vt:
                    self.vt[dst] = aty
                    self.decl.append('%s v_%s;' % (e.ct(aty), self.ln(dst)))
            else:
                self.setv(dst, aty, v)
            self.code.append('  v_%s%s = %s;' % (self.ln(dst), path, x))
            return
        if op == 'extractelement':
            ty = m.res(p.type()); v = self.val(p, ty); p.expect(',')
            it = p.type(); i = self.val(p, it)
            h = 'vp_ee_' + e.ct(ty)
            e.helpers[h] = 'static inline %s %s(%s v, uint64_t i) { return v.a[i]; }' % (e.ct(ty.e), h, e.ct(ty))
            self.setv(dst, m.res(ty.e), '%s(%s, %s)' % (h, v, i))
            return
        if op == 'insertelement':
            ty = m.res(p.type()); v = self.val(p, ty); p.expect(',')
            et = p.type(); x = self.val(p, et); p.expect(',')
            it = p.type(); i = self.val(p, it)
            h = 'vp_ie_' + e.ct(ty)
            e.helpers[h] = 'static inline %s %s(%s v, %s x, uint64_t i) { v.a[i] = x; return v; }' % (e.ct(ty), h, e.ct(ty), e.ct(ty.e))
            self.setv(dst, ty, '%s(%s, %s, %s)' % (h, v, x, i))
            return
        if op == 'shufflevector':
            ty = m.res(p.type()); a = self.val(p, ty); p.expect(',')
            p.type(); b = self.val(p, ty); p.expect(',')
            mt = m.res(p.type())
            idx = []
            if p.accept('zeroinitializer'):
                idx = [0] * mt.n
            elif p.peek() in ('undef', 'poison'):
                idx = [-1] * mt.n
            else:
                p.expect('<')
                while not p.accept('>'):
                    p.type()
                    t = p.next()
                    idx.append(-1 if t in ('undef', 'poison') else int(t))
                    p.accept(',')
            rt = Ty('vec', mt.n, ty.e)
            h = 'vp_sv_%s_%s' % (e.ct(ty), '_'.join('u' if i < 0 else str(i) for i in idx))
            e.helpers[h] = 'static inline %s %s(%s x, %s y) { %s r; %s return r; }' % (
                e.ct(rt), h, e.ct(ty), e.ct(ty), e.ct(rt),
                ' '.join('r.a[%d] = %s;' % (k, ('x.a[%d]' % i if i < ty.n else 'y.a[%d]' % (i - ty.n)))
                         for k, i in enumerate(idx) if i >= 0))
            self.setv(dst, rt, '%s(%s, %s)' % (h, a, b))
            return
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                self.code.append('  ' + self.goto(p.next()[1:]))
                return
            p.type()
            c = self.val(p, I(1)); p.expect(','); p.expect('label')
            t = p.next()[1:]; p.expect(','); p.expect('label')
            f = p.next()[1:]
            if t in self.traps and f not in self.traps:
                self.code.append('  VP_MUST_NOT(%s); %s' % (c, self.goto(f)))
            elif f in self.traps and t not in self.traps:
                self.code.append('  VP_MUST_NOT(!(%s)); %s' % (c, self.goto(t)))
            else:
                self.code.append('  if (%s) %s else %s' % (c, self.goto(t), self.goto(f)))
            return
        if op == 'switch':
            ty = m.res(p.type()); v = self.val(p, ty); p.expect(','); p.expect('label')
            d = p.next()[1:]
            p.expect('[')
            while not p.accept(']'):
                p.type()
                c = self.val(p, ty)
                p.expect(','); p.expect('label')
                t = p.next()[1:]
                self.code.append('  if (%s == %s) %s' % (v, c, self.goto(t)))
            self.code.append('  ' + self.goto(d))
            return
        if op == 'indirectbr':
            p.type(); v = self.val(p, PTR); p.expect(',')
            p.expect('[')
            while not p.accept(']'):
                p.expect('label')
                t = p.next()[1:]
                self.code.append('  if ((uint64_t)(%s) == %du) %s' % (v, e.blockid(self.f.name, t), self.goto(t)))
                p.accept(',')
            self.code.append('  VP_UNREACHABLE();')
            return
        if op == 'ret':
            if p.peek() == 'void':
                self.code.append('  return;')
                return
            ty = m.res(p.type())
            self.code.append('  return %s;' % self.val(p, ty))
            return
        if op == 'unreachable':
            self.code.append('  __CPROVER_assume(0);' if self.trapped else '  VP_UNREACHABLE();')
            return
        if op == 'call':
            self.call(p, dst)
            return
        if op == 'cmpxchg':
            while p.peek() in ('weak', 'volatile'):
                p.next()
            p.type(); a = self.val(p, PTR); p.expect(',')
            ty = m.res(p.type()); c = self.val(p, ty); p.expect(',')
            p.type(); n = self.val(p, ty)
            rt = Ty('struct', 0, [ty, I(1)])
            t = e.ct(ty)
            h = 'vp_cx_' + re.sub(r'\W', '_', t)
            e.helpers[h] = 'static inline %s %s(vpp p, %s c, %s n) { %s r; r.f0 = *(%s*)p; r.f1 = r.f0 == c; if (r.f1) *(%s*)p = n; return r; }' % (
                e.ct(rt), h, t, t, e.ct(rt), t, t)
            self.setv(dst, rt, '%s(%s, %s, %s)' % (h, a, c, n))
            return
        if op == 'atomicrmw':
            if p.accept('volatile'):
                pass
            k = p.next()
            p.type(); a = self.val(p, PTR); p.expect(',')
            ty = m.res(p.type()); x = self.val(p, ty)
            self.setv(dst, ty, '*(%s*)(%s)' % (e.ct(ty), a))
            old = 'v_' + self.ln(dst)
            if k == 'xchg':
                n = x
            elif k in ('add', 'sub', 'and', 'or', 'xor'):
                n = e.binop(k, ty, old, x)
            elif k in ('max', 'min', 'umax', 'umin'):
                cc = {'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[k]
                n = '(%s ? %s : %s)' % (e.icmp(cc, ty, old, x), old, x)
            else:
                raise Unsupported('atomicrmw ' + k)
            self.code.append('  *(%s*)(%s) = %s;' % (e.ct(ty), a, n))
            return
        if op == 'fence':
            return
        raise Unsupported('instruction ' + op)

    def load_odd(self, t, a):
        n = (t.n + 7) // 8
        c = self.e.ct(t)
        return '(' + ' | '.join('((%s)((uint8_t*)(%s))[%d] << %d)' % (c, a, k, 8 * k) for k in range(n)) + ')'

    def call(self, p, dst):
        e, m = self.e, self.m
        while p.peek() in FN_PRE or p.peek() in PARAM_ATTRS or p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            if p.peek() in PARAM_ATTRS:
                p.attrs()
            else:
                p.next()
        m.in_call = True
        ret = m.res(p.type())
        m.in_call = False
        callee = p.next()
        p.expect('(')
        args, tys = [], []
        while not p.accept(')'):
            t = p.type()
            if t.k == 'metadata':
                while p.peek() not in (',', ')'):
                    p.next()
                p.accept(',')
                continue
            p.attrs()
            args.append(self.val(p, t))
            tys.append(m.res(t))
            p.accept(',')
        if callee[0] == '%':
            c = self.v(callee[1:])
            ft = '%s (*)(%s)' % (e.ct(ret), ', '.join(e.ct(t) for t in tys) or 'void')
            self.setv(dst, ret, '((%s)%s)(%s)' % (ft, c, ', '.join(args)))
            return
        if callee[0] != '@':
            raise Unsupported('callee ' + callee)
        name = callee[1:]
        if name.startswith('llvm.'):
            return self.intrinsic(name, ret, args, tys, dst)
        f = m.funcs.get(name)
        if f is None:
            raise Unsupported('call @' + name)
        m.sig(f)
        if name == 'abort' or name == 'llvm.trap':
            self.code.append('  vp_trap();'); self.trapped = True
            return
        # argument type repair: declared param types rule
        self.setv(dst, ret, '%s(%s)' % (e.gname(name), ', '.join(args)))

    def intrinsic(self, name, ret, args, tys, dst):
        e, m = self.e, self.m
        b = name[5:]
        for x in IGNORED:
            if name.startswith(x):
                return
        if b == 'trap' or b == 'debugtrap' or b.startswith('ubsantrap'):
            self.code.append('  vp_trap();'); self.trapped = True
            return
        if b.startswith('expect'):
            self.setv(dst, ret, args[0])
            return
        if b.startswith(('memcpy', 'memmove')):
            mm = re.fullmatch(r'\(\(\w+\)0x([0-9a-f]+)U\)|0x([0-9a-f]+)ULL', args[2])
            if mm:
                n = int(mm.group(1) or mm.group(2), 16)
                if n == 0:
                    return
                if n <= 4096:
                    t = e.ct(self.ptype(n, args[1], args[0]) or Ty('arr', n, I(8)))
                    if n <= 64 or True:
                        self.code.append('  { %s cp = *(%s*)(%s); *(%s*)(%s) = cp; }' % (t, t, args[1], t, args[0]))
                        return
            self.code.append('  vp_memmove(%s, %s, %s);' % tuple(args[:3]))
            return
        if b.startswith('memset'):
            mm = re.fullmatch(r'\(\(\w+\)0x([0-9a-f]+)U\)|0x([0-9a-f]+)ULL', args[2])
            if mm and args[1] == '((uint8_t)0x0U)':
                n = int(mm.group(1) or mm.group(2), 16)
                if n == 0:
                    return
                if n <= 4096:
                    t = e.ct(Ty('arr', n, I(8)))
                    pt = self.ptype(n, args[0])
                    if pt is not None:
                        self.code.append('  { static const %s cp; *(%s*)(%s) = cp; }' % (e.ct(pt), e.ct(pt), args[0]))
                        return
                    self.code.append('  { %s cp = {0}; *(%s*)(%s) = cp; }' % (t, t, args[0]))
                    return
            self.code.append('  vp_memset(%s, %s, %s);' % tuple(args[:3]))
            return
        if b in ('returnaddress', 'frameaddress') or b.startswith(('returnaddress', 'frameaddress', 'stacksave')):
            self.setv(dst, ret, '((vpp)0)')
            return
        t = tys[0] if tys else ret
        if t.k == 'vec' and not b.startswith('vector.reduce'):
            def one(xs):
                return self.scalar_intr(b, t.e, ret.e if ret.k == 'vec' else ret, xs + args[len(xs):] if False else xs, [t.e] * len(xs))
            vargs = [a for a, ty in zip(args, tys) if ty.k == 'vec']
            self.setv(dst, ret, e.vmap(b.split('.v')[0], t, ret, vargs, lambda xs: self.scalar_intr(b, t.e, ret.e, xs, [t.e] * len(xs))))
            return
        if b.startswith('vector.reduce'):
            k = b.split('.')[2]
            h = 'vp_vr_%s_%s' % (k, e.ct(t))
            acc = 'v.a[0]'
            rng = range(1, t.n)
            init = None
            if k in ('fadd', 'fmul'):
                t = tys[1]
                h = 'vp_vr_%s_%s' % (k, e.ct(t))
                st = t.e
                acc = 's'
                for i in range(t.n):
                    acc = e.binop(k, st, acc, 'v.a[%d]' % i)
                e.helpers[h] = 'static inline %s %s(%s s, %s v) { return %s; }' % (e.ct(ret), h, e.ct(st), e.ct(t), acc)
                self.setv(dst, ret, '%s(%s, %s)' % (h, args[0], args[1]))
                return
            body = '%s r = v.a[0]; ' % e.ct(t.e)
            for i in rng:
                x = 'v.a[%d]' % i
                if k in ('add', 'mul', 'and', 'or', 'xor'):
                    body += 'r = %s; ' % e.binop(k, t.e, 'r', x)
                elif k in ('smax', 'smin', 'umax', 'umin'):
                    cc = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[k]
                    body += 'r = %s ? r : %s; ' % (e.icmp(cc, t.e, 'r', x), x)
                elif k in ('fmax', 'fmin'):
                    body += 'r = r %s %s ? r : %s; ' % ('>' if k == 'fmax' else '<', x, x)
                else:
                    raise Unsupported(name)
            e.helpers[h] = 'static inline %s %s(%s v) { %s return r; }' % (e.ct(ret), h, e.ct(t), body)
            self.setv(dst, ret, '%s(%s)' % (h, args[0]))
            return
        self.setv(dst, ret, self.scalar_intr(b, t, ret, args, tys))

    def scalar_intr(self, b, t, ret, args, tys):
        e, m = self.e, self.m
        k = b.split('.')[0]
        full = b
        c = e.ct(t)
        a0 = args[0] if args else None
        a1 = args[1] if len(args) > 1 else None
        if k in ('umax', 'umin', 'smax', 'smin'):
            cc = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[k]
            return '(%s ? %s : %s)' % (e.icmp(cc, t, a0, a1), a0, a1)
        if k == 'abs':
            h = 'vp_abs_%d' % t.n
            e.helpers[h] = 'static inline %s %s(%s x) { return %s < 0 ? %s : x; }' % (c, h, c, e.signed(t, 'x'), e.mask(t, '(%s)(0 - x)' % c))
            return '%s(%s)' % (h, a0)
        if k in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse'):
            h = 'vp_%s_%d' % (k, t.n)
            n = t.n
            if k == 'ctpop':
                body = 'return (%s)(%s);' % (c, ' + '.join('((x >> %d) & 1)' % i for i in range(n)))
            elif k == 'ctlz':
                body = '%s r = %d; ' % (c, n) + ' '.join('if ((x >> %d) & 1) r = %d;' % (i, n - 1 - i) for i in range(n)) + ' return r;'
            elif k == 'cttz':
                body = '%s r = %d; ' % (c, n) + ' '.join('if ((x >> %d) & 1) r = %d;' % (i, i) for i in reversed(range(n))) + ' return r;'
            elif k == 'bswap':
                body = 'return (%s)(%s);' % (c, ' | '.join('(((x >> %d) & 255) << %d)' % (8 * i, n - 8 - 8 * i) for i in range(n // 8)))
                if n <= 16:
                    body = 'uint32_t y = x; ' + body.replace('x >>', 'y >>')
            else:
                body = 'return (%s)(%s);' % (c, ' | '.join('((%s)((x >> %d) & 1) << %d)' % (c if n > 32 else 'uint32_t', i, n - 1 - i) for i in range(n)))
            e.helpers[h] = 'static inline %s %s(%s x) { %s }' % (c, h, c, body)
            return '%s(%s)' % (h, a0)
        if k in ('fshl', 'fshr'):
            h = 'vp_%s_%d' % (k, t.n)
            n = t.n
            w = c if n >= 32 else 'uint32_t'
            if k == 'fshl':
                body = 's %%= %d; return s ? (%s)(((%s)a << s) | ((%s)b >> (%d - s))) : a;' % (n, c, w, w, n)
            else:
                body = 's %%= %d; return s ? (%s)(((%s)a << (%d - s)) | ((%s)b >> s)) : b;' % (n, c, w, n, w)
            e.helpers[h] = 'static inline %s %s(%s a, %s b, %s s) { %s }' % (c, h, c, c, c, body)
            return '%s(%s)' % (h, ', '.join(args))
        mm = re.match(r'(sadd|uadd|ssub|usub|smul|umul)\.with\.overflow', full)
        if mm:
            o = mm.group(1)
            h = 'vp_%s_ov_%d' % (o, t.n)
            rc = e.ct(ret)
            op = {'add': '+', 'sub': '-', 'mul': '*'}[o[1:]]
            n = t.n
            if n not in (8, 16, 32, 64, 128):
                raise Unsupported(full)
            st = 'vp_i128' if n == 128 else 'int%d_t' % n
            if o[0] == 's':
                body = '%s r; %s x; r.f1 = __builtin_%s_overflow((%s)a, (%s)b, &x); r.f0 = (%s)x; return r;' % (rc, st, o[1:], st, st, c)
            else:
                body = '%s r; %s x; r.f1 = __builtin_%s_overflow(a, b, &x); r.f0 = x; return r;' % (rc, c, o[1:])
            if n == 128 and o[1:] == 'mul':
                raise Unsupported(full)
            e.helpers[h] = 'static inline %s %s(%s a, %s b) { %s }' % (rc, h, c, c, body)
            return '%s(%s, %s)' % (h, a0, a1)
        mm = re.match(r'(sadd|uadd|ssub|usub|sshl|ushl)\.sat', full)
        if mm:
            o = mm.group(1)
            n = t.n
            h = 'vp_%s_sat_%d' % (o, n)
            st = 'vp_i128' if n == 128 else 'int%d_t' % n
            mx = e.lit(t, (1 << (n - 1)) - 1)
            mn = e.lit(t, 1 << (n - 1))
            al = e.lit(t, (1 << n) - 1)
            if o == 'uadd':
                body = '%s r = (%s)(a + b); return r < a ? %s : r;' % (c, c, al)
            elif o == 'usub':
                body = 'return a < b ? 0 : (%s)(a - b);' % c
            elif o == 'sadd':
                body = '%s r = (%s)(a + b); return (((a ^ r) & (b ^ r)) >> %d) & 1 ? ((a >> %d) & 1 ? %s : %s) : r;' % (c, c, n - 1, n - 1, mn, mx)
            elif o == 'ssub':
                body = '%s r = (%s)(a - b); return (((a ^ b) & (a ^ r)) >> %d) & 1 ? ((a >> %d) & 1 ? %s : %s) : r;' % (c, c, n - 1, n - 1, mn, mx)
            elif o == 'ushl':
                body = 'if (b >= %d) { %s u; return u; } %s r = (%s)(a << b); return (%s)(r >> b) == a ? r : %s;' % (n, c, c, c, c, al)
            else:
                body = 'if (b >= %d) { %s u; return u; } %s r = (%s)(a << b); return (%s)((%s)r >> b) == a ? r : ((a >> %d) & 1 ? %s : %s);' % (n, c, c, c, c, st, n - 1, mn, mx)
            e.helpers[h] = 'static inline %s %s(%s a, %s b) { %s }' % (c, h, c, c, body)
            return '%s(%s, %s)' % (h, a0, a1)
        fl = {'sqrt': 'sqrt', 'fabs': 'fabs', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round', 'rint': 'rint',
              'nearbyint': 'nearbyint', 'roundeven': 'roundeven', 'sin': 'sin', 'cos': 'cos', 'exp': 'exp', 'exp2': 'exp2',
              'log': 'log', 'log2': 'log2', 'log10': 'log10', 'pow': 'pow', 'copysign': 'copysign', 'fma': 'fma',
              'fmuladd': 'fma', 'minnum': 'fmin', 'maxnum': 'fmax'}
        if k in fl and t.k in ('float', 'double'):
            return '%s%s(%s)' % (fl[k], 'f' if t.k == 'float' else '', ', '.join(args))
        if k == 'ptrmask':
            return '((vpp)((uint64_t)%s & %s))' % (a0, a1)
        if k == 'is.constant':
            return '0'
        raise Unsupported('intrinsic llvm.' + full)


def translate(text, roots, **kw):
    _san.clear()
    _used.clear()
    mod = Module(text)
    em = Emit(mod, roots, **kw)
    em.link_dyn()
    return em.run(), em.stats, mod
