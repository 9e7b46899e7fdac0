"""Contract check runner.

check <PROPERTY> [--unit NAME] [--tier quick|thorough]

For each unit of /verif/units/<PROPERTY>/ it extracts the real code from /repo's working tree, has CBMC discharge every
obligation of the unit, and reports.  See DESIGN.md for the rules; in short
  all obligations SUCCESS and VP_REACH reachable            -> discharged
  an obligation refuted, input replayed on the real code    -> VIOLATION property=.. replay=..
  an obligation refuted, no concrete input                  -> VIOLATION .. no-failing-input-found
  solver gave no answer (time/memory)                       -> bounded companion decides; evidence says so
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shlex
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CPUS = int(os.environ.get('VP_JOBS', '8'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
sys.path.insert(0, os.path.join(VERIF, 'vp'))

BUDGET = 780.0          # a check is given 900 s
T0 = time.time()


def left():
    return BUDGET - (time.time() - T0)


class CheckError(Exception):
    pass


def sh(cmd, timeout=None, cwd=None, mem_gb=None, stdin=None, env=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre, env=env,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -99, '', 'timeout'


# ------------------------------------------------------------------ units

class Unit:
    def __init__(self, name, opts, file):
        self.name, self.o, self.file = name, opts, file
        self.kind = opts.get('kind', 'proof')
        self.bound = opts.get('bound', '')
        self.tier = opts.get('tier', 'quick')
        self.fns = [x for x in opts.get('fns', '').split(',') if x]
        self.entry = 'vp_' + opts.get('entry', name)
        self.defs = opts.get('defs', '').split()
        self.timeout = float(opts.get('timeout', '120'))
        self.solvers = opts.get('solver', 'cadical').split(',')
        self.extra = opts.get('opts', '').split()
        self.family, self.arg, self.base = name, None, None

    def get(self, k, d=None):
        return self.o.get(k, d)


class UFile:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.o, self.units = {}, []
        for m in re.finditer(r'^//@(file|unit)\s+(.*)$', self.text, re.M):
            toks = shlex.split(m.group(2))
            if m.group(1) == 'file':
                self.o.update(t.split('=', 1) for t in toks)
            else:
                self.units.append((toks[0], dict(t.split('=', 1) for t in toks[1:])))
        dflt = {k[2:]: v for k, v in self.o.items() if k.startswith('d.')}
        us, self.wraps = [], ''
        for n, o in self.units:
            if 'each' not in o:
                us.append(Unit(n, {**dflt, **o}, self))
                continue
            # a family of units: vp_<unit>(uint64_t) applied to each listed constant
            args = []
            for a in o['each'].split(','):
                if '..' in a:
                    lo, hi = a.split('..')
                    args += range(int(lo), int(hi) + 1)
                else:
                    args.append(int(a))
            self.wraps += 'void vp_%s(uint64_t);\n' % n
            for a in args:
                u = Unit(n, {**dflt, **o}, self)
                u.family, u.name, u.arg, u.base = n, '%s_%d' % (n, a), a, u.entry
                u.entry = 'vp_' + u.name
                self.wraps += 'void %s(void) { vp_%s(%dULL); }\n' % (u.entry, n, a)
                us.append(u)
        self.units = us
        self.lang = self.o.get('lang', 'c')
        self.name = os.path.basename(path)[:-2]


# ------------------------------------------------------------------ extraction

SRC_INC = ['src', 'src/compiler', 'src/utils', 'src/build', 'dependencies/miniz', 'wrapper/include']
_lock = threading.Lock()


class Extract:
    """Holds what one check run extracted from /repo into its scratch directory."""

    def __init__(self, work):
        self.work = work
        self.c3c = None
        self.memo = {}
        self.c3c_err = None

    def once(self, key, fn):
        with _lock:
            ev = self.memo.get(key)
            if ev is None:
                ev = self.memo[key] = cf.Future()
                mine = True
            else:
                mine = False
        if mine:
            try:
                ev.set_result(fn())
            except BaseException as ex:
                ev.set_exception(ex)
        return ev.result()

    # -- the compiler itself, built from the working tree
    def build_c3c(self):
        def go():
            b = os.path.join(self.work, 'c3c-build')
            rc, o, e = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_C_COMPILER=clang-18',
                           '-DCMAKE_CXX_COMPILER=clang++-18', '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_C_FLAGS_DEBUG=-O0',
                           '-DC3_LLVM_VERSION=18.1', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON'], timeout=120)
            if rc == 0:
                rc, o, e = sh(['ninja', '-C', b, 'c3c'], timeout=600)
            if rc:
                raise CheckError('building c3c failed:\n' + (o + e)[-3000:])
            return os.path.join(b, 'c3c')
        return self.once('c3c', go)

    def incs(self):
        r = ['-I' + os.path.join(VERIF, 'include'), '-I' + REPO]
        for d in SRC_INC:
            r.append('-I' + os.path.join(REPO, d))
        return r

    def goto_cc(self, src, out, defs):
        rc, o, e = sh(['goto-cc', '-c', '-o', out, src, '-include', os.path.join(VERIF, 'include/vp_cbmc.h')] + self.incs() + ['-D' + d for d in defs],
                      timeout=120)
        if rc:
            raise CheckError('goto-cc %s failed:\n%s' % (src, (o + e)[-3000:]))
        return out

    def repo_tu(self, rel):
        """goto binary of one repo translation unit"""
        def go():
            return self.goto_cc(os.path.join(REPO, rel), os.path.join(self.work, rel.replace('/', '_') + '.gb'), [])
        return self.once('tu:' + rel, go)

    def find_def(self, fn):
        def go():
            d = {}
            for p in glob.glob(REPO + '/src/**/*.c', recursive=True) :
                t = open(p, errors='replace').read()
                for m in re.finditer(r'^(?!static)[A-Za-z_][\w \t\*]*?\b(\w+)\([^;{}]*\)\s*\{', t, re.M):
                    d.setdefault(m.group(1), os.path.relpath(p, REPO))
            return d
        return self.once('defs', go).get(fn)

    # -- C3 probe -> LLVM IR -> C
    def c3_ir(self, uf):
        def go():
            c3c = self.build_c3c()
            probe = os.path.join(os.path.dirname(uf.path), uf.o['probe'])
            d = os.path.join(self.work, 'ir-' + uf.name)
            os.makedirs(d)
            srcs = [probe] + [os.path.join(VERIF, 'include', x) for x in uf.o.get('with', '').split(',') if x]
            cmd = [c3c, 'compile-only', '--emit-llvm', '--no-obj', '-g0', '-O0', '--single-module=yes', '--no-entry',
                   '--panic-msg=no', '--safe=yes', '--stdlib', os.path.join(REPO, 'lib/std'), '--threads', '1'] + uf.o.get('c3opts', '').split() + srcs
            env = dict(os.environ, HOME=d)
            rc, o, e = sh(cmd, timeout=200, cwd=d, env=env)
            lls = glob.glob(d + '/**/*.ll', recursive=True)
            if rc or not lls:
                raise CheckError('c3c failed on probe %s:\n%s' % (probe, (o + e)[-3000:]))
            if len(lls) != 1:
                raise CheckError('expected one IR module, got %s' % lls)
            return lls[0]
        return self.once('ir:' + uf.path, go)

    def c3_c(self, uf):
        def go():
            import ir2c
            # cut=FN#K:hook:a,b;...  the K-th loop of FN calls hook(&a, &b) at its head (loop invariant by havoc)
            cuts = {}
            for c in [x for x in uf.o.get('cut', '').split(';') if x]:
                fk, hook, names = c.split(':')
                fn, k = fk.split('#')
                cuts.setdefault(fn, []).append((int(k), hook, [n for n in names.split(',') if n]))
            ll = self.c3_ir(uf)
            text = open(ll).read()
            probe = os.path.join(os.path.dirname(uf.path), uf.o['probe'])
            roots = re.findall(r'@export\("(\w+)"\)', open(probe).read())
            try:
                c, stats, _ = ir2c.translate(text, roots, stubs=[x for x in uf.o.get('stubs', '').split(',') if x], cuts=cuts,
                                           dyn_types=[x for x in uf.o.get('dyn', '').split(',') if x],
                                           uf=uf.o.get('uf', '').split(','))
            except ir2c.Unsupported as ex:
                raise CheckError('extraction of %s: %s' % (uf.name, ex))
            out = os.path.join(self.work, 'gen-' + uf.name + '.c')
            open(out, 'w').write(c)
            return out, stats
        with _lock2:
            return self.once('gen:' + uf.path, go)

    def goto(self, unit):
        uf = unit.file
        key = 'gb:%s:%s' % (uf.path, ' '.join(unit.defs))

        def go():
            tag = uf.name + '-' + hashlib.md5(key.encode()).hexdigest()[:6]
            parts = [self.goto_cc(uf.path, os.path.join(self.work, tag + '.gb'), unit.defs)]
            if uf.wraps:
                w = os.path.join(self.work, tag + '-w.c')
                open(w, 'w').write('#include <stdint.h>\n' + uf.wraps)
                parts.append(self.goto_cc(w, w + '.gb', []))
            if uf.lang == 'c3':
                gen, _ = self.c3_c(uf)
                parts.append(self.once('gengb:' + uf.path, lambda: self.goto_cc(gen, gen + '.gb', [])))
                rt = os.path.join(VERIF, 'include/vp_rt_cbmc.c')
                parts.append(self.once('rt', lambda: self.goto_cc(rt, os.path.join(self.work, 'rt.gb'), [])))
            for rel in uf.o.get('link', '').split(','):
                if rel:
                    parts.append(self.repo_tu(rel))
            return self.link(parts, os.path.join(self.work, tag + '-l.gb')), parts
        gb, parts = self.once(key, go)
        return self.replace(unit, gb), parts

    def replace(self, unit, gb):
        """calls to f checked against f's contract g instead of its body"""
        rep = unit.get('replace')
        if not rep:
            return gb

        def go():
            out = gb[:-3] + '-' + hashlib.md5(rep.encode()).hexdigest()[:6] + '.gb'
            rc, o, e = sh(['goto-instrument', gb, out] + [x for r in rep.split(',') for x in ('--replace-calls', r)], timeout=200)
            if rc:
                raise CheckError('replace-calls failed: ' + (o + e)[-600:])
            return out
        return self.once('rep:%s:%s' % (gb, rep), go)

    def link(self, parts, out):
        rc, o, e = sh(['goto-cc', '-o', out, '--function', 'main'] + parts, timeout=120) if False else sh(['goto-cc', '-o', out] + parts, timeout=120)
        if rc:
            raise CheckError('goto link failed:\n' + (o + e)[-3000:])
        return out

    def gen_inc(self):
        def go():
            d = os.path.join(self.work, 'geninc')
            os.makedirs(d, exist_ok=True)
            open(d + '/git_hash.h', 'w').write('#define GIT_HASH "vp"\n')
            return d
        return self.once('geninc', go)

    def nat_obj(self, rel):
        def go():
            o = os.path.join(self.work, 'nat_' + rel.replace('/', '_') + '.o')
            rc, so, se = sh(['clang-18', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                             '-fno-sanitize=alignment,function,vptr', '-c', os.path.join(REPO, rel), '-o', o] + self.incs() + ['-I' + self.gen_inc()], timeout=300)
            return o if rc == 0 else None
        return self.once('nato:' + rel, go)

    # -- native build of a unit (replay / search)
    def native(self, unit):
        uf = unit.file
        key = 'nat:%s:%s:%s' % (uf.path, unit.entry, ' '.join(unit.defs))

        def go():
            out = os.path.join(self.work, 'nat-' + hashlib.md5(key.encode()).hexdigest()[:10])
            san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,function,vptr'] + (
                ['-fno-sanitize=' + uf.o['nosan']] + (['-fwrapv'] if 'signed-integer-overflow' in uf.o['nosan'] else []) if uf.o.get('nosan') else [])
            base = ['clang-18', '-g', '-O1', '-w', '-DVP_NATIVE', '-DVP_ENTRY=' + (unit.base or unit.entry)] + ([] if unit.arg is None else ['-DVP_ENTRY_ARG=%dULL' % unit.arg]) + ['-D' + d for d in unit.defs]
            inp = [uf.path, os.path.join(VERIF, 'include/vp_native.c')]
            extra = []
            if uf.lang == 'c3':
                t = open(self.c3_ir(uf)).read()
                t = re.sub(r'^(attributes #\d+ = \{)', r'\1 sanitize_address ', t, flags=re.M)
                t = re.sub(r'^(define (?:[^#\n]|#(?!\d))*?\)(?: local_unnamed_addr| unnamed_addr)?)((?: comdat)? \{)$', r'\1 sanitize_address\2', t, flags=re.M)
                ll = out + '.ll'
                open(ll, 'w').write(t)
                rc, o, e = sh(['clang-18', '-g', '-O1', '-w', '-fsanitize=address', '-c', ll, '-o', out + '.o'], timeout=200)
                if rc:
                    raise CheckError('native IR build failed: ' + (o + e)[-2000:])
                extra = [out + '.o', '-lm', '-lpthread', '-ldl']
                san = ['-fsanitize=address'] + (['-fwrapv'] if 'signed-integer-overflow' in uf.o.get('nosan', '') else [])
            cc = base + san + self.incs() + ['-I' + self.gen_inc()]
            h = out + '-h.o'
            rc, o, e = sh(cc + ['-c', uf.path, '-o', h], timeout=300)
            if rc:
                raise CheckError('native build of %s failed: %s' % (unit.name, (o + e)[-2500:]))
            rc, o, e = sh(cc + ['-c', inp[1], '-o', out + '-n.o'], timeout=300)
            objs = [h, out + '-n.o'] + extra
            rels = [r for r in uf.o.get('link', '').split(',') if r]
            tried = set(rels)
            for _ in range(8):
                with cf.ThreadPoolExecutor(8) as tp:
                    ro = list(tp.map(self.nat_obj, rels))
                lk = ['clang-18', '-g', '-o', out] + san + objs + [x for x in ro if x] + ['-lm', '-lpthread', '-ldl', '-Wl,-z,muldefs']
                rc, o, e = sh(lk, timeout=300)
                if rc == 0:
                    return out
                add = set()
                for fn in set(re.findall(r"undefined reference to `(\w+)'", o + e)):
                    rel = self.find_def(fn)
                    if rel and rel not in tried and 'llvm' not in rel:
                        add.add(rel)
                if not add:
                    # what the unit never calls (LLVM, the linker, ...) stops the program if it is called after all
                    names = sorted(set(re.findall(r"undefined reference to `([^'@ ]+)'", o + e)))
                    open(out + '-u.s', 'w').write('.text\n' + ''.join('.globl "%s"\n.weak "%s"\n"%s": jmp vp_undefined\n' % (n, n, n) for n in names) + '.section .note.GNU-stack,"",@progbits\n')
                    rc, o, e = sh(lk + [out + '-u.s'], timeout=300)
                    if rc:
                        raise CheckError('native link of %s failed: %s' % (unit.name, (o + e)[-2500:]))
                    return out
                tried |= add
                rels += sorted(add)
            raise CheckError('native build of %s failed' % unit.name)
        return self.once(key, go)


_lock2 = threading.RLock()

# ------------------------------------------------------------------ solving

CHECKS_OFF = {'signed-overflow': '--no-signed-overflow-check', 'conversion': '--no-conversion-check', 'pointer': '--no-pointer-check',
              'bounds': '--no-bounds-check', 'shift': '--no-undefined-shift-check', 'primitive': '--no-pointer-primitive-check',
              'div': '--no-div-by-zero-check'}
SOLV = {'cadical': ['--sat-solver', 'cadical'], 'minisat': [], 'cvc5': ['--cvc5'], 'z3': ['--z3'],
        'kissat': ['--external-sat-solver', 'kissat'], 'bitwuzla': ['--bitwuzla'], 'refine': ['--refine', '--sat-solver', 'cadical']}


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = None          # discharged | refuted | timeout | error
        self.ok, self.failed, self.total = [], [], 0
        self.secs = 0.0
        self.solver = ''
        self.detail = ''
        self.native = None
        self.names = []
        self.fallback = None
        self.loose = ()


def parse_json(out):
    try:
        return json.loads(out)
    except ValueError:
        return None


def loop_bounds(ex, unit, gb):
    """per-loop unwinding hints: `outer=N` bounds the loops of the extracted C3 code that contain another loop,
    `fnunwind=f:N:M:K` the loops of functions whose name contains f: K those without a loop in them, M those with one level
    of loops in them, N all others.  Only a matter of speed: where a hint is
    too small the unwinding assertion fails and the unit is repeated with the general bound for that loop."""
    outer, fn = unit.get('outer'), [x.split(':') for x in (unit.get('fnunwind') or '').split(',') if x]
    if not (outer or fn) or unit.file.lang != 'c3':
        return {}

    def go():
        gen, _ = ex.c3_c(unit.file)
        lines = open(gen).read().split('\n')
        rc, o, e = sh(['cbmc', gb, '--show-loops', '--json-ui'], timeout=60)
        res = []
        for x in parse_json(o) or []:
            for l in x.get('loops', []) if isinstance(x, dict) else []:
                loc = l.get('sourceLocation', {})
                if not loc.get('file', '').endswith(os.path.basename(gen)):
                    continue
                k = int(loc['line']) - 1
                for lab in re.findall(r'goto (L_\w+);', lines[k]):
                    j = k
                    while j >= 0 and not lines[j].startswith(lab + ':'):
                        if lines[j] == '}':
                            j = -1
                            break
                        j -= 1
                    if j >= 0:
                        mm = re.search(r'outer loop (\d+)', lines[j])
                        res.append((l['name'], int(mm.group(1)) if mm else 0))
                        break
        return res
    out = {}
    for name, height in ex.once('loops:' + gb, go):
        if height and outer:
            out[name] = outer
        for f in fn:
            if f[0] in name.rsplit('.', 1)[0]:
                out[name] = f[max(1, len(f) - 1 - height)]
    return out


def cbmc(ex, unit, gb, solver, timeout, extra=(), loose=()):
    cmd = ['cbmc', gb, '--function', unit.entry, '--json-ui', '--drop-unused-functions', '--no-malloc-may-fail',
           '--object-bits', unit.get('objbits', '10'), '--unwinding-assertions'] + SOLV[solver] + ([] if '--trace' in extra else ['--slice-formula'])
    off = unit.get('off', unit.file.o.get('off', '')).split(',')
    for x in off:
        if x:
            cmd.append(CHECKS_OFF[x])
    if unit.get('unwind'):
        cmd += ['--unwind', unit.get('unwind')]
    us = [x for x in (unit.get('unwindset') or '').split(',') if x] + ['%s:%s' % x for x in loop_bounds(ex, unit, gb).items() if x[0] not in loose]
    if us:
        cmd += ['--unwindset', ','.join(us)]
    cmd += unit.extra + list(extra)
    t = time.time()
    rc, o, e = sh(cmd, timeout=timeout, mem_gb=float(unit.get('mem', '7')), cwd=ex.work)
    dt = time.time() - t
    return cmd, rc, o, e, dt


def run_lemma(unit):
    """pure lemma over the spec functions (no code): an SMT-LIB file that must be unsat; a (get-model)-free file per lemma"""
    r = Result(unit)
    t = time.time()
    path = os.path.join(os.path.dirname(unit.file.path), unit.get('smt'))
    sv = unit.solvers[0]
    rc, o, e = sh({'cvc5': ['cvc5', path], 'z3': ['z3-new', path]}[sv if sv in ('cvc5', 'z3') else 'cvc5'], timeout=unit.timeout)
    r.secs, r.solver, r.total = time.time() - t, sv, 1
    r.names = ['VP:lemma ' + unit.get('smt')]
    if o.strip() == 'unsat':
        r.status, r.ok = 'discharged', [1]
    else:
        r.status, r.detail = 'lemma', (o + e)[:300]
    return r


def run_unit(ex, unit, tier):
    if unit.get('smt'):
        return run_lemma(unit)
    r = Result(unit)
    try:
        gb, parts = ex.goto(unit)
    except CheckError as err:
        r.status, r.detail = 'error', str(err)
        return r
    tried = []
    loose = r.loose = set()
    for solver in unit.solvers:
        for attempt in range(8):
            to = min(unit.timeout * (4 if tier == 'thorough' else 1), max(left(), 5))
            cmd, rc, o, e, dt = cbmc(ex, unit, gb, solver, to, loose=loose)
            r.secs += dt
            r.solver, r.cmd = solver, cmd
            if rc == -99:
                tried.append('%s: no answer in %ds' % (solver, to))
                break
            js = parse_json(o)
            if js is None or rc not in (0, 10):
                msg = ''
                if js:
                    msg = ' '.join(x.get('messageText', '') for x in js if isinstance(x, dict) and x.get('messageType') == 'ERROR')
                tried.append('%s: exit %d %s' % (solver, rc, (msg or (o[-300:] + e[-300:]))[:400]))
                break
            res = []
            for x in js:
                if isinstance(x, dict) and 'result' in x:
                    res = x['result']
            # functions the extraction did not bring along
            nobody = sorted({m.group(1) for x in res if x['status'] == 'FAILURE' for m in [re.search(r'no body for (?:callee|function) (\S+)', x.get('description', ''))] if m})
            if nobody:
                add = {ex.find_def(f) for f in nobody} - {None}
                if not add or attempt >= 3:
                    r.status, r.detail = 'error', 'no body for ' + ', '.join(nobody)
                    return r
                try:
                    parts = parts + [ex.repo_tu(a) for a in sorted(add)]
                    with _lock2:
                        gb = ex.replace(unit, ex.link(parts, os.path.join(ex.work, 'lnk-%s-%d.gb' % (unit.name, attempt))))
                except CheckError as err:
                    r.status, r.detail = 'error', str(err)
                    return r
                continue
            reach = [x for x in res if x.get('description') == 'VP_REACH']
            obs = [x for x in res if x.get('description') != 'VP_REACH']
            r.total = len(obs)
            r.ok = [x for x in obs if x['status'] == 'SUCCESS']
            r.failed = [x for x in obs if x['status'] == 'FAILURE']
            other = [x for x in obs if x['status'] not in ('SUCCESS', 'FAILURE')]
            r.names = ['%s.%s: %s' % (unit.name, x['property'], x['description']) for x in obs]
            r.js = js
            if r.failed:
                hard = [x for x in r.failed if 'unwinding assertion' not in x['description']]
                hints = loop_bounds(ex, unit, gb)
                more = {re.sub(r'\.unwind\.', '.', x['property']) for x in r.failed if x not in hard} & set(hints) - loose
                if more and not hard and attempt < 7:
                    loose |= more
                    continue
                r.status = 'refuted' if hard else 'unwound'
                r.hard = hard
                if not hard:
                    r.detail = 'loop bound exceeded: ' + ', '.join(x['property'] for x in r.failed)
                return r
            if other:
                tried.append('%s: %d undecided' % (solver, len(other)))
                break
            if not obs or not any(x.get('description', '').startswith('VP:') for x in obs):
                r.status, r.detail = 'error', 'no obligations generated'
                return r
            if not reach or any(x['status'] != 'FAILURE' for x in reach):
                r.status, r.detail = 'vacuous', 'no input reaches the end of the contract'
                return r
            r.status = 'discharged'
            return r
    r.status, r.detail = 'timeout', '; '.join(tried)
    return r


def trace_inputs(js):
    ins = []
    for x in js:
        for res in (x.get('result', []) if isinstance(x, dict) else []):
            if res.get('trace'):
                for s in res['trace']:
                    if s.get('stepType') == 'input' and s.get('inputID') == 'vp_in':
                        v = s['values'][0]
                        if 'binary' in v:
                            ins.append(int(v['binary'], 2))
                        else:
                            ins.append(int(re.sub('[^0-9-]', '', v['data'])) & (2**64 - 1))
                return ins
    return ins


NAT_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=2000', UBSAN_OPTIONS='print_stacktrace=1')


def native_replay(ex, unit, ins):
    exe = ex.native(unit)
    rc, o, e = sh([exe, 'replay'], timeout=60, stdin=(' '.join('%x' % i for i in ins) + '\n').encode() if ins else b'0\n', env=NAT_ENV)
    hit = ('VP_NATIVE_VIOLATION' in o or rc not in (0, 43, 127, -99)) and not re.search(r'address 0x0+ \(pc 0x0+ ', o + e)
    return hit, rc, o, e


def native_search(ex, unit, secs):
    """random search for a concrete failing input, only after an obligation was refuted or left undecided"""
    exe = ex.native(unit)
    procs = [(k, None) for k in range(4)]
    with cf.ThreadPoolExecutor(4) as tp:
        outs = list(tp.map(lambda k: sh([exe, str(SEED * 1000 + k[0]), str(secs)], timeout=secs + 30, env=NAT_ENV), procs))
    runs = 0
    for rc, o, e in outs:
        m = re.search(r'VP_SEARCHED runs=(\d+) accepted=(\d+)', o)
        if m:
            runs += int(m.group(2))
        m = re.search(r'VP_INPUTS((?: [0-9a-f]+)*)', o)
        if rc not in (0, 43, 127, -99) and m:
            return [int(x, 16) for x in m.group(1).split()], o, e, runs
    return None, outs[0][1], outs[0][2], runs


# ------------------------------------------------------------------ verdicts

def short(o):
    return o[-4000:]


def report(ex, prop, r, tier):
    """r.status == 'refuted': find and replay a concrete input. Returns replay path, concrete?"""
    unit = r.unit
    os.makedirs(VERIF + '/replays', exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, unit.name))
    first = r.hard[0]
    rec = {'property': prop, 'unit': unit.name, 'harness': os.path.relpath(unit.file.path, VERIF), 'entry': unit.entry, 'defs': unit.defs,
           'functions': unit.fns, 'failed_obligations': [{'id': x['property'], 'clause': x['description'],
           'at': '%s:%s' % (x.get('sourceLocation', {}).get('file'), x.get('sourceLocation', {}).get('line'))} for x in r.hard],
           'verifier': ' '.join(r.cmd), 'replay_cmd': 'bin/replay ' + os.path.relpath(path, VERIF)}
    concrete = False
    notes = []
    cands = sorted(r.hard, key=lambda x: 0 if x['description'].startswith('VP:') else 1)[:4]
    for x in cands:
        gb = r.cmd[1]
        _, rc, o, e, dt = cbmc(ex, unit, gb, r.solver, min(max(60, 3 * r.secs + 30), max(left() - 30, 10)), ['--property', x['property'], '--trace'], loose=r.loose)
        js = parse_json(o)
        if not js:
            notes.append('no trace for %s' % x['property'])
            continue
        ins = trace_inputs(js)
        rec['inputs'] = ['%x' % i for i in ins]
        rec['verifier_output'] = [m for m in ([y for y in js if isinstance(y, dict) and 'messageText' in y])][-6:]
        try:
            hit, rc, o, e = native_replay(ex, unit, ins)
        except CheckError as err:
            notes.append(str(err))
            break
        rec['native_output'] = short(o) + short(e)
        rec['native_exit'] = rc
        if hit:
            concrete = True
            break
        notes.append('counterexample of %s did not reproduce natively (exit %s)' % (x['property'], rc))
    if not concrete:
        try:
            ins, o, e, runs = native_search(ex, unit, min(15, max(3, left() / 10)))
            if ins is not None:
                hit, rc, o2, e2 = native_replay(ex, unit, ins)
                if hit:
                    rec['inputs'] = ['%x' % i for i in ins]
                    rec['native_output'], rec['native_exit'] = short(o2) + short(e2), rc
                    concrete = True
                    notes.append('input found by native search')
            else:
                notes.append('native search: %d runs, none failed' % runs)
        except CheckError as err:
            notes.append(str(err))
    rec['concrete'] = concrete
    rec['notes'] = notes
    json.dump(rec, open(path, 'w'), indent=1)
    return path, concrete


def companions(files, unit):
    n = unit.get('bounded')
    if not n:
        return []
    return [u for f in files for u in f.units if u.name in n.split(',')]


def main(argv):
    prop = argv[0]
    if argv and argv[0] == '--replay':
        return replay_file(argv[1])
    only = None
    tier = os.environ.get('VERIF_TIER', 'quick')
    keep = False
    verbose = '-v' in argv
    for i, a in enumerate(argv):
        if a == '--unit':
            only = argv[i + 1].split(',')
        if a == '--tier':
            tier = argv[i + 1]
        if a == '--keep':
            keep = True
    global BUDGET
    if tier == 'thorough':
        BUDGET = float(os.environ.get('VP_BUDGET', '7200'))
    d = os.path.join(VERIF, 'units', prop)
    files = [UFile(p) for p in sorted(glob.glob(d + '/*.c'))]
    if not files:
        print('no units for', prop)
        return 2
    units = [u for f in files for u in f.units if (u.tier == 'quick' or tier == 'thorough') and u.get('only') != 'fallback']
    if only:
        units = [u for f in files for u in f.units if u.name in only or u.family in only]
    work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    try:
        return go(prop, files, units, tier, work, verbose, only)
    finally:
        if keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def replay_file(path):
    """rebuilds the unit natively from /repo and runs the recorded inputs; exit 1 if the contract fails again"""
    rec = json.load(open(path))
    print(json.dumps({k: rec.get(k) for k in ('property', 'unit', 'failed_obligations', 'verifier', 'why')}, indent=1))
    uf = UFile(os.path.join(VERIF, rec['harness']))
    unit = next(u for u in uf.units if u.name == rec['unit'])
    if 'inputs' not in rec:
        print('no concrete input recorded')
        return 2
    work = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        hit, rc, o, e = native_replay(Extract(work), unit, [int(x, 16) for x in rec['inputs']])
        print(short(o) + short(e))
        print('contract violated' if hit else 'not reproduced')
        return 1 if hit else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def go(prop, files, units, tier, work, verbose, only):
    ex = Extract(work)
    results = []
    if any(f.lang == 'c3' for f in files if any(u.file is f for u in units)):
        try:
            ex.build_c3c()
        except CheckError as err:
            print('ERROR', err)
            return 2
    if os.environ.get('VP_NATIVE'):
        # development aid: every unit's native build, searched for the given number of seconds
        def nat(u):
            try:
                ins, o, e, runs = native_search(ex, u, int(os.environ['VP_NATIVE']))
                return '%s %s accepted=%d %s' % ('BAD' if ins is not None or not runs else 'ok ', u.name, runs, (short(o) + short(e))[-1500:] if ins is not None or not runs else '')
            except CheckError as err:
                return 'BAD %s native: %s' % (u.name, str(err)[:1500])
        with cf.ThreadPoolExecutor(3) as tp:
            for x in tp.map(nat, units):
                if verbose or x.startswith('BAD'):
                    print(x, flush=True)
        return 0
    order = sorted(units, key=lambda u: -float(u.get('cost', '1')))
    with cf.ThreadPoolExecutor(CPUS) as tp:
        futs = {tp.submit(run_unit, ex, u, tier): u for u in order}
        for f in cf.as_completed(futs):
            r = f.result()
            results.append(r)
            if r.unit.get('known') and r.status == 'refuted':
                r.status = 'known'
            if verbose or r.status not in ('discharged', 'known'):
                print('%-12s %-34s %-8s obligations=%d/%d %.1fs %s %s' % (r.status, r.unit.name, r.unit.kind, len(r.ok), r.total, r.secs, r.solver, r.detail[:1500]), flush=True)
                if r.status == 'refuted':
                    for x in r.hard[:6]:
                        print('    failed', x['property'], '|', x['description'], '|', x.get('sourceLocation', {}).get('file'), x.get('sourceLocation', {}).get('line'), flush=True)
    rc = 0
    violations, errors, degraded, bounded_ok = [], [], [], []
    results.sort(key=lambda r: r.unit.name)
    refuted = sorted([r for r in results if r.status == 'refuted'], key=lambda r: r.secs)
    best = None
    for r in refuted[:8]:
        path, concrete = report(ex, prop, r, tier)
        violations.append(r)
        if best is None or concrete:
            best = (path, concrete)
        if concrete:
            break
    if best:
        print('VIOLATION property=%s replay=%s%s' % (prop, best[0], '' if best[1] else ' no-failing-input-found'), flush=True)
    undecided = [r for r in results if r.status in ('timeout', 'unwound', 'vacuous', 'error') and not r.unit.get('known')] if not (best and best[1]) else []
    # undecided: never a verdict by itself.  The unit's contract is then checked natively for a bounded time on random
    # inputs; the evidence reports the obligation as not discharged.
    deadline = time.time() + max(left() - 40, 20)
    secs = min(20, max(4, (deadline - time.time()) * 2 / max(len(undecided), 1) - 2))

    def stand_in(r):
        if time.time() + secs > deadline:
            return None, 0, 'none: out of time'
        try:
            ins, o, e, runs = native_search(ex, r.unit, secs)
            return ins, runs, None
        except CheckError as err:
            return None, 0, 'none: ' + str(err)[:300]
    with cf.ThreadPoolExecutor(2) as tp:
        found = list(tp.map(stand_in, undecided))
    for r, (ins, runs, bad) in zip(undecided, found):
        note = {'unit': r.unit.name, 'why': r.status + ': ' + r.detail[:300], 'stand_in': bad or 'native search, %d accepted runs' % runs}
        if bad:
            errors.append(r)
        if ins is not None:
            os.makedirs(VERIF + '/replays', exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, r.unit.name))
            hit, nrc, o2, e2 = native_replay(ex, r.unit, ins)
            if hit:
                json.dump({'property': prop, 'unit': r.unit.name, 'harness': os.path.relpath(r.unit.file.path, VERIF), 'entry': r.unit.entry, 'defs': r.unit.defs,
                           'why': note['why'], 'inputs': ['%x' % i for i in ins], 'native_output': short(o2) + short(e2), 'native_exit': nrc, 'concrete': True,
                           'replay_cmd': 'bin/replay ' + os.path.relpath(path, VERIF)}, open(path, 'w'), indent=1)
                violations.append(r)
                print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
                continue
        degraded.append(note)
    # known findings: every listed one is replayed against the real code
    known = []
    kf = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(kf) and not only:
        for k in json.load(open(kf))['findings']:
            shown = [r.status for r in results if r.unit.get('known') == k.get('id', '-')]
            if k['property'] == prop and (not shown or 'known' in shown):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                known.append(k['what'])
    proofs = [r for r in results if r.unit.kind == 'proof' and not r.unit.get('known')]
    bnd = [r for r in results if r.unit.kind != 'proof' and not r.unit.get('known')]
    ob = sum(max(r.total, 1) for r in proofs)
    di = sum(len(r.ok) for r in proofs if r.status == 'discharged')
    fns = sorted({f for r in results for f in r.unit.fns})
    ir_fns = {}
    for f in files:
        if f.lang == 'c3' and ('gen:' + f.path) in ex.memo:
            try:
                ir_fns[f.name] = len(ex.memo['gen:' + f.path].result()[1]['functions'])
            except Exception:
                pass
    man = {}
    try:
        for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']:
            if c['property'] == prop:
                man = c
    except Exception:
        pass
    trust = ['CBMC 6.11.0 (symbolic execution, bit-blasting) and the SAT/SMT back end named per unit',
             'goto-cc C front end in place of clang-18 for the compiler sources (LP64, same headers)']
    if ir_fns:
        trust += ['c3c front end + LLVM IR emission at -O0 built from this tree (code under proof is the IR it emits)', 'vp/ir2c.py IR-to-C translation (drops listed in DESIGN.md)']
    assume = []
    for f in files:
        for m in re.finditer(r'^//@(trust|assume)\s+(.*)$', f.text, re.M):
            (trust if m.group(1) == 'trust' else assume).append(m.group(2))
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': man.get('level', 'proof'),
        'coverage': {
            'obligations': ob, 'discharged': di,
            'checker_cmd': 'cbmc UNIT.gb --function vp_<unit> --unwinding-assertions --slice-formula --sat-solver cadical (per unit below)',
            'trusted_base': trust,
            'functions_under_contract': fns,
            'extracted_ir_functions': ir_fns,
            'proof_units': [{'unit': r.unit.name, 'status': r.status, 'obligations': r.total, 'discharged': len(r.ok) if r.status == 'discharged' else 0,
                             'solver': r.solver, 'seconds': round(r.secs, 2), 'functions': r.unit.fns} for r in proofs],
            'bounded_units': [{'unit': r.unit.name, 'status': r.status, 'bound': r.unit.bound, 'checked': r.total, 'ok': len(r.ok) if r.status == 'discharged' else 0,
                               'solver': r.solver, 'seconds': round(r.secs, 2), 'functions': r.unit.fns} for r in bnd],
            'bounded_checked': sum(r.total for r in bnd), 'bounded_ok': sum(len(r.ok) for r in bnd if r.status == 'discharged'),
            'undischarged': degraded, 'known_findings': known,
            'solver_seconds': round(sum(r.secs for r in results), 1),
            'samples': [n for r in results for n in r.names if 'VP:' in n][:40],
        },
        'assumptions': assume,
        'wall_s': round(time.time() - T0, 1), 'violations': len(violations),
    }
    if ev['level'] == 'other':
        ev['coverage']['explanation'] = ('contract obligations checked by CBMC on code extracted on this run: %d of %d unbounded obligations discharged (%d units); '
            '%d bounded units (bound stated per unit, all inputs within it), %d ok. %s' % (di, ob, len(proofs), len(bnd), sum(r.status == 'discharged' for r in bnd), man.get('level_note', '')))
    if ev['level'] == 'translation_validation':
        progs = sum(len(re.findall(r'@export', open(os.path.join(os.path.dirname(f.path), f.o['probe'])).read())) for f in files if f.lang == 'c3')
        ev['coverage'].update({'programs': progs, 'disagreements_checked': sum(r.total for r in results)})
    if not only:
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: proof units %d/%d, obligations %d/%d; bounded units %d/%d; undecided %d; %.1fs' % (
        prop, sum(r.status == 'discharged' for r in proofs), len(proofs), di, ob, sum(r.status == 'discharged' for r in bnd), len(bnd), len(degraded), time.time() - T0))
    if violations:
        return 1
    if errors and len(errors) == len(results):
        print('ERROR: no unit could be decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
