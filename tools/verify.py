"""Run the deductive verifier over a contract unit.

extract (clang AST of /repo's current source) -> translate (WhyML) -> Why3 VCs,
split -> SMT portfolio (z3 5.3, z3 4.8, cvc5).  Every goal must be answered
'unsat' by some solver.
"""
import os, sys, re, json, subprocess, time, tempfile, shutil, hashlib, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'contracts'))
import cxx2why
from cxx2why import Unit, Contract, Loop, Tr, Unsupported, header, atom

REPO = os.environ.get('ARABICA_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
DRV = '/usr/share/why3/drivers/'
CONF = os.path.join(HERE, 'why3.conf')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
CXXFLAGS = ['-std=c++14', '-w', '-fdelayed-template-parsing', '-I' + VERIF + '/config', '-I' + REPO + '/include',
            '-resource-dir', LLVM + '/lib/clang/18', '-ferror-limit=3']

def build_dir():
    d = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    return d

def exporter():
    src = os.path.join(HERE, 'exporter', 'exporter.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(build_dir(), 'cxxport-' + h)
    if os.path.exists(out): return out
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['clang++', '-std=c++17', '-O0', '-fno-rtti', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
                    '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
                    LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib'],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    os.rename(tmp, out)
    return out

class ExtractError(Exception): pass

def extract(tu, roots, extra=()):
    exe = exporter()
    p = subprocess.run([exe, '--roots', ','.join(roots), '--prefix', REPO + '/', tu, '--'] + CXXFLAGS + list(extra),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if p.returncode != 0 or not p.stdout:
        raise ExtractError(p.stderr.decode(errors='replace')[-2000:])
    return json.loads(p.stdout)

SOLVERS = [
    # name, smt flavour, argv(timeout)
    ('z3-5.3', 'pruned', lambda t: ['z3-new', '-T:%d' % t, '-memory:3000']),
    ('z3-4.8.12', 'pruned', lambda t: ['z3', '-T:%d' % t, '-memory:3000']),
    ('cvc5-1.1.2', 'pruned', lambda t: ['cvc5', '--quiet', '--tlimit=%d' % (t * 1000)]),
    ('z3-5.3', 'full', lambda t: ['z3-new', '-T:%d' % t, '-memory:3000']),
    ('cvc5-1.1.2', 'full', lambda t: ['cvc5', '--quiet', '--tlimit=%d' % (t * 1000)]),
]
DRIVER = os.path.join(HERE, 'arabica.drv')
def prune(txt):
    """drop the assertions quantified over encoded types (dropping hypotheses is sound)"""
    parts = re.split(r'(?m)^(?=;; "|\(declare-)', txt)
    out = [p for p in parts if not re.search(r'\(assert\s*\(forall \(\(a ty\)', p) or ';; Goal' in p]
    return ''.join(out)

def solve1(argv, f, t):
    t0 = time.time()
    try:
        p = subprocess.run(argv + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t + 5)
        out = p.stdout.decode(errors='replace').strip()
    except subprocess.TimeoutExpired:
        out = 'timeout'
    first = out.split('\n')[0].strip() if out else ''
    if first not in ('unsat', 'sat', 'unknown'): first = 'timeout' if 'timeout' in out or 'interrupted' in out else 'error:' + first[:60]
    return first, time.time() - t0

class Goal:
    def __init__(self, fn, name, expl, files, line): 
        self.fn = fn; self.name = name; self.expl = expl; self.files = files; self.line = line
        self.status = None; self.solver = None; self.time = 0.0; self.tries = []

HINTFILE = os.path.join(VERIF, 'contracts', 'hints.json')
try: HINTS = json.load(open(HINTFILE))
except Exception: HINTS = {}
def goal_hash(g):
    """names the obligation by its text (comments carry only paths and lines)"""
    if not hasattr(g, 'hash'):
        t = open(g.files['pruned'], errors='replace').read()
        g.hash = hashlib.sha1(re.sub(r'(?m)^;.*\n?', '', t).encode()).hexdigest()[:14]
    return g.hash

MAXFAIL = 5
RESCUE_T = int(os.environ.get('RESCUE', '120'))
RESCUE = [('z3-5.3 seed %d' % k, 'pruned', lambda t, k=k: ['z3-new', '-T:%d' % t, '-memory:3000', 'smt.random_seed=%d' % k]) for k in (1, 2, 3)]
HURRY = lambda: False
def solve(g, budget, nfail=None, rescue=False, deadline=None):
    """portfolio: short rounds first. A hint only says which solver to ask first, and how long it may take"""
    h = HINTS.get(goal_hash(g))
    if h and not rescue:
        n, fl, argv = (SOLVERS + RESCUE)[h[0]]
        if fl in g.files:
            t = max(20, 6 * h[1])
            r, dt = solve1(argv(t), g.files[fl], t)
            g.time += dt; g.tries.append((n, t, r))
            if r == 'unsat': g.status = 'valid'; g.solver = n; g.idx = h[0]; g.last = dt; return g
    for rnd, t in enumerate(budget):
        if nfail is not None and nfail.get(g.fn, 0) >= MAXFAIL and rnd > 0: break
        if rnd > 0 and HURRY(): break
        for k, (n, fl, argv) in enumerate(SOLVERS + RESCUE if rescue else SOLVERS):
            if fl not in g.files: continue
            if fl == 'full' and rnd == 0 and not rescue: continue
            if rescue and (time.time() > deadline or HURRY()): break
            r, dt = solve1(argv(t), g.files[fl], t)
            g.time += dt; g.tries.append((n, t, r))
            if r == 'unsat':
                g.status = 'valid'; g.solver = n; g.idx = k; g.last = dt; return g
    g.status = 'failed'
    if nfail is not None: nfail[g.fn] = nfail.get(g.fn, 0) + 1
    return g
def solve_all(ex, goals, budget):
    nfail = {}
    # the ones known to be slow first
    goals = sorted(goals, key=lambda g: -(HINTS.get(goal_hash(g)) or [0, 0])[1])
    list(ex.map(lambda g: solve(g, budget, nfail), goals))
    bad = [g for g in goals if g.status != 'valid']
    if bad and len(bad) <= 16 and RESCUE_T: dl = time.time() + RESCUE_T; list(ex.map(lambda g: solve(g, (25,), None, True, dl), bad))
    if os.environ.get('HINTS'):
        for g in goals:
            if g.status == 'valid' and (g.idx or g.last > 0.5): HINTS[g.hash] = [g.idx, int(g.last + 1)]
        json.dump(HINTS, open(HINTFILE, 'w'), indent=0, sort_keys=True)

WHY3 = ['why3', '-C', CONF]

def why3_goals(mlw, outdir, fine=False):
    """generate split goals as SMT files for each flavour; returns list of (goalname, expl, {flavour: file}, line)"""
    od = os.path.join(outdir, 'full'); os.makedirs(od, exist_ok=True)
    SPLIT = ['-a', 'split_vc'] + (['-a', 'split_goal_right'] if fine else [])
    pd = os.path.join(outdir, 'pruned'); os.makedirs(pd, exist_ok=True)
    p = subprocess.run(WHY3 + ['prove', '-L', HERE, '-D', DRIVER, *SPLIT, '-o', od, mlw],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if p.returncode != 0 and b'transformation' in p.stdout:
        # work around an encoding failure when the goal mentions no sequence: add a hypothesis that is an axiom
        shutil.rmtree(od); os.makedirs(od)
        txt = open(mlw).read()
        txt = re.sub(r'(?m)^((?:let impl_|let smoke_|let smokeend_).*)$', r'\1  requires { length (empty : seq int) = 0 }', txt)
        open(mlw, 'w').write(txt)
        p = subprocess.run(WHY3 + ['prove', '-L', HERE, '-D', DRIVER, *SPLIT, '-o', od, mlw],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if p.returncode != 0:
        p.stdout = re.sub(rb'(?m)^Warning, .*\n|^why3: Warning.*\n', b'', p.stdout)
        raise RuntimeError('why3: ' + p.stdout.decode(errors='replace')[-3000:])
    res = []
    def key(f):
        m = re.search(r'(\d*)\.smt2$', f); return (f[:m.start()], int(m.group(1) or 0))
    for f in sorted(os.listdir(od), key=key):
        path = os.path.join(od, f)
        txt = open(path, errors='replace').read()
        g = re.findall(r';; Goal "?([^"\n]*)"?', txt)[-1].strip()
        lm = re.findall(r';; File "[^"]*", line (\d+)', txt)
        pr = prune(txt)
        files = {'full': path}
        pp = os.path.join(pd, f)
        open(pp, 'w').write(pr); files['pruned'] = pp
        if pr == txt: files.pop('full')
        res.append((g, '', files, int(lm[-1]) if lm else 0))
    return res

def expl_list(mlw, fine=False):
    """explanations of the split goals, in order, from why3's own listing"""
    p = subprocess.run(WHY3 + ['prove', '-L', HERE, '-P', 'none', '-a', 'split_vc'] + (['-a', 'split_goal_right'] if fine else []) + [mlw], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    out = p.stdout.decode(errors='replace')
    res = []
    for m in re.finditer(r'File "[^"]*", line (\d+), characters (\d+)-(\d+):\s*\n(?:Sub-goal (.*?) of goal|Goal) (\S+?)\.?\n', out):
        res.append((m.group(5), m.group(4) or 'the goal', int(m.group(1))))
    return res

def explain(ur, r, wd):
    """the failed obligations of one function, named as the verifier names them"""
    n = r['name']; mlw = os.path.join(wd, n + '.mlw')
    try:
        lines = open(mlw).read().split('\n')
        ex = [e for e in expl_list(mlw, n in ur.trs and ur.trs[n][2].fine)]
    except Exception: ex = []; lines = []
    # same order as the generated goals
    mine = [e for e in ex if n == 'Lemmas' or 'smoke_' not in e[0]]
    out = []
    for i, g in enumerate(r['goals']):
        if g.status == 'valid': continue
        e = mine[i] if len(mine) == len(r['goals']) else None
        ln = e[2] if e else g.line
        src = lines[ln - 1].strip()[:200] if 0 < ln <= len(lines) else ''
        out.append('  %s: %s -- %s [%s]' % (g.name, e[1] if e else 'obligation', src, ' '.join('%s/%ds:%s' % t for t in g.tries)))
    return '\n'.join(out)

class UnitRun:
    def __init__(self, mod, workdir):
        self.mod = mod; self.wd = workdir
        self.results = {}   # contract name -> dict
        self.trusted = []
    def load(self):
        m = self.mod
        self.unit = m.make_unit()
        u = self.unit
        for tu, roots in m.TUS:
            u.load(extract(os.path.join(VERIF, 'contracts', tu), roots))
        for c in u.contracts:
            u.contracts_by_q.setdefault(c.q, []).append(c)
    def find(self, c):
        fs = [f for f in self.unit.byq.get(c.q, []) if c.matches(f)]
        return fs
    def translate_all(self, names=None):
        u = self.unit
        self.trs = {}
        todo = [c for c in u.contracts if c.prove]
        self.drop = set() if names is None else {c.name for c in todo if c.name not in names}
        for c in todo:
            fs = self.find(c)
            r = {'q': c.q, 'name': c.name, 'status': None}
            if c.name not in self.drop: self.results[c.name] = r
            if not fs:
                r['status'] = 'missing'; r['reason'] = 'no definition of %s in the extracted code' % c.q; continue
            f = fs[0]
            r['file'] = f['file'].replace(REPO + '/', ''); r['line'] = f['line']; r['endline'] = f['endline']
            tr = Tr(u, f, c)
            try:
                body = tr.translate()
                self.trs[c.name] = (tr, body, c)
                r['inlined'] = tr.inlined
            except Unsupported as e:
                r['status'] = 'untranslatable'; r['reason'] = str(e)
            except (KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
                if os.environ.get('VERIF_DEBUG'): raise
                r['status'] = 'untranslatable'; r['reason'] = 'translator: %r' % (e,)
        self.effects()
    def effects(self):
        """what each function may write: everything its translated body writes, directly or through
        the functions it calls, and everything its contract relates to an old value"""
        u = self.unit
        heap = set(u.heap) | {k for k, v in u.fieldtypes.items() if v is not None}
        W = {}; uses = {}
        for c in u.contracts:
            spec = ' '.join(list(c.ensures) + [p for _, p in c.raises])
            w = set(c.writes) | {x for x in re.findall(r'\bold\s+!?\(?!?(\w+)', spec)}
            cand = set(heap)
            if c.name in self.trs:
                tr, body, _ = self.trs[c.name]
                cand |= set(re.findall(r'\((\w+) : ref ', tr.sigtext))
                w |= set(re.findall(r'(\w+)\s*:=', body))
                uses[c.name] = set(tr.used_contracts) | set(c.uses)
                for x in set(c.writes) - cand: raise Unsupported('writes ' + x)
            else:
                try: cand |= set(re.findall(r'\((\w+) : ref ', self.sig_of(c)[0]))
                except Unsupported: pass
                uses[c.name] = set()
            W.setdefault(c.name, set()).update(w & cand)
        byname = {c.name: c for c in u.contracts}
        ch = True
        while ch:
            ch = False
            for n, us in uses.items():
                for m in us:
                    add = (W.get(m, set()) & heap) - W[n]
                    if add: W[n] |= add; ch = True
        for c in u.contracts: c.allwrites = W[c.name]
    def types_text(self):
        u = self.unit; out = []
        done = set()
        def emit(t):
            if t in done: return
            done.add(t)
            r = u.records.get(t)
            if r is None: return
            for f in r['fields']:
                for inner in [cxx2why.noref(f['t'])] + [cxx2why.strip_cv(x) for x in cxx2why.targs(f['t'])]:
                    if cxx2why.head(inner) in u.value_classes: emit(inner)
            out.append(u.recdecl(t))
        seen = set()
        for t in sorted(u.records):
            h = cxx2why.head(t)
            if h in u.value_classes and h not in seen:
                if u.value_pick.get(h) and not re.search(u.value_pick[h], t): continue
                seen.add(h)
                emit(t)
        return '\n  '.join(out)
    def heap_text(self):
        u = self.unit
        fm = dict(u.heap)
        for k, v in u.fieldtypes.items():
            if k not in fm and v is not None: fm[k] = v
        return '\n  '.join('val %s : ref (loc -> %s)' % (k, v) for k, v in sorted(fm.items()))
    def module(self, name, body):
        u = self.unit
        core = '\n  %s\n  %s\n%s\n%s\nend\n' % (self.types_text() + getattr(u, 'types', ''), self.heap_text(), u.spec, body)
        uses = '  use prelude.Prelude\n'
        for m, rx in (('Maps', r'\b(mp|mmp|st|miter|mmiter|siter)(_\w+)?\b'), ('CDiv', r'\bc_(div|mod)\b'), ('Bits', r'\b(div|mod)\b')):
            if re.search(rx, core): uses += '  use prelude.%s\n' % m
        return 'module %s\n%s%s' % (name, uses + getattr(self.mod, 'USES', ''), core)
    def callee_text(self, names):
        u = self.unit; out = ''
        for c in u.contracts:
            if c.name in names:
                sig, ret, rng = self.sig_of(c)
                out += header(c, 'val', sig, ret, c.name, rng) + '\n'
        return out
    def sig_of(self, c):
        u = self.unit
        if c.ret is not None and c.sigtext: return c.sigtext, c.ret, []
        if c.name in self.trs: t = self.trs[c.name][0]; return t.sigtext, t.rettext, t.ranges
        fs = self.find(c)
        if fs:
            fn = fs[0]
        else:
            fn = u.callsig.get(c.name)
        if fn is None:
            raise Unsupported('signature of callee %s (give sigtext/ret in the contract)' % c.q)
        names = list(c.params); sig = []
        if 'cls' in fn and not fn.get('static'):
            n = names.pop(0)
            w = 'loc'
            if cxx2why.head(fn['cls']) in u.value_classes: w = u.wty(fn['cls']) if fn.get('const') else 'ref ' + u.wty(fn['cls'])
            sig.append('(%s : %s)' % (n, w))
        for pt, n in zip(fn['params'], names):
            w = u.wty(pt)
            if cxx2why.is_ref(pt) and not cxx2why.is_const_ref(pt) and not pt.strip().endswith('&&') and (w != 'loc' or cxx2why.noref(pt).endswith('*')): w = 'ref ' + w
            sig.append('(%s : %s)' % (n, w))
        return ' '.join(sig) or '(_u : unit)', u.wty(fn['ret']) if not fn.get('ctor') else 'unit', cxx2why.ranges(fn, names)
    def gen(self):
        """write one mlw per function; returns list of (contract name, path)"""
        out = []
        for n, (tr, body, c) in self.trs.items():
            if n in self.drop: continue
            try:
                names = set(tr.used_contracts) | set(c.uses)
                callee = self.callee_text(names)
                sig, ret = tr.sigtext, tr.rettext
                fn = 'impl_' + n
                w = header(c, 'let' , sig, ret, fn, tr.ranges)
                # 'writes' is inferred for let; frame conditions are in ensures
                txt = self.module('F_' + n, ''.join(d for f, d in self.unit.tables.items() if f in body) + c.decls + '\n' + callee + '\n' + w + '=\n' + body + '\n' +
                                  self.smoke(c, sig, n, tr.ranges, ret, body))
            except Unsupported as e:
                self.results[n]['status'] = 'untranslatable'; self.results[n]['reason'] = str(e); continue
            p = os.path.join(self.wd, n + '.mlw')
            open(p, 'w').write(txt)
            out.append((n, p))
        return out
    def smoke(self, c, sig, n, rng=(), ret='unit', body='()'):
        end = 'predicate end_reached\nlet smokeend_%s %s : %s\n' % (n, sig, ret)
        for r in list(c.requires) + list(rng): end += '  requires { %s }\n' % r
        end += '  ensures { end_reached }\n' + ''.join('  raises { %s -> end_reached }\n' % x for x, _ in c.raises)
        if c.variant: end += '  variant { %s }\n' % c.variant
        if c.diverges: end += '  diverges\n'
        return self.smoke0(c, sig, n, rng) + '\n' + end + '=\n' + body + '\n'
    def smoke0(self, c, sig, n, rng=()):
        s = 'let smoke_%s %s : unit\n' % (n, sig)
        for r in list(c.requires) + list(rng): s += '  requires { %s }\n' % r
        return s + '= assert { false }\n'
    def lemmas(self):
        p = os.path.join(self.wd, 'Lemmas.mlw')
        open(p, 'w').write(self.module('Lemmas', ''))
        return p

def classify(goalname):
    g = goalname
    return g

def run_unit(mod, workdir, names=None, budget=(5, 20), verbose=False):
    os.makedirs(workdir, exist_ok=True)
    ur = UnitRun(mod, workdir)
    t0 = time.time()
    ur.load()
    t1 = time.time()
    ur.translate_all(names)
    files = ur.gen()
    has_lemmas = re.search(r'\b(lemma|let rec|let function|let ghost|let lemma)\b', ur.unit.spec)
    goals = []
    ex = ThreadPoolExecutor(JOBS)
    def gen1(item):
        n, p = item
        try:
            od = os.path.join(workdir, 'g_' + n)
            shutil.rmtree(od, ignore_errors=True)
            return n, why3_goals(p, od, n in ur.trs and ur.trs[n][2].fine), None
        except Exception as e:
            return n, [], str(e)
    items = list(files)
    if has_lemmas and (names is None or 'Lemmas' in names): items.append(('Lemmas', ur.lemmas()))
    smoke = []; ends = {}
    for n, gs, err in ex.map(gen1, items):
        if n == 'Lemmas': ur.results.setdefault('Lemmas', {'q': '(lemmas)', 'name': 'Lemmas', 'status': None, 'inlined': []})
        r = ur.results[n]
        if err:
            r['status'] = 'untranslatable'; r['reason'] = err
            continue
        r['goals'] = []
        for (g, expl, fls, line) in gs:
            G = Goal(n, g, expl, fls, line)
            if g.startswith('smoke_'): smoke.append(G); continue
            if g.startswith('smokeend_'):
                if 'end_reached' in open(fls['pruned'], errors='replace').read().split(';; Goal')[-1]: ends.setdefault(n, []).append(G)
                continue
            if n != 'Lemmas' and not g.startswith('impl_' + n): continue
            r['goals'].append(G); goals.append(G)
        if n != 'Lemmas' and not r['goals']:
            r['status'] = 'untranslatable'; r['reason'] = 'no obligations generated'
    solve_all(ex, goals, budget)
    def sm(g):
        r, dt = solve1(SOLVERS[0][2](1), g.files['pruned'], 1)
        g.status = r
    list(ex.map(sm, smoke))
    for g in smoke:
        if g.status == 'unsat':
            r = ur.results[g.fn]; r['status'] = 'vacuous'; r['reason'] = 'precondition is contradictory'
    def se(item):
        n, gs = item
        for g in gs:
            r, dt = solve1(SOLVERS[0][2](1), g.files['pruned'], 1)
            if r != 'unsat': return n, False
        return n, bool(gs)
    for n, dead in ex.map(se, list(ends.items())):
        if dead: r = ur.results[n]; r['status'] = 'vacuous'; r['reason'] = 'no path of the function is reachable under its contracts'
    for n, r in ur.results.items():
        if r['status'] is None:
            bad = [g for g in r['goals'] if g.status != 'valid']
            r['status'] = 'proved' if not bad else 'failed'
    ur.t_extract = t1 - t0; ur.t_total = time.time() - t0
    ur.smoke = smoke
    return ur

def describe_goal(g, wd):
    """text of the failed obligation: explanation comment and the WhyML line"""
    p = os.path.join(wd, g.fn + '.mlw')
    line = ''
    try:
        line = open(p).read().split('\n')[g.line - 1].strip()
    except Exception: pass
    return '%s (WhyML line %d: %s) tried %s' % (g.name, g.line, line[:160], ' '.join('%s/%ds:%s' % t for t in g.tries))

def load_mod(name):
    p = os.path.join(VERIF, 'contracts', name + '.py')
    sp = importlib.util.spec_from_file_location(name, p)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m

if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        exporter(); sys.exit(0)
    mod = load_mod(sys.argv[1])
    names = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[2] else None
    wd = os.environ.get('WD', '/tmp/w/' + sys.argv[1])
    ur = run_unit(mod, wd, names, budget=tuple(int(x) for x in os.environ.get('BUDGET', '2,12').split(',')))
    tot = ok = 0
    for n, r in ur.results.items():
        gs = r.get('goals', [])
        tot += len(gs); ok += sum(g.status == 'valid' for g in gs)
        print('%-28s %-14s %d/%d %s %s' % (n, r['status'], sum(g.status == 'valid' for g in gs), len(gs), r.get('reason', '')[:1500], r.get('inlined', '') if os.environ.get('VERIF_DEBUG') else ''))
        if any(g.status != 'valid' for g in gs): print(explain(ur, r, wd))
        for g in gs:
            if g.status == 'valid' and g.time > 3: print('      slow', g.name, os.path.basename(g.files['pruned'])[-12:], ' '.join('%s/%ds:%s' % t for t in g.tries))
            if g.status != 'valid': print('     ', g.files['pruned'])
    print('goals %d/%d extract %.1fs total %.1fs' % (ok, tot, ur.t_extract, ur.t_total))
