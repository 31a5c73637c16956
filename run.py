#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

1. extract the functions under contract from /repo's current source, generate
   every obligation and discharge it with the SMT portfolio (tools/verify.py);
2. build the property's harness against /repo's current source and run it: it
   supplies the failing input of a violation, and is the stated bounded stand-in
   for the functions that are not under contract.
"""
import sys, os, time, json, subprocess, re, shutil, tempfile, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
sys.dont_write_bytecode = True
import verify
from verify import REPO
sys.path.insert(0, VERIF)
from props import PROPS

def compile_harness(p, wd):
    src = os.path.join(VERIF, 'harness', p['harness'])
    exe = os.path.join(wd, 'harness')
    cxx = p.get('cxx', 'g++')
    from concurrent.futures import ThreadPoolExecutor
    base = [cxx, '-std=c++14', '-w'] + p.get('cflags', ['-O1', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])
    base += ['-I' + VERIF + '/config', '-I' + REPO + '/include', '-I' + VERIF + '/harness'] + p.get('incs', [])
    out = []; rc = 0
    def one(k):
        i, f = k
        r = subprocess.run(base + ['-c', f, '-o', os.path.join(wd, 'h%d.o' % i)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        return r.returncode, r.stdout.decode(errors='replace')
    files = [src] + [os.path.join(REPO, s) for s in p.get('srcs', [])]
    with ThreadPoolExecutor(4) as ex:
        for c, o in ex.map(one, enumerate(files)):
            out.append(o); rc = rc or c
    if rc == 0:
        r = subprocess.run(base + [os.path.join(wd, 'h%d.o' % i) for i in range(len(files))] + ['-o', exe] + p.get('libs', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        rc = r.returncode; out.append(r.stdout.decode(errors='replace'))
    return exe, rc, ''.join(out), ' '.join(base)

def run_harness(p, exe, tier, seed, wd):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='print_stacktrace=0')
    t0 = time.time()
    try:
        r = subprocess.run([exe, tier, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800 if tier == 'thorough' else 420, cwd=wd, env=env)
        out = r.stdout.decode(errors='replace'); err = r.stderr.decode(errors='replace'); rc = r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace') + '\nFAIL|hang|harness did not finish\n'; err = ''; rc = -1
    fails = [tuple(l.split('|', 2)[1:]) for l in out.split('\n') if l.startswith('FAIL|') and l.count('|') >= 2]
    done = re.search(r'^DONE\|(\d+)', out, re.M)
    counts = {a: int(b) for a, b in re.findall(r'^COUNT\|([^|\n]*)\|(\d+)', out, re.M)}
    if rc != 0 and not fails: fails = [('abnormal-exit', 'harness exited %s: %s' % (rc, err[-600:]))]
    return dict(fails=fails, cases=int(done.group(1)) if done else 0, counts=counts, err=err, wall=time.time() - t0, rc=rc)

def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = PROPS[pid]
    t0 = time.time()
    base = os.path.join(verify.build_dir(), 'run'); os.makedirs(base, exist_ok=True)
    wd = tempfile.mkdtemp(prefix=pid + '-', dir=base)
    rp = os.path.join(verify.build_dir(), 'replay'); os.makedirs(rp, exist_ok=True)
    try:
        rc = decide(pid, p, tier, seed, wd, rp, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)

def new_fails(pid, fails):
    kf = [k for (q, k, t) in known_findings() if q == pid]
    return [f for f in fails if f[0] not in kf]

def decide(pid, p, tier, seed, wd, rp, t0):
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(2)
    hfut = None
    def whole():
        exe, crc, cout, ccmd = compile_harness(p, wd)
        return exe, crc, cout, (run_harness(p, exe, tier, seed, wd) if crc == 0 else None)
    if p.get('harness'): hfut = pool.submit(whole)
    # once a failing input is known the solvers need not try hard
    verify.HURRY = lambda: bool(hfut and hfut.done() and not hfut.exception() and hfut.result()[3] and new_fails(pid, hfut.result()[3]['fails']))
    expected = json.load(open(os.path.join(VERIF, 'contracts', 'expected.json'))) if os.path.exists(os.path.join(VERIF, 'contracts', 'expected.json')) else {}
    funcs = []; failed = []; notdone = []; solver_s = 0.0; by = {}; nobl = ndis = 0; trusted = []; inl = set()
    budget = (2, 12) if tier == 'quick' else (5, 30, 90)
    for uname, names in p['units']:
        mod = verify.load_mod(uname)
        exp = expected.get(uname, {})
        try:
            ur = verify.run_unit(mod, os.path.join(wd, uname), names, budget=budget)
        except verify.ExtractError as e:
            notdone.append('%s: extraction failed: %s' % (uname, str(e)[-300:])); continue
        for c in ur.unit.contracts:
            if not c.prove and any(c.name in t[0].used_contracts for t in ur.trs.values()):
                trusted.append('%s (%s): %s' % (c.q, uname, '; '.join(c.ensures)[:200]))
        for n, r in ur.results.items():
            gs = r.get('goals', [])
            d = dict(function=r['q'], contract=uname + '.' + n, status=r['status'], obligations=len(gs),
                     discharged=sum(g.status == 'valid' for g in gs), at='%s:%s' % (r.get('file', ''), r.get('line', '')))
            if r.get('inlined'): d['inlined'] = r['inlined']; inl.update(r['inlined'])
            if r.get('reason'): d['reason'] = r['reason'][:300]
            funcs.append(d)
            for g in gs:
                solver_s += g.time
                nobl += 1
                if g.status == 'valid': ndis += 1; by[g.solver] = by.get(g.solver, 0) + 1
            was = exp.get(n)
            if r['status'] in ('missing', 'untranslatable', 'vacuous'):
                notdone.append('%s.%s: %s %s' % (uname, n, r['status'], r.get('reason', '')[:200]))
            elif r['status'] == 'failed':
                expl = verify.explain(ur, r, os.path.join(wd, uname))
                failed.append((uname, n, r, expl))
    h = None; hfails = []; hnote = None
    if hfut:
        exe, crc, cout, h = hfut.result()
        if crc != 0:
            hnote = 'harness did not build: ' + cout[-800:]
        else:
            hfails = h['fails']
    kf = [(k, t) for (q, k, t) in known_findings() if q == pid]
    kseen = []
    new = []
    for key, text in hfails:
        m = [t for k, t in kf if k == key]
        if m:
            if key not in kseen: kseen.append(key)
        else: new.append((key, text))
    for k, t in kf:
        if k in kseen or not h: print('KNOWN-FINDING: property=%s %s' % (pid, t))
    viol = 0; lines = []
    if new:
        f = os.path.join(rp, '%s-input.txt' % pid)
        with open(f, 'w') as o:
            o.write('property %s: %s\nfailing inputs found by running the real code (%s, compiled from %s):\n' % (pid, p['title'], p['harness'], REPO))
            for k, t in new: o.write('  [%s] %s\n' % (k, t))
            if h['err']: o.write('\nstderr:\n' + h['err'][-3000:] + '\n')
            o.write('\nto replay: VERIF_SEED=%d python3 /verif/run.py %s %s\n' % (seed, pid, tier))
            for u, n, r, ex in failed: o.write('\nfailed obligations of %s (%s.%s):\n%s\n' % (r['q'], u, n, ex))
        lines.append('VIOLATION property=%s replay=%s' % (pid, f)); viol = len(new)
        for k, t in new[:5]: print('  failing input: [%s] %s' % (k, t[:300]))
        for u, n, r, ex in failed: print('  failed obligation: %s (%s.%s)' % (r['q'], u, n))
    elif failed:
        f = os.path.join(rp, '%s-obligation.txt' % pid)
        with open(f, 'w') as o:
            o.write('property %s: %s\nobligations the verifier did not accept (no failing input found by the harness):\n' % (pid, p['title']))
            for u, n, r, ex in failed: o.write('\n%s (%s.%s) at %s:%s\n%s\n' % (r['q'], u, n, r.get('file'), r.get('line'), ex))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, f)); viol = len(failed)
        for u, n, r, ex in failed: print('  failed obligation: %s (%s.%s)\n%s' % (r['q'], u, n, ex[:600]))
    ev = dict(property=pid, tier=tier, seed=seed, level=p['level'], assumptions=list(p.get('assumptions', [])) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=viol)
    harness = None
    if p.get('harness'):
        harness = dict(source='harness/' + p['harness'], bound=p.get('bound', ''), cases=h['cases'] if h else 0, by_kind=h['counts'] if h else {}, wall_s=round(h['wall'], 2) if h else 0,
                       role='replay of failing inputs; bounded stand-in for: ' + p.get('stand_in', 'nothing'), note=hnote, known=kseen)
    if p['level'] == 'proof':
        ev['coverage'] = dict(obligations=nobl, discharged=ndis, checker_cmd='python3 /verif/run.py %s %s' % (pid, tier),
                              trusted_base=TRUSTED + trusted, functions_under_contract=funcs, inlined_functions=sorted(inl), discharged_by=by,
                              solver_seconds=round(solver_s, 1), not_decided_by_proof=notdone, bounded_stand_in=harness)
    else:
        ev['coverage'] = dict(explanation='bounded', bounded_stand_in=harness, functions_under_contract=funcs)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged over %d functions, %d not decided by proof, harness %s cases, %.1f s' % (
        pid, tier, ndis, nobl, len(funcs), len(notdone), h['cases'] if h else '-', time.time() - t0))
    for x in notdone: print('  bounded only: ' + x[:200])
    if hnote: print('  ' + hnote[:1500])
    if hnote and not lines:
        print('harness could not be built'); return 2
    for l in lines: print(l)
    return 1 if lines else 0

TRUSTED = ['Why3 1.6.0 VC generator', 'z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2 answers', 'clang 18 AST of the instantiated templates',
           'tools/cxx2why.py translation', 'tools/prelude.mlw contracts of std::string/vector/deque/map/set (sequence axioms proved of seq.Seq in tools/prelude_sound.mlw)']
COMMON_ASSUMPTIONS = ['library containers behave as their contracts in tools/prelude.mlw state; iterators are snapshots (mutation while iterating is not modelled)',
                      'allocation succeeds; container sizes fit their size_type']
if __name__ == '__main__': main()
