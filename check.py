#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's current tree
   check.py --replay F    re-run the failing input recorded in a replay file
   check.py ID -e ENTRY   only that contract entry (development)"""
import sys, os, json, hashlib, subprocess, time, re, glob, shutil, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VF_REPO', '/repo')
PY = shutil.which('python3-vt') or sys.executable
T0 = time.time(); DEADLINE = float(os.environ.get('VF_DEADLINE', '840'))
JOBS = int(os.environ.get('VF_JOBS', '8'))
INC = [f'-I{V}/contracts', f'-I{V}/stubs', f'-I{V}/stubs/gen', f'-I{REPO}/lib/tetgen', f'-I{REPO}/lib', f'-I{REPO}/src', f'-I{V}/contracts/shim']
PASSES = 'function(sroa<modify-cfg>,early-cse,simplifycfg,instsimplify,loop-simplify,adce)'

def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else '', 'timeout'

def setup():
    b = f'{V}/build'; os.makedirs(b, exist_ok=True)
    src = f'{V}/engine/export.cpp'
    if not os.path.exists(f'{b}/irdump') or os.path.getmtime(f'{b}/irdump') < os.path.getmtime(src):
        r = sh(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', f'{b}/irdump.{os.getpid()}', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        if r[0]: raise SystemExit('irdump: ' + r[2])
        os.rename(f'{b}/irdump.{os.getpid()}', f'{b}/irdump')

def directives(path):
    d = {}
    for l in open(path):
        m = re.match(r'//!\s+(\S+)\s+(\{.*\})', l)
        if m: d.setdefault(m.group(1), {}).update(json.loads(m.group(2)))
    return d

_files = {}; _flock = threading.Lock()
def tree_hash(extra):
    """hash of every file a contract or brille source could include, and of the command"""
    with _flock: 
      if not _files:
        for d in (f'{V}/contracts', f'{V}/stubs', f'{REPO}/src', f'{REPO}/lib'):
            for r, _, fs in sorted(os.walk(d)):
                for x in sorted(fs):
                    if not (d.endswith('contracts') and x.endswith('.cpp')):
                        with open(os.path.join(r, x), 'rb') as h: _files[os.path.join(r, x)] = hashlib.sha256(h.read()).hexdigest()
        _files[''] = hashlib.sha256(repr(sorted(_files.items())).encode()).hexdigest()
    with open(extra[0], 'rb') as h: own = hashlib.sha256(h.read()).hexdigest()
    return hashlib.sha256(repr((_files[''], own, extra)).encode()).hexdigest()[:24]

class Check:
    def __init__(self, pid, only=None):
        self.pid = pid; self.only = only; self.tier = os.environ.get('VERIF_TIER', 'quick'); self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.dir = f'{V}/build/{pid}'; os.makedirs(self.dir, exist_ok=True)
        self.files = sorted(glob.glob(f'{V}/contracts/{pid}_*.cpp'))
        self.lock = threading.Lock(); self.problems = []
    def compile_native(self, f):
        b = os.path.basename(f)[:-4]; cfg = directives(f).get('file', {})
        san = [] if cfg.get('nosan') else ['-fsanitize=address']
        exe = f'{self.dir}/{b}.exe'
        opt = cfg.get('opt', '-O1')
        srcs = [f, f'{V}/engine/runtime.cpp'] + [x.replace('$REPO', REPO) for x in cfg.get('sources', [])]
        flags = ['-std=c++17', opt, '-g1', '-w', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-ffunction-sections', *san, '-fno-omit-frame-pointer', *cfg.get('flags', []), *INC]
        def obj(x):
            # objects are named after the content of everything they could include
            # (tetgen's expansion arithmetic reads one unused element past its operands)
            fl = [a for a in flags if '/lib/tetgen/' not in x or not a.startswith('-fsanitize')]
            o = f'{V}/build/obj/{os.path.basename(x)}.{tree_hash([x] + fl)}.o'
            if os.path.exists(o): return o, (0, '', '')
            os.makedirs(f'{V}/build/obj', exist_ok=True); t = f'{o}.{os.getpid()}.{threading.get_ident()}'
            r = sh(['g++', *fl, '-c', x, '-o', t], timeout=600)
            if not r[0]: os.rename(t, o)
            return o, r
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(obj, srcs))
        for o, r in objs:
            if r[0]: return b, exe, r
        r = sh(['g++', *san, '-fopenmp', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', *[o for o, _ in objs], '-o', exe], timeout=600)
        return b, exe, r
    def compile_bc(self, f):
        b = os.path.basename(f)[:-4]; p = f'{self.dir}/{b}'; cfg = directives(f).get('file', {})
        r = sh(['clang++', '-std=c++17', '-O1', '-g1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-w', '-DNDEBUG', '-emit-llvm', '-c', '-DVF_SYM', *cfg.get('flags', []), *cfg.get('symflags', []), *INC, f, '-o', p + '.0.bc'], timeout=600)
        if r[0]: return b, None, r
        r = sh(['opt', '-passes=' + PASSES, p + '.0.bc', '-o', p + '.bc'], timeout=300)
        if r[0]: return b, None, r
        r = sh([f'{V}/build/irdump', p + '.bc'], timeout=300)
        if r[0]: return b, None, r
        open(p + '.json', 'w').write(r[1]); return b, p + '.json', r
    def prove(self, js, b, e, cfg):
        out = f'{self.dir}/{b}.{e}.out'
        if os.path.exists(out): os.remove(out)
        lim = min(cfg.get('time', 600) + 60, max(5, DEADLINE - (time.time() - T0)))
        c = dict(cfg); 
        for k in ('native', 'trials', 'bounded', 'ntime', 'what', 'tier', 'prio'): c.pop(k, None)
        r = sh([PY, f'{V}/engine/worker.py', js, e, json.dumps(c), out], timeout=lim)
        if os.path.exists(out): return json.load(open(out))
        return dict(entry=e, time=lim, solver=0, error='worker: ' + (r[2] or '')[-800:], obligations=[], functions=[], assumed={}, houdini=[], covers={}, paths=0)
    def search(self, exe, e, seed, trials, tlim, again=True):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0', OMP_NUM_THREADS='2')
        rc, out, err = sh([exe, '--search', e, str(seed), str(trials), str(tlim)], timeout=tlim + 230, env=env)
        r = self.parse(rc, out, err)
        if r['fail'] and again and (r['label'].startswith('memory error') or r['label'].startswith('killed') or r['label'] == 'did not terminate'):
            q = self.search(exe, e, seed, trials, tlim, False)   # tetgen crashes depend on addresses: only what happens twice counts
            if not q['fail'] and not q.get('broken'): q['note'] = 'not reproduced: ' + r['label'] + ' ' + r['err'][-400:]; return q
        return r
    def replay(self, exe, e, inputs):
        p = f'{self.dir}/{e}.in.{threading.get_ident()}'
        with open(p, 'w') as f:
            for k, v in inputs.items(): f.write(f'{k}={",".join(map(repr, v)) if isinstance(v, list) else repr(v)}\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:handle_abort=0:detect_stack_use_after_return=0', OMP_NUM_THREADS='2')
        rc, out, err = sh([exe, '--replay', e, p], timeout=150, env=env); os.remove(p)
        return self.parse(rc, out, err)
    def parse(self, rc, out, err):
        d = dict(fail=False, run=0, skipped=0, checks=0, distinct=0, label='', inputs={}, err=err[-3000:], rc=rc)
        if rc not in (0, 1): d['broken'] = True
        m = re.search(r'^(OK|FAIL) run=(\d+) skipped=(\d+) checks=(\d+) distinct=(\d+)', out, re.M)
        if m: d.update(fail=m.group(1) == 'FAIL', run=int(m.group(2)), skipped=int(m.group(3)), checks=int(m.group(4)), distinct=int(m.group(5)))
        else: d['broken'] = True
        m = re.search(r'^label=(.*)$', out, re.M); d['label'] = m.group(1) if m else ''
        if 'inputs:' in out:
            for l in out.split('inputs:\n', 1)[1].splitlines():
                k, _, v = l.rpartition('=')
                if k:
                    try: d['inputs'][k] = float(v) if any(c in v for c in '.enaif') else int(v)
                    except ValueError: pass
        return d
    def entry(self, f, b, exe, js, e, native_only, cfg):
        """returns a result record for one contract entry"""
        res = dict(entry=e, file=os.path.relpath(f, V), bounded=native_only, what=cfg.get('what', '')); thorough = self.tier == 'thorough'
        n = cfg.get('trials', 300); nt = cfg.get('ntime', 10)
        if thorough: n *= 20; nt *= 6
        rem = lambda: DEADLINE - (time.time() - T0)
        s = self.search(exe, e, self.seed, n, min(nt, max(1, rem() - 60))); res['native'] = s
        if s.get('broken') and not s['fail']: s = self.search(exe, e, self.seed, n, min(nt, max(1, rem() - 60))); res['native'] = s
        if s['fail']: res.update(violation=True, concrete=True, label=s['label'], inputs=s['inputs'], how='contract-driven run', err=s['err'][-1500:]); 
        if native_only: return res
        if res.get('violation') and not thorough and not os.environ.get('VF_ALWAYS'): return res
        if js is None: return res
        p = self.prove(js, b, e, cfg); res['proof'] = p
        bad = [o for o in p['obligations'] if o['status'] != 'proved']
        if not p['error'] and not bad and p['obligations']: return res
        if res.get('violation'): return res
        res['violation'] = True; res['concrete'] = False; res['label'] = bad[0]['label'] if bad else 'contract not established: ' + p['error'][:300]
        for o in bad:
            if o.get('model'):
                r = self.replay(exe, e, o['model'])
                if r['fail']: res.update(concrete=True, label=r['label'], inputs=r['inputs'], how='solver counterexample for obligation "' + o['label'] + '" replayed on the real code', err=r['err'][-1500:]); return res
        for k in range(1, 4):
            if rem() < 60: break
            s = self.search(exe, e, self.seed + 100 * k, 20 * n + 3000, min(40, rem() - 30))
            if s['fail']: res.update(concrete=True, label=s['label'], inputs=s['inputs'], how='search on the real code after a failed obligation', err=s['err'][-1500:]); return res
        return res
    def run(self):
        setup(); results = []; infra = []
        with ThreadPoolExecutor(JOBS) as ex:
            futs = {}; native = {}; bc = {}; pend = set()
            for f in self.files:
                futs[ex.submit(self.compile_native, f)] = ('n', f); futs[ex.submit(self.compile_bc, f)] = ('b', f)
            done = set(); entries = []
            for fu in as_completed(list(futs)):
                k, f = futs[fu]; b, path, r = fu.result()
                if r[0] and k == 'n' or path is None or r[0]: infra.append((f, k, r[2][-3000:])); continue
                (native if k == 'n' else bc)[f] = (b, path)
                if f in native and f in bc and f not in done:
                    done.add(f); d = directives(f); rc, out, err = sh([native[f][1], '--list'], timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
                    if rc: infra.append((f, 'list', err[-2000:])); continue
                    for l in out.split('\n'):
                        if not l.strip(): continue
                        e, nat = l.split(); cfg = dict(d.get('*', {})); cfg.update(d.get(e, {}))
                        if self.only and not re.fullmatch(self.only, e): continue
                        if cfg.get('tier') == 'thorough' and self.tier != 'thorough' and not self.only: continue
                        entries.append((cfg.get('prio', 0), f, native[f][0], native[f][1], bc[f][1], e, nat == '1', cfg))
            entries.sort(key=lambda x: -x[0])
            fs = [ex.submit(self.entry, *x[1:]) for x in entries]
            for fu in as_completed(fs): results.append(fu.result())
        return self.report(results, infra)
    def report(self, results, infra):
        pid = self.pid; ev = f'{V}/evidence'; os.makedirs(ev, exist_ok=True); viol = []; known = []
        kf = [l.strip() for l in open(f'{V}/known_findings.txt')] if os.path.exists(f'{V}/known_findings.txt') else []
        kf = [l[len('finding: '):].split(' ', 2) for l in kf if l.startswith(f'finding: property={pid} ')]
        for f in glob.glob(f'{ev}/replay_{pid}_*'): os.remove(f)
        for r in sorted(results, key=lambda r: r['entry']):
            if not r.get('violation'): continue
            hit = [k for k in kf if k[1] == f'entry={r["entry"]}' and k[2].split(' # ')[0] == f'label={r.get("label","")}']
            if hit: known.append((r, hit[0])); continue
            path = f'{ev}/replay_{pid}_{r["entry"]}.json'
            json.dump(dict(property=pid, contract=r['file'], entry=r['entry'], obligation=r['label'], concrete=r['concrete'], found_by=r.get('how', ''), inputs=r.get('inputs'), output=r.get('err', ''),
                           verifier=r.get('proof'), replay_cmd=f'python3 /verif/check.py --replay {path}'), open(path, 'w'), indent=1)
            viol.append((r, path))
        for f, k, err in infra:
            b = os.path.basename(f)[:-4]; path = f'{ev}/replay_{pid}_{b}_build.json'
            json.dump(dict(property=pid, contract=f, obligation='the contracts compile against the current tree', stage=k, output=err), open(path, 'w'), indent=1)
            viol.append((dict(entry=b, label='contracts do not compile: ' + err[:200], concrete=False), path))
        proofs = [r['proof'] for r in results if 'proof' in r]
        obl = [o for p in proofs for o in p['obligations']]; ok = [o for o in obl if o['status'] == 'proved']
        be = {}
        for o in ok: be[o['backend']] = be.get(o['backend'], 0) + 1
        fun = sorted({x for p in proofs for x in p['functions'] if 'vf' not in x.split('(')[0]})
        brille = [x for x in fun if 'brille::' in x.split('(')[0] or 'approx_float' in x]
        assumed = {}
        for p in proofs:
            for k, v in p['assumed'].items(): assumed[k] = assumed.get(k, 0) + v
        allr = results
        unreached = [p['entry'] for p in proofs if not p['obligations'] and not p['error']]
        man = json.load(open(f'{V}/MANIFEST.json')) if os.path.exists(f'{V}/MANIFEST.json') else dict(checks=[])
        level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'proof')
        nat = [r for r in results if r.get('native')]
        cov = dict(obligations=len(obl), discharged=len(ok), checker_cmd=f'python3 check.py {pid}',
                   trusted_base=['clang 18 front end and the opt passes ' + PASSES, 'engine/export.cpp, engine/vcgen.py, engine/intrinsics.py (VC generator and library models)', 'z3, cvc5', 'machine floating point treated as real arithmetic unless the entry says fp', 'libstdc++ reference counts taken in the single-threaded branch (__libc_single_threaded)'] + [f'assumed: {k} ({v} uses)' for k, v in sorted(assumed.items())],
                   by_back_end=be, solver_s=round(sum(p['solver'] for p in proofs), 2), entries_proved=[p['entry'] for p in proofs if not p['error'] and p['obligations'] and all(o['status'] == 'proved' for o in p['obligations'])],
                   paths=sum(p['paths'] for p in proofs), inferred_loop_invariants=[f'{p["entry"]}: {h}' for p in proofs for h in p['houdini']][:200],
                   functions_under_contract=brille[:400], obligations_by_kind={k: sum(o['kind'] == k for o in obl) for k in {o['kind'] for o in obl}},
                   bounded_entries=[dict(entry=r['entry'], what=r['what'], runs=r['native']['run'], checks=r['native']['checks']) for r in results if r['bounded']],
                   evaluations=sum(r['native']['run'] for r in nat), distinct_nontrivial=sum(r['native']['distinct'] for r in nat), rule='native runs of the same contracts on generated inputs; non-trivial: the preconditions held and the input differs from every earlier one of that entry',
                   samples=[dict(entry=r['entry'], inputs=dict(list(r['native']['inputs'].items())[:12])) for r in nat[:6]],
                   explanation='proof obligations are generated from the LLVM IR of the current tree and discharged for all inputs; bounded_entries are executed, not proved')
        if level != 'proof': pass
        json.dump(dict(property=pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - T0, 2), violations=len(viol),
                       assumptions=['see MANIFEST level_note and DESIGN.md'] + [f'{k}' for k in sorted(assumed)]), open(f'{ev}/{pid}.json', 'w'), indent=1)
        for r, k in known: print(f'KNOWN-FINDING: property={pid} {r["entry"]}: {r["label"]}')
        for r in sorted(results, key=lambda r: r['entry']):
            p = r.get('proof'); n = r['native']
            s = f'{r["entry"]:34s} ' + (f'proof {sum(o["status"]=="proved" for o in p["obligations"])}/{len(p["obligations"])} in {p["time"]:.1f}s paths {p["paths"]}' if p else ('bounded' if r['bounded'] else 'no proof')) + f' | runs {n["run"]} skipped {n["skipped"]}'
            if p and p['error']: s += ' ! ' + p['error'][:600]
            if n.get('broken'): s += f' native broken rc={n["rc"]} {n["err"][-300:]}'
            print(s)
        for r, path in sorted(viol, key=lambda x: not x[0]['concrete']):
            print(f'  {r["entry"]}: {r["label"]}')
            print(f'VIOLATION property={pid} replay={path}' + ('' if r['concrete'] else ' no-failing-input-found'))
        if not results and not infra: print('no contract entries'); return 2
        print(f'{pid}: {len(ok)}/{len(obl)} obligations discharged, {len(viol)} violations, {time.time()-T0:.1f}s')
        return 1 if viol else 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--setup': setup(); sys.exit(0)
    if a and a[0] == '--replay':
        d = json.load(open(a[1])); c = Check(d['property']); setup(); f = os.path.join(V, d['contract']); b, exe, r = c.compile_native(f)
        if r[0]: print(r[2]); sys.exit(1)
        if not d.get('inputs'): print(json.dumps(d, indent=1)); sys.exit(1)
        r = c.replay(exe, d['entry'], d['inputs']); print('FAIL' if r['fail'] else 'OK', r['label']); print(r['err'][-3000:]); sys.exit(1 if r['fail'] else 0)
    only = a[a.index('-e') + 1] if '-e' in a else None
    sys.exit(Check(a[0], only).run())
