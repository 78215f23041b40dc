#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]
Discharges every contract obligation of one property from /repo's current sources.  Exit 0: all discharged; exit 1: a
VIOLATION line per failed property.  See DESIGN.md."""
import sys, os, re, json, subprocess, time, glob, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.realpath(__file__))
R = os.environ.get('FTK_REPO', '/repo')
B = os.environ.get('VBUILD', os.path.join(V, 'build'))
NJ = int(os.environ.get('VJOBS', '8'))

DEC = re.compile(r'^(CONTRACT|BOUNDED|CONTRACT_T|BOUNDED_T|FINDING)\(\s*(\w+)\s*,\s*((?:"(?:[^"\\]|\\.)*"\s*)+),\s*((?:"(?:[^"\\]|\\.)*"\s*)+)(?:,\s*((?:"(?:[^"\\]|\\.)*"\s*)+))?\)', re.M)
def unq(s): return ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', s or ''))

def table(path):
    t = {}; src = open(path).read()
    for m in re.finditer(r'^#define (\w+) ((?:"(?:[^"\\]|\\.)*" *)+)$', src, re.M): src = re.sub(r'(?<=[ ,(])%s(?=[ ,)])' % m.group(1), lambda _: m.group(2).strip(), src) if not m.group(1) in ('COVER',) else src
    for m in DEC.finditer(src):
        t[m.group(2)] = dict(kind=m.group(1), funcs=unq(m.group(3)), text=unq(m.group(4)), bound=unq(m.group(5)) if m.group(5) else None)
    return t

def sh(cmd, **kw): return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def options(path):
    o = {}
    for m in re.finditer(r'^// *@(\w+) *(.*)$', open(path).read(), re.M): o[m.group(1)] = m.group(2).strip()
    return o

class Check:
    def __init__(s, prop, tier):
        s.prop, s.tier = prop, tier
        s.seed = int(os.environ.get('VERIF_SEED', '1'))
        s.t0 = time.time()
        s.work = tempfile.mkdtemp(prefix='ftkv_%s_' % prop)
        s.files = sorted(glob.glob(os.path.join(V, 'contracts', prop + '*.cc')))
        s.results = []; s.violations = []; s.findings = []; s.concrete = False
        s.deadline = s.t0 + (780 if tier == 'quick' else 3*3600)

    def env(s):
        e = dict(os.environ); e['FTK_REPO'] = R; e['VBUILD'] = B; e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0'; e['TMPDIR'] = s.work
        return e

    def compile(s, f):
        out = os.path.join(s.work, os.path.basename(f)[:-3] + '.bc')
        p = sh([os.path.join(V, 'lib', 'vc.sh'), f, out], env=s.env())
        return out if p.returncode == 0 and os.path.exists(out) else None, p.stdout

    def native(s, f):
        exe = os.path.join(s.work, os.path.basename(f)[:-3] + '.native')
        if os.path.exists(exe): return exe, ''
        p = sh(['clang++-18', '-std=c++17', '-O1', '-fno-inline', '-g1', '-w', '-DNDEBUG', '-DVNATIVE', '-fsanitize=address', '-rdynamic', '-I' + B + '/inc', '-I' + R + '/include', '-I' + R + '/include/ftk/external', '-I' + V + '/lib', f, V + '/lib/vnative.cc', '-o', exe, '-ldl', '-lpthread'], env=s.env())
        return (exe if p.returncode == 0 else None), p.stdout

    def run_native(s, exe, *args, timeout=60):
        try: p = sh([exe] + list(args), env=s.env(), timeout=timeout)
        except subprocess.TimeoutExpired: return 3, 'TIMEOUT'
        return p.returncode, (p.stdout or '').strip()

    def replay_failures(s, f, h, info):
        """try to turn failed obligations of harness h into a concrete failing input"""
        exe, log = s.native(f)
        tried = []
        if exe:
            for k, fl in enumerate(info['failures']):
                if not fl['inputs'] and fl['status'] != 'refuted': continue
                if fl.get('arrays'): pass
                fn = os.path.join(s.work, '%s.%d.in' % (h, k))
                with open(fn, 'w') as o:
                    for a, b in fl['inputs'].items(): o.write('%s %s\n' % (a, b))
                rc, out = s.run_native(exe, 'replay', h, fn)
                tried.append(dict(obligation=fl['name'], inputs=fl['inputs'], native=out))
                if rc == 1: return dict(how='verifier counterexample replayed on the real code', inputs=fl['inputs'], native=out, tried=tried)
            secs = 40 if s.tier == 'quick' else 120
            if s.concrete and s.tier == 'quick': secs = 6
            secs = int(min(secs, max(5, s.deadline - time.time())))
            def one(i):
                fn = os.path.join(s.work, '%s.search%d' % (h, i))
                rc, out = s.run_native(exe, 'search', h, str(secs), str(s.seed * 1000 + i), fn, timeout=secs + 60)
                return rc, out, fn
            with ThreadPoolExecutor(4) as ex: rs = list(ex.map(one, range(4)))
            for rc, out, fn in rs:
                if rc == 1 and os.path.exists(fn):
                    rc2, out2 = s.run_native(exe, 'replay', h, fn)
                    if rc2 == 1:
                        return dict(how='input found by running the same contract natively', inputs=dict(l.split() for l in open(fn) if len(l.split()) == 2), native=out2, tried=tried)
            tried.append(dict(search=[o for _, o, _ in rs]))
        else: tried.append(dict(native_build=log[-4000:]))
        return dict(how=None, tried=tried)

    def main(s):
        if not s.files: print('no contracts for', s.prop); return 1
        p = sh([os.path.join(V, 'lib', 'prepare.sh')], env=s.env())
        if p.returncode != 0: return s.broken('verifier or generated header could not be built', p.stdout)
        with ThreadPoolExecutor(NJ) as ex: bcs = list(ex.map(s.compile, s.files))
        for f, (bc, log) in zip(s.files, bcs):
            t = table(f); opt = options(f)
            if bc is None:
                s.results.append((f, t, None)); s.report(os.path.basename(f), dict(obligation='contract-typechecks', detail='the contract file no longer compiles against the current sources', log=log[-6000:]), None); continue
            hs = ['H_' + h for h, d in t.items() if d['kind'] != 'FINDING' and (s.tier == 'thorough' or not d['kind'].endswith('_T'))]
            tl = int(opt.get('time', '200')) if s.tier == 'quick' else int(opt.get('time_thorough', opt.get('time', '1800')))
            cmd = [os.path.join(B, 'ftkv'), '-t', str(tl), '-j', str(NJ), '-tmp', s.work, '-paths', opt.get('paths', '20000')]
            if 'setup' in opt: cmd += ['-setup', opt['setup']]
            out = os.path.join(s.work, 'out.json')
            if os.path.exists(out): os.unlink(out)
            rs = []
            if hs:
                try: p = sh(cmd + ['-o', out, bc] + hs, env=s.env(), timeout=max(60, s.deadline - time.time())); log = p.stdout
                except subprocess.TimeoutExpired: log = 'verifier timed out'
                try: rs = json.load(open(out))
                except Exception as e: rs = None
                if rs is None:
                    s.report(os.path.basename(f), dict(obligation='verifier-run', detail='the verifier did not complete', log=log[-6000:]), None); rs = []
            s.results.append((f, t, rs))
            for r in rs:
                h = r['harness']
                # vacuity guards
                if not r['failures']:
                    nob = sum(o['n'] for o in r['obligations'])
                    why = None
                    if r['ended'] + (r['thrown']) < 1: why = 'no execution reaches the end of the contract'
                    elif nob == 0: why = 'no obligation was generated'
                    elif r['reach'] == 0: why = 'precondition unsatisfiable'
                    elif r['incomplete']: why = 'exploration incomplete'
                    if why: r['failures'].append(dict(name='non-vacuity', status='undecided', detail=why, where='', inputs={}, arrays={}))
                if r['failures']:
                    rep = s.replay_failures(f, h, r)
                    fl = r['failures'][0]
                    s.report(h, dict(file=os.path.relpath(f, V), obligation=[x['name'] for x in r['failures']], contract=t[h[2:]]['text'], functions=t[h[2:]]['funcs'], failures=r['failures'], replay=rep), rep.get('inputs') is not None and rep.get('how'))
            # known findings: concrete failing inputs replayed natively
            ks = [k for k, d in t.items() if d['kind'] == 'FINDING']
            if ks:
                exe, log = s.native(f)
                for k in ks:
                    if exe is None: continue
                    rc, o = s.run_native(exe, 'replay', 'H_' + k, '/dev/null')
                    if rc == 1 and s.listed(k): s.findings.append(t[k]['text']); print('KNOWN-FINDING: property=%s %s: %s' % (s.prop, k, t[k]['text']))
                    elif rc == 1: s.report('H_' + k, dict(file=os.path.relpath(f, V), obligation=k, contract=t[k]['text'], native=o), True)
        s.evidence()
        shutil.rmtree(s.work, ignore_errors=True)
        return 1 if s.violations else 0

    def listed(s, k):
        fn = os.path.join(V, 'known_findings.txt')
        return os.path.exists(fn) and any(l.startswith('finding: property=%s %s ' % (s.prop, k)) for l in open(fn))

    def report(s, name, data, concrete):
        d = os.path.join(B, 'replay'); os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s_%s.json' % (s.prop, re.sub(r'\W', '_', name)))
        data = dict(property=s.prop, harness=name, how_to_replay='python3 %s/check.py %s --replay %s' % (V, s.prop, fn), **data)
        json.dump(data, open(fn, 'w'), indent=1)
        s.violations.append((name, fn, bool(concrete))); s.concrete = s.concrete or bool(concrete)
        print('VIOLATION property=%s replay=%s%s' % (s.prop, fn, '' if concrete else ' no-failing-input-found'))
        ob = data.get('obligation'); print('  obligation: %s' % (ob,)); 
        for x in data.get('failures', [])[:2]: print('  [%s] %s @ %s' % (x['status'], x['detail'][:300], x['where'][:300]))
        if concrete and 'replay' in data: print('  input: %s -> %s' % (json.dumps(data['replay']['inputs'])[:600], data['replay']['native']))
        sys.stdout.flush()

    def broken(s, what, log):
        s.report('setup', dict(obligation='verifier-setup', detail=what, log=log[-6000:]), None)
        s.evidence(); return 1

    def evidence(s):
        tot = dis = bnd = 0; be = {}; fun = set(); obl = []; ass = {}; ext = {}; solver = 0.0; q = 0; paths = 0; steps = 0; cons = []
        for f, t, rs in s.results:
            for r in rs or []:
                d = t[r['harness'][2:]]; b = d['kind'].startswith('BOUNDED')
                n = sum(o['n'] for o in r['obligations']); failed = sum(c for o in r['obligations'] for k, c in o['by'].items() if k in ('REFUTED', 'UNDECIDED'))
                if b: bnd += n
                else: tot += n; dis += n - failed
                for o in r['obligations']:
                    for k, c in o['by'].items():
                        if k not in ('REFUTED', 'UNDECIDED'): be[k] = be.get(k, 0) + c
                for x in r['functions']: fun.add(x)
                for k, c in r['assumptions'].items(): ass[k] = ass.get(k, 0) + c
                for k, c in r['externals'].items(): ext[k] = ext.get(k, 0) + c
                solver += r['solver_s']; q += r['queries']; paths += r['paths']; steps += r['steps']
                cons.append(dict(contract=r['harness'][2:], functions=d['funcs'], text=d['text'], bounded=d['bound'] if b else None, obligations=n, failed=failed, paths=r['paths'], steps=r['steps'], named=[o['name'] for o in r['obligations']], wall_s=round(r['wall'], 3), solver_s=round(r['solver_s'], 3)))
        level = 'proof' if tot else 'other'
        man = os.path.join(V, 'MANIFEST.json')
        try:
            for c in json.load(open(man))['checks']:
                if c['property'] == s.prop: level = c['level']
        except Exception: pass
        cov = dict(obligations=tot, discharged=dis, checker_cmd='python3 check.py %s --tier %s' % (s.prop, s.tier),
            trusted_base=['clang 18 front end and the scalar IR passes sroa/early-cse/simplifycfg/always-inline', 'ftkv (/verif/engine): IR semantics, ring normaliser, interval bounds', 'z3 4.8.12, z3-new, cvc5 for the obligations the ring normaliser does not close', 'lib/vrt.cc stand-in for libstdc++ red-black-tree/hash entry points', 'libstdc++ header code is executed, not trusted'],
            functions_under_contract=sorted(fun), functions_count=len(fun), discharged_by=be, bounded_obligations=bnd, contracts=cons, solver_s=round(solver, 3), solver_queries=q, paths=paths, ir_steps=steps, known_findings=s.findings)
        A = ['integers are mathematical integers in the signed range of their machine type; truncations and unsigned comparisons are exact, other wrap-arounds are assumed absent where listed below',
             'floating point is real arithmetic: rounding, NaN and signed zero are not modelled (infinities are, as special constants)']
        A += ['%s (%d uses)' % kv for kv in sorted(ass.items())] + ['external function modelled or assumed: %s (%d calls)' % kv for kv in sorted(ext.items())]
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=level, coverage=cov, assumptions=A, wall_s=round(time.time() - s.t0, 2), violations=len(s.violations))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', s.prop + '.json'), 'w'), indent=1)
        print('%s: %d contracts, %d/%d obligations discharged (+%d bounded), %d functions, %.1f s' % (s.prop, len(cons), dis, tot, bnd, len(fun), time.time() - s.t0))

def main():
    a = sys.argv[1:]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if '--replay' in a:
        i = a.index('--replay'); d = json.load(open(a[i + 1])); c = Check(a[0], tier)
        sh([os.path.join(V, 'lib', 'prepare.sh')], env=c.env())
        print(json.dumps(d, indent=1)[:3000])
        if 'file' in d and d.get('replay', {}).get('inputs') is not None:
            exe, log = c.native(os.path.join(V, d['file']))
            fn = os.path.join(c.work, 'in'); open(fn, 'w').write(''.join('%s %s\n' % kv for kv in d['replay']['inputs'].items()))
            print(c.run_native(exe, 'replay', d['harness'], fn) if exe else log)
        shutil.rmtree(c.work, ignore_errors=True); return 0
    return Check(a[0], tier).main()
sys.exit(main())
