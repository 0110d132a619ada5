#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property from /repo's current source.

Compiles the property's witness units (tu/<PID>_*.cpp) against /repo's headers to LLVM IR, links the
IR of /repo/src they need and of the environment model, runs the abstract interpreter on every entry
and reports.  exit 0: every obligation discharged; 1: VIOLATION; 2: the analysis could not be done."""
import sys, os, re, json, subprocess, time, glob, hashlib, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BTA_REPO', '/repo')
BTA = os.path.join(V, 'build', 'bta')
CXX = '/usr/lib/llvm-18/bin/clang++'
LINK = '/usr/lib/llvm-18/bin/llvm-link'
BASE = ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names', '-std=gnu++17', '-emit-llvm', '-c', '-w',
        '-fno-access-control', '-fno-vectorize',
        '-DBOOST_THREAD_NO_LIB=1', '-DBOOST_ALL_NO_LIB', '-DBOOST_THREAD_POSIX', '-DBOOST_THREAD_BUILD_LIB=1', 
        '-I' + REPO + '/include', '-I/opt/vp/lib/shadow', '-I' + V + '/tu']

def cfg(path, tier):
    v, links, tl, fl = [''], [], 240, []
    for l in open(path):
        m = re.match(r'//\s*@(\w+):\s*(.*)', l)
        if not m: continue
        k, x = m.group(1), m.group(2).strip()
        if k == 'variants': v = [y.strip() for y in x.split(';')]
        if k == 'variants_thorough' and tier == 'thorough': v += [y.strip() for y in x.split(';')]
        if k == 'link': links = x.split()
        if k == 'tlim': tl = float(x)
        if k == 'flags': fl = x.split()
    return v, links, tl, fl

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def nomusts(pid):
    """milestones that an entry cannot reach by construction (tools/unreachable.json, reviewed by hand, never written by a check)"""
    return json.load(open(V + '/tools/unreachable.json')).get(pid, {})

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--entry') + 1] if '--entry' in sys.argv else None
    keep = '--keep' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tus = sorted(glob.glob(os.path.join(V, 'tu', pid + '_*.cpp')))
    if not tus: print('no witness unit for', pid); return 2
    if not os.path.exists(BTA):
        r = run(['bash', os.path.join(V, 'setup.sh')])
        if r.returncode: print(r.stdout, r.stderr); return 2
    tmp = tempfile.mkdtemp(prefix='bta.' + pid + '.')
    try:
        return work(pid, tier, seed, tus, tmp, t0, only, keep)
    finally:
        if not keep: shutil.rmtree(tmp, ignore_errors=True)
        else: print('kept', tmp)

def work(pid, tier, seed, tus, tmp, t0, only, keep):
    jobs = []; units = []
    srcs = {'thread': 'src/pthread/thread.cpp', 'once': 'src/pthread/once.cpp', 'future': 'src/future.cpp'}
    for tu in tus:
        variants, links, tl, fl = cfg(tu, tier)
        if tier == 'thorough': tl *= 3
        for i, var in enumerate(variants):
            name = os.path.basename(tu)[:-4] + '.v%d' % i
            defs = (var.split() if var else []) + fl
            if tier == 'thorough': defs.append('-DSA_THOROUGH=1')
            objs = []
            def comp(src, out, extra): jobs.append(([CXX] + BASE + defs + extra + ['-o', out, src], out)); objs.append(out)
            comp(tu, f'{tmp}/{name}.bc', ['-I' + V + '/tu/shim'] if os.path.isdir(V + '/tu/shim') else [])
            comp(f'{V}/tu/model.cpp', f'{tmp}/{name}.model.bc', [])
            for l in links: comp(os.path.join(REPO, srcs[l]), f'{tmp}/{name}.{l}.bc', [])
            units.append((name, objs, tl, var))
    with cf.ThreadPoolExecutor(8) as ex:
        for (cmd, out), r in zip(jobs, ex.map(lambda j: run(j[0]), jobs)):
            if r.returncode:
                print('ANALYSIS ERROR: cannot compile', out); print(r.stderr[:4000]); return 2
    results = []; skip = nomusts(pid)
    def analyse(u):
        name, objs, tl, var = u
        allbc = f'{tmp}/{name}.all.bc'
        r = run([LINK, '-o', allbc] + objs)
        if r.returncode: return 'ANALYSIS ERROR: link ' + r.stderr[:3000]
        out = f'{tmp}/{name}.out'; os.mkdir(out)
        cmd = [BTA, allbc, '--out', out, '-j', '5' if len(units) > 1 else '8', '--src', REPO + '/', '--tu', V + '/tu', '--tlim', str(tl)]
        if only: cmd += ['--entry', only, '-j', '2']
        r = run(cmd)
        if only and 'no entry' in r.stderr: return []
        if r.stderr.strip(): print(r.stderr[:2000])
        res = []; crashed = re.findall(r'entry (\w+) crashed', r.stderr)
        if r.returncode and not crashed: return f'ANALYSIS ERROR: engine {name} ' + r.stderr[:3000]
        for c in crashed: res.append({'entry': c, 'unit': name, 'variant': var, 'violations': [], 'incomplete': ['the analyser failed on this entry'], 'asserts': {}, 'musts': 0, 'src_functions': [], 'opaque': {}, 'imprecise': {}, 'states': 0, 'merged': 0, 'paths': 0, 'steps': 0, 'ends': {}})
        for f in sorted(glob.glob(out + '/*.json')):
            d = json.load(open(f)); d['unit'] = name; d['variant'] = var; res.append(d)
            sk = skip.get(name.split('.')[0] + '/' + d['entry'], []); d['violations'] = [v for v in d['violations'] if not (v['rule'].startswith('must-reach: ') and v['rule'][12:] in sk)]
        return res
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(analyse, units):
            if isinstance(r, str): print(r); return 2
            results += r
    return report(pid, tier, seed, results, t0, only)

def report(pid, tier, seed, results, t0, only):
    kf = json.load(open(f'{V}/known_findings.json'))['findings']
    viols, known = [], []
    for d in results:
        for v in d['violations']:
            k = [f for f in kf if f['property'] == pid and f['entry'] == d['entry'] and f['rule'] == v['rule'] and f.get('function', '') in v.get('func', '')]
            (known if k else viols).append((d, v, k[0] if k else None))
    os.makedirs(f'{V}/replay', exist_ok=True)
    for old in glob.glob(f'{V}/replay/{pid}-*.txt'): os.remove(old)
    seenk = set()
    for d, v, k in known:
        if k['id'] in seenk: continue
        seenk.add(k['id']); print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    seen = {}
    for d, v, _ in viols:
        key = (d['entry'], v['rule'])
        if key in seen: continue
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:8]
        p = f'{V}/replay/{pid}-{d["entry"]}-{h}.txt'; seen[key] = p
        with open(p, 'w') as f:
            f.write(f"property {pid}\nrule: {v['rule']}\nconstruct: {v['loc']}  ({v['func']})\nentry: {d['entry']} in {d['unit']} [{d['variant']}]\n\ncall stack at the violation:\n")
            for s in v['stack']: f.write('  ' + s + '\n')
            f.write('\nabstract path:\n')
            for s in v["trace"][-80:]: f.write('  ' + s + '\n')
        print(f"  {v['rule']}\n    at {v['loc']} in {v['func']}\n    entry {d['entry']} [{d['unit']} {d['variant']}]")
        print(f'VIOLATION property={pid} replay={p}')
    inc = [(d['entry'], d['unit'], i) for d in results for i in d['incomplete']]
    ob = sum(d['asserts'].get(a, 0) for d in results for a in d['asserts']); 
    rules = {}
    for d in results:
        for a, n in d['asserts'].items(): rules[a] = rules.get(a, 0) + n
    obligations = sum(len(d['asserts']) + d['musts'] for d in results)
    bad = sum(len(d['violations']) for d in results)
    srcf = set(f for d in results for f in d['src_functions'])
    opaque = {}
    for d in results:
        for a, n in d['opaque'].items(): opaque[a] = opaque.get(a, 0) + n
    impr = {}
    for d in results:
        for a, n in d['imprecise'].items(): impr[a] = impr.get(a, 0) + n
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {
              'explanation': 'Abstract interpretation of the LLVM IR of the current /repo sources: for each witness entry every abstract path (arbitrary arguments, environment choices, exceptions) is followed to a fixpoint; each rule is an assertion over the abstract state evaluated at every abstract state that reaches it. Incomplete analyses are listed.',
              'entries': len(results), 'obligations': obligations, 'discharged': max(0, obligations - bad),
              'rule_evaluations': ob, 'abstract_states': sum(d['states'] for d in results), 'merged_states': sum(d['merged'] for d in results),
              'abstract_paths_to_exit': sum(d['paths'] for d in results), 'transfer_steps': sum(d['steps'] for d in results),
              'library_functions_analysed': len(srcf), 'library_functions': sorted(srcf)[:400],
              'rules': rules, 'opaque_callees': opaque, 'imprecision': dict(list(impr.items())[:40]),
              'incomplete': [f'{a} {b}: {c}' for a, b, c in inc][:50],
              'samples': [{'entry': d['entry'], 'unit': d['unit'], 'variant': d['variant'], 'states': d['states'], 'paths': d['paths'], 'rules': d['asserts'], 'ends': d['ends'], 'wall_s': round(d.get('wall', 0), 2)} for d in results][:200]},
          'assumptions': ['memory model: sequential consistency of lock-protected accesses', 'arguments of distinct objects do not alias', 'models of POSIX/libstdc++ in tu/model.cpp'],
          'violations': len(seen), 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(f'{V}/evidence', exist_ok=True)
    if not only: json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f"{pid}: {len(results)} entries, {obligations} obligations, {ob} rule evaluations, {ev['coverage']['abstract_states']} abstract states, {len(srcf)} library functions, {len(inc)} incomplete, {len(seen)} violations, {len(seenk)} known, {ev['wall_s']}s")
    for a, b, c in inc[:10]: print('  INCOMPLETE', a, b, c)
    if seen: return 1
    if not only:
        mins = json.load(open(f'{V}/tools/minimums.json')).get(pid)
        if mins and (len(results) < mins['entries'] or len(srcf) < mins['functions'] or obligations < mins['obligations']):
            print('ANALYSIS ERROR: fewer instances analysed than confirmed by hand', mins); return 2
    if inc: print(f'NOTE: {len(inc)} entries were explored only up to a limit; the property held on everything explored')
    if inc and ('--strict' in sys.argv or len(inc) * 2 > len(results)): return 2
    return 0
sys.exit(main())
