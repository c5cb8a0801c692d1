#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

  run_check.py <property> [quick|thorough]       run the check
  run_check.py --replay <file>                   replay one counterexample on the plain build
  run_check.py --setup                           build the engine (optional; checks do it when needed)

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a counterexample was found by the
solver and reproduced on a plain (uninstrumented) build of /repo's sources.  Exit 2: the check
itself could not run.
"""
import sys, os, re, json, time, glob, shutil, hashlib, subprocess, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
CG = REPO + '/CoarseGrainSites'
Z = None
for c in glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages/z3'):
    if os.path.exists(c + '/include/z3++.h'): Z = c
ZI, ZL = (Z + '/include', Z + '/lib') if Z else ('/usr/include', '/usr/lib/x86_64-linux-gnu')
BUILD = V + '/.build'
NEEDS_UGLY = ('coarsegrainsystem.cpp', 'basin_explorer.cpp', 'graph_library_adapter.cpp')


def sh(cmd, env=None, timeout=600, what=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
    if p.returncode:
        raise RuntimeError((what or cmd[0]) + ' failed:\n' + ' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-3000:])
    return p.stdout.decode(errors='replace')


def build_engine():
    """SymPass.so, symrt.o, replay runtime: cached by the hash of the engine sources."""
    src = ['SymPass.cpp', 'symrt.cpp', 'replay.cpp', 'sym.h']
    h = hashlib.sha1(b''.join(open(f'{V}/engine/{s}', 'rb').read() for s in src) + ZL.encode()).hexdigest()[:16]
    d = f'{BUILD}/engine-{h}'
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + '/ok'): return d
        for o in glob.glob(BUILD + '/engine-*'):
            if o != d: shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        cfg = 'llvm-config-18' if shutil.which('llvm-config-18') else 'llvm-config'
        flags = sh([cfg, '--cxxflags']).split()
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(sh, ['g++', '-shared', '-fPIC', '-O1', '-fno-rtti', *flags, '-std=c++17', V + '/engine/SymPass.cpp', '-o', d + '/SymPass.so']),
                  ex.submit(sh, ['g++', '-std=c++17', '-O1', '-w', '-c', V + '/engine/symrt.cpp', '-I' + ZI, '-o', d + '/symrt.o']),
                  ex.submit(sh, ['clang++-18', '-std=c++14', '-O1', '-w', '-fsanitize=address', '-c', V + '/engine/replay.cpp', '-I' + V + '/engine', '-o', d + '/replay.o'])]
            for f in fs: f.result()
        open(d + '/ok', 'w').close()
    return d


def sources(ugly):
    fs = sorted(glob.glob(CG + '/src/libmythical/**/*.cpp', recursive=True))
    out = []
    for f in fs:
        b = os.path.basename(f)
        if not ugly and b in NEEDS_UGLY: continue
        if not ugly:
            t = open(f, errors='replace').read()
            if re.search(r'#include\s*[<"][^">]*ugly/', t) : continue
        out.append(f)
    return out


def incs(ugly):
    r = ['-I' + CG + '/include', '-I' + CG + '/src', '-I' + CG + '/src/libmythical', '-I' + CG + '/src/libmythical/topologyfeatures', '-I' + V + '/engine', '-I' + V + '/harness']
    if ugly: r += ['-I' + V + '/stubs/a/b/c', '-I' + V + '/stubs/UGLY/include']
    return r


def build(harness, work, tier, eng_future, ugly):
    """returns (symbolic binary, replay binary, reachable functions, timings)"""
    srcs = [V + '/harness/' + harness] + sources(ugly)
    common = ['-std=c++14', '-w', '-ffp-contract=off', '-D_GLIBCXX_ASSERTIONS'] + incs(ugly) + (['-DTHOROUGH=1'] if tier == 'thorough' else [])
    os.makedirs(work, exist_ok=True)
    name = lambda i, f: f'{work}/{i}_{os.path.basename(f)}'
    t0 = time.time()
    with ThreadPoolExecutor(8) as ex:
        bc = [ex.submit(sh, ['clang++-18', '-O1', '-Xclang', '-disable-llvm-passes', *common, '-emit-llvm', '-c', f, '-o', name(i, f) + '.bc']) for i, f in enumerate(srcs)]
        for b in bc: b.result()
        t1 = time.time()
        eng = eng_future.result()
        env = {'SYMX_STUB': '1'}
        ob = [ex.submit(sh, ['clang++-18', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', *common, '-fpass-plugin=' + eng + '/SymPass.so', '-c', f, '-o', name(i, f) + '.o'], env) for i, f in enumerate(srcs)]

        def sym():
            link = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'
            opt = 'opt-18' if shutil.which('opt-18') else 'opt'
            sh([link, *[name(i, f) + '.bc' for i, f in enumerate(srcs)], '-o', work + '/all.lbc'])
            sh([opt, '-load-pass-plugin', eng + '/SymPass.so', '-passes=symstub,internalize,globaldce,symlist,default<O1>,lowerswitch,syminst', '-vectorize-loops=false', '-vectorize-slp=false', work + '/all.lbc', '-o', work + '/inst.lbc'],
               env={'SYM_REACHLIST': work + '/reach.txt', 'SYM_FUNCLIST': work + '/funcs.txt'})
            sh(['clang++-18', '-c', '-O1', '-w', '-Wno-override-module', '-x', 'ir', work + '/inst.lbc', '-o', work + '/inst.o'])
            sh(['g++', work + '/inst.o', eng + '/symrt.o', '-o', work + '/symx', '-L' + ZL, '-lz3', '-Wl,-rpath,' + ZL, '-lgmpxx', '-lgmp', '-lpthread'])
        s = ex.submit(sym)
        for o in ob: o.result()
        sh(['clang++-18', '-fsanitize=address', *[name(i, f) + '.o' for i, f in enumerate(srcs)], eng + '/replay.o', '-o', work + '/replay'])
        s.result()
    fn = sorted({l.strip() for l in open(work + '/reach.txt') if 'mythical::' in l and not l.startswith('std::') and ' std::' not in l.split('(')[0]})
    return work + '/symx', work + '/replay', fn, {'compile_s': round(t1 - t0, 2), 'build_s': round(time.time() - t0, 2)}


def replay(binary, harness, cand):
    """(verdict, text): held | failed | crashed | outside | hang"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=4000:allocator_may_return_null=1:handle_abort=1')
    try:
        p = subprocess.run([binary, harness, cand], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=30)
    except subprocess.TimeoutExpired:
        return 'hang', 'no result within 30 s'
    t = p.stderr.decode(errors='replace')
    return {0: 'held', 3: 'failed', 4: 'outside', 2: 'error'}.get(p.returncode, 'crashed'), t


def harness_file(prop):
    for f in sorted(glob.glob(V + '/harness/*.cpp')):
        if re.search(r'HARNESS\(\s*%s_' % prop, open(f).read()): return os.path.basename(f)
    raise RuntimeError('no harness for ' + prop)


def meta(prop):
    for l in open(V + '/properties.jsonl'):
        if l.strip():
            d = json.loads(l)
            if d['id'] == prop: return d
    return {'id': prop, 'title': prop}


def known(prop):
    """known-findings file: lines 'known: property=<id> harness=<name> msg=<assertion> :: text'"""
    r = []
    f = V + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known:\s+property=(\S+)\s+harness=(\S+)\s+msg="([^"]*)"\s*::\s*(.*)', l)
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3), m.group(4)))
    return r


def run_harness(symx, h, out, secs, workers):
    ieee = '1' if h.endswith('_fp') else '0'
    os.makedirs(out, exist_ok=True)
    try:
        p = subprocess.run([symx, h, out, str(secs), str(workers), ieee], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=secs + 90)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        subprocess.run(['pkill', '-KILL', '-f', symx + ' ' + h + ' ']); rc = -1
    try: return json.load(open(out + '/stats.json'))
    except Exception: return {'harness': h, 'failed': True, 'rc': rc}


def cand_info(f):
    d = {'file': f, 'kind': '?', 'msg': '?', 'inputs': {}}
    for l in open(f):
        k = l.rstrip('\n').split(' ')
        if k[0] == 'kind': d['kind'] = k[1]
        elif k[0] == 'msg': d['msg'] = l[4:].strip()
        elif k[0] == 'int': d['inputs'][k[1]] = int(k[2])
        elif k[0] == 'real': d['inputs'][k[1]] = float(k[3])
    return d


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        build_engine(); print('engine ready'); return 0
    if a and a[0] == '--replay':
        txt = open(a[1]).read()
        prop = re.search(r'^property (\S+)', txt, re.M).group(1); h = re.search(r'^harness (\S+)', txt, re.M).group(1); tier = re.search(r'^tier (\S+)', txt, re.M).group(1)
        work = tempfile.mkdtemp(prefix='replay-', dir=(os.makedirs(BUILD, exist_ok=True), BUILD)[1])
        try:
            with ThreadPoolExecutor(1) as ex: _, rb, _, _ = build(harness_file(prop), work, tier, ex.submit(build_engine), harness_file(prop).startswith('system'))
            v, t = replay(rb, h, a[1]); print(t); print('replay verdict:', v); return 0 if v == 'held' else 1
        finally: shutil.rmtree(work, ignore_errors=True)
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); hf = harness_file(prop); ugly = hf.startswith('system')
    work = f'{BUILD}/{prop}-{tier}-{os.getpid()}'
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        return decide(prop, tier, seed, t0, hf, ugly, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, t0, hf, ugly, work):
    with ThreadPoolExecutor(1) as ex:
        symx, rb, funcs, tim = build(hf, work, tier, ex.submit(build_engine), ugly)
    text = open(V + '/harness/' + hf).read()
    hs = re.findall(r'^HARNESS\(\s*(%s_\w+)\s*\)' % prop, text, re.M)
    if tier == 'quick': hs = [h for h in hs if not re.search(r'_deep(_fp)?$', h)]
    total = float(os.environ.get('SYMX_BUDGET', 480 if tier == 'quick' else 2400))
    par = min(4, len(hs)); workers = max(2, 8 // par)
    waves = -(-len(hs) // par); per = int(min(total / waves, 240 if tier == 'quick' else 1500))
    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(lambda h: run_harness(symx, h, f'{work}/o_{h}', per, workers), hs))
    broken = [r['harness'] for r in res if r.get('failed')]
    viol, unrepro, kf, wit_ok, wit_bad, samples = [], [], [], 0, [], []
    kn = known(prop)
    for h, r in zip(hs, res):
        paths = sorted(glob.glob(f'{work}/o_{h}/path_*.txt'))
        for f in paths:
            v, t = replay(rb, h, f)
            if v == 'held': wit_ok += 1
            else: wit_bad.append({'harness': h, 'verdict': v, 'inputs': cand_info(f)['inputs'], 'text': t[-300:]})
            if len(samples) < 8: samples.append({'harness': h, 'inputs': cand_info(f)['inputs'], 'replayed_on_plain_build': v})
        for f in sorted(glob.glob(f'{work}/o_{h}/cand_*.txt')):
            ci = cand_info(f)
            v, t = replay(rb, h, f)
            ok = v in ('failed', 'crashed') or (v == 'hang')
            m = re.search(r'CHECK FAILED: (.*)', t); seen = m.group(1).strip() if m else (ci['msg'] if v != 'crashed' else 'crash: ' + ci['msg'])
            if not ok: unrepro.append({'harness': h, 'assertion': ci['msg'], 'verdict': v, 'inputs': ci['inputs']}); continue
            k = [x for x in kn if x[0] == h and x[1] == seen]
            if k: kf.append(k[0]); continue
            if any(x['harness'] == h and x['assertion'] == seen for x in viol): continue
            viol.append({'harness': h, 'assertion': seen, 'inputs': ci['inputs'], 'file': f, 'text': t})
    rp = V + '/evidence/replay'
    os.makedirs(rp, exist_ok=True)
    for o in glob.glob(f'{rp}/{prop}_*.txt'): os.remove(o)
    for i, x in enumerate(viol):
        dst = f'{rp}/{prop}_{i}.txt'
        with open(dst, 'w') as o:
            o.write(f'property {prop}\nharness {x["harness"]}\ntier {tier}\nfailed {x["assertion"]}\n'); o.write(open(x['file']).read()); o.write('# replay output\n' + ''.join('# ' + l + '\n' for l in x['text'].splitlines()[:60]))
        x['replay'] = dst; del x['file'], x['text']
    # vacuity: every reachability witness of every harness has to be hit
    vac = []
    for h, r in zip(hs, res):
        m = re.search(r'^HARNESS\(\s*%s\s*\)([^\n]*\}\n)' % h, text, re.M) or re.search(r'^HARNESS\(\s*%s\s*\)(.*?\n\}\n)' % h, text, re.M | re.S)
        body = m.group(1)
        need = set(re.findall(r'sym_reach\("([^"]*)"\)', body))
        got = set((r.get('reached') or {}).keys())
        if need - got and not r.get('incomplete') and not r.get('failed'): vac.append({'harness': h, 'missing': sorted(need - got)})
    S = lambda k: sum(r.get(k, 0) for r in res)
    und = S('checks_unknown'); inc = S('incomplete')
    cov = {
        'states': S('paths'), 'transitions': S('branches'), 'traces_validated_against_impl': wit_ok,
        'samples': samples, 'exhaustive': not (und or inc or broken or unrepro),
        'rule': 'one state = one feasible path of the instrumented code under symbolic inputs; one transition = one solver-decided branch; assertions are discharged per path for all input values on it',
        'functions_encoded': funcs, 'bounds': sorted({n for r in res for n in (r.get('notes') or {})}),
        'solver': 'z3', 'queries': S('queries'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'), 'queries_unknown': S('unknown'), 'solver_s': round(sum(r.get('solver_s', 0) for r in res), 2),
        'assertion_instances': S('checks'), 'discharged_by_normal_form': S('checks_normal_form'), 'discharged_by_solver': S('checks_unsat'), 'normal_form_results_confirmed_by_solver': S('confirmed'), 'undischarged': und,
        'paths_cut_short': inc, 'cut_reasons': {k: v for r in res for k, v in (r.get('incomplete_reasons') or {}).items()},
        'counterexamples_not_reproduced': unrepro[:20], 'path_witness_divergences': wit_bad[:10],
        'harnesses': [{k: r.get(k) for k in ('harness', 'wall_s', 'paths', 'queries', 'solver_s', 'checks', 'checks_unknown', 'incomplete', 'candidates', 'assertions', 'reached')} for r in res],
        'harness_file': 'harness/' + hf, 'build': tim, 'unreached_witnesses': vac, 'harness_errors': broken,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['doubles are exact reals unless the harness name ends in _fp (then IEEE-754 double, bit-precise); equalities then carry a 1e-9 relative slack on the plain build',
                          'uniform draws are arbitrary values of their documented half-open range; every other library call is the real libstdc++ code',
                          'heap allocation succeeds; input sizes are limited to the bounds listed'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop} {tier}: {len(hs)} harnesses, {cov["states"]} paths, {cov["queries"]} queries ({cov["solver_s"]} s solver), {cov["assertion_instances"]} assertion instances, {und} undischarged, {inc} paths cut, {len(unrepro)} unreproduced, {wit_ok} witnesses replayed ({len(wit_bad)} diverged), {ev["wall_s"]} s')
    if os.environ.get('SYMX_DEBUG'):
        print(json.dumps({'unrepro': unrepro, 'wit_bad': wit_bad, 'cut': cov['cut_reasons'], 'vac': vac}, indent=1))
        for r in res: print({k: r.get(k) for k in ('harness', 'wall_s', 'paths', 'queries', 'solver_s', 'checks', 'checks_unknown', 'incomplete', 'candidates')}, {k: v for k, v in (r.get('assertions') or {}).items() if v['unknown'] or v['bad']})
    for k in sorted(set(kf)): print(f'KNOWN-FINDING: property={prop} {k[2]}')
    for x in viol:
        print(f'  {x["harness"]}: {x["assertion"]}  inputs {x["inputs"]}')
        print(f'VIOLATION property={prop} replay={x["replay"]}')
    if viol: return 1
    if broken or vac:
        print('check could not decide:', broken, vac); return 2
    return 0


if __name__ == '__main__':
    try: sys.exit(main())
    except Exception as e:
        print('check error:', e); sys.exit(2)
