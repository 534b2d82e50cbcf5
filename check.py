#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property on /repo's current working tree.

Compiles the contract harnesses of the property against /repo's headers to LLVM IR (clang front end, the code that runs),
generates verification conditions per harness (zv/), discharges them with z3/cvc5, replays counterexamples natively under
ASan/UBSan, explores the contracts natively where the verifier does not reach, and writes evidence/<id>.json.
"""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'zv'))
import props          # noqa
import work           # noqa

REPO = os.environ.get('ZV_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang++'
OPT = '/usr/bin/opt-18'
INC = ['-I' + os.path.join(HERE, 'h'), '-I' + os.path.join(REPO, 'include')]
COMMON = ['-std=c++20', '-D_GLIBCXX_ASSERTIONS', '-fno-access-control', '-w'] + INC


class Failed:
    returncode = 124

    def __init__(self, text):
        self.stdout = text


def tool(cmd, timeout=240):
    """a compiler run: a time-out is retried once, then reported as a failure to compile, never as a crash of the check"""
    for _ in range(2):
        try:
            return sh(cmd, timeout=timeout)
        except subprocess.TimeoutExpired:
            pass
    return Failed('timeout: ' + ' '.join(cmd)[:300])


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)


def extra(tu):
    return props.TU_FLAGS.get(tu, [])


def compile_ll(tu, tmp):
    src = os.path.join(HERE, 'h', tu + '.cpp')
    ll = os.path.join(tmp, tu + '.ll')
    r = tool([CLANG] + COMMON + extra(tu) + ['-DZV_SYMBOLIC', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-S',
                                          '-emit-llvm', src, '-o', ll])
    if r.returncode:
        return None, r.stdout, []
    txt = open(ll).read()
    hs = re.findall(r'^define [^\n]*@(H_\w+)\(', txt, re.M)
    stubs = re.findall(r'^define [^\n]*@(ZC_\w+)\(', txt, re.M)
    ol = os.path.join(tmp, tu + '.o.ll')
    if not hs:
        return ol, '', []
    r = tool([OPT, '-S', '-passes=internalize,globaldce,function(sroa,simplifycfg,loop-simplify)',
            '-internalize-public-api-list=' + ','.join(hs + stubs), ll, '-o', ol])
    os.unlink(ll)
    if r.returncode:
        return None, r.stdout, []
    return ol, '', hs


def contracts(tu):
    """// ZV_CONTRACT [rec] <demangled name prefix> = <stub>   lines of a harness"""
    out = []
    for m in re.finditer(r'^// ZV_CONTRACT (rec )?(.+?) = (ZC_\w+)', open(os.path.join(HERE, 'h', tu + '.cpp')).read(), re.M):
        out.append(((m.group(1) or '').strip(), m.group(2), m.group(3)))
    return out


def compile_native(tu, tmp):
    src = os.path.join(HERE, 'h', tu + '.cpp')
    exe = os.path.join(tmp, tu + '.nat')
    r = tool([CLANG] + COMMON + extra(tu) + ['-O1', '-gline-tables-only', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=nonnull-attribute',
                                          '-rdynamic', src, os.path.join(HERE, 'h', 'zvrt.cpp'), '-o', exe] + props.TU_LIBS.get(tu, []))
    if r.returncode:
        return None, r.stdout
    return exe, ''


def harness_names(exe):
    r = sh(['nm', '-D', '--defined-only', exe])
    return re.findall(r' T ([HX]_\w+)$', r.stdout, re.M)


def demangle(names):
    if not names:
        return []
    return sh(['c++filt'], input='\n'.join(names)).stdout.split('\n')[:len(names)]


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                m = re.match(r'finding: property=(\w+) harness=(\S+) label="([^"]*)" (.*)', line)
                if m:
                    out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
    verbose = '-v' in sys.argv
    P = props.PROPS[pid]
    t0 = time.time()
    total = 780 if tier == 'quick' else 7200
    budget = P.get('budget', 300) if tier == 'quick' else P.get('budget_thorough', 1800)
    nat_s = P.get('native_s', 6) if tier == 'quick' else 120
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    for f in os.listdir(ev_dir):
        if f.startswith('replay-%s-' % pid):
            os.unlink(os.path.join(ev_dir, f))
    tmp = tempfile.mkdtemp(prefix='zv-%s-' % pid)
    try:
        rc = run(pid, P, tier, seed, only, verbose, t0, total, budget, nat_s, ev_dir, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(pid, P, tier, seed, only, verbose, t0, total, budget, nat_s, ev_dir, tmp):
    ctx = mp.get_context('fork')
    results, natstats, nocompile = [], [], []
    deferred = []
    viol = []          # (replay path, confirmed, text)
    pool = cf.ProcessPoolExecutor(8, mp_context=ctx)
    # all workers are forked before any thread or pipe exists: a worker forked later could inherit the write end of a
    # subprocess pipe, and whoever reads that pipe would wait for the worker to die
    pool.submit(int).result()
    thr = cf.ThreadPoolExecutor(16)
    tus = P['tus']
    fll = {tu: thr.submit(compile_ll, tu, tmp) for tu in tus if tu not in props.NATIVE_ONLY}
    fnat = {tu: thr.submit(compile_native, tu, tmp) for tu in tus}
    exes = {}
    tasks = {}

    def left():
        return total - (time.time() - t0)

    for tu, f in fll.items():
        ll, err, hs = f.result()
        if ll is None:
            nocompile.append((tu, err))
            continue
        for h in hs:
            if only and h not in only and h[2:] not in only:
                continue
            if tier == 'quick' and h in P.get('deep', ()) and not only:
                deferred.append((tu, h))
                continue
            b = P.get('budgets', {}).get(h, budget)
            tasks[pool.submit(work.verify, dict(tu=tu, ll=ll, harness=h, contracts=contracts(tu), budget=min(b, max(left() - 60, 10)),
                                                timeout_ms=P.get('timeout_ms', 20000) * (1 if tier == 'quick' else 4)))] = (tu, h, ll)
    for tu, f in fnat.items():
        exe, err = f.result()
        if exe is None:
            if not any(x[0] == tu for x in nocompile):
                nocompile.append((tu, err))
            continue
        exes[tu] = exe

    def replay(tu, h, text, tag):
        p = os.path.join(ev_dir, 'replay-%s-%s-%s.txt' % (pid, h, tag))
        open(p, 'w').write('# property %s harness %s (translation unit h/%s.cpp)\n' % (pid, h, tu) + text)
        if tu not in exes:
            return p, False, 'native harness not built'
        try:
            r = sh([exes[tu], 'replay', p, h, str(seed)], timeout=120)
        except subprocess.TimeoutExpired:
            return p, True, 'native replay does not terminate'
        return p, r.returncode not in (0, 3, 4) and 'VIOLATED' in r.stdout, r.stdout[-3000:]

    def explore(tu, h, secs, tag):
        out = os.path.join(ev_dir, 'replay-%s-%s-%s.txt' % (pid, h, tag))
        try:
            r = sh([exes[tu], 'random', str(seed), str(secs), str(P.get('native_n', 200000) if tier == 'quick' else 10000000), out, h],
                   timeout=secs * 3 + 150)
        except subprocess.TimeoutExpired:
            return tu, h, 0, '', None
        return tu, h, r.returncode, r.stdout, out

    nats = []
    for tu, exe in exes.items():
        for h in harness_names(exe):
            if only and h not in only and h[2:] not in only:
                continue
            secs = P.get('native', {}).get(h, nat_s * (3 if h.startswith('X_') and tier == 'quick' else 1))
            if secs:
                nats.append(thr.submit(explore, tu, h, secs, 'random'))
    known = [k for k in known_findings() if k[0] == pid]
    knownhit = set()

    def iskn(h, label):
        for k in known:
            if k[1] == h and k[2] == label:
                knownhit.add(k)
                return True
        return False

    natviol = {}
    retry = {}

    def on_result(f):
        tu, h, ll = tasks[f]
        try:
            r = f.result()
        except Exception as x:
            r = dict(harness=h, tu=tu, status='unsupported', note='worker died: %r' % (x,), fails=[], unknowns=[], nunknown=0, covers=[],
                     obligations=0, trivial=0, paths=0, funcs=[], contracts=[], externs=[], loops={}, queries=0, solver_s=0, by={},
                     labels={}, truncated=0, wall_s=0, log=[], noterm=[])
        r['ll'] = ll
        results.append(r)
        if verbose:
            print('%-6s %-28s %-11s obl=%d triv=%d fails=%d unk=%d paths=%d q=%d solver=%.1fs wall=%.1fs covers=%s %s' % (
                tu, h, r['status'], r['obligations'], r['trivial'], len(r['fails']), r['nunknown'], r['paths'], r['queries'],
                r['solver_s'], r['wall_s'], ','.join(r['covers']), r['note']), flush=True)
            for x in r['fails']:
                print('    FAIL', x['kind'], x['label'], 'exact=%s' % x['exact'], x['where'][-200:])
            for x in r['unknowns'][:5]:
                print('    UNKNOWN', x)
        unconf = []
        for i, x in enumerate(r['fails']):
            if iskn(h, x['label']):
                continue
            if x['replay'] is not None:
                p, ok, out = replay(tu, h, x['replay'], 'cex%d' % i)
                with open(p, 'a') as fo:
                    fo.write('# obligation: %s: %s\n# at %s\n# native replay: %s\n# %s\n' % (
                        x['kind'], x['label'], x['where'], 'violation confirmed' if ok else 'not confirmed', '\n# '.join(out.split('\n')[-60:])))
                if ok:
                    viol.append((p, True, '%s: %s: %s' % (h, x['kind'], x['label'])))
                    return
            unconf.append(x)
        if unconf:
            retry[h] = (r, unconf)

    def on_native(f):
        tu, h, rc, out, path = f.result()
        m = re.search(r'STAT \S+ tried=(\d+) ran=(\d+) distinct=(\d+)', out)
        st = dict(harness=h, tu=tu, tried=int(m.group(1)) if m else 0, ran=int(m.group(2)) if m else 0,
                  distinct=int(m.group(3)) if m else 0, violated=rc == 1 and 'VIOLATED' in out,
                  contracts_evaluated=sum(int(x) for x in re.findall(r'^ASSERT (\d+) ', out, re.M)),
                  covers=re.findall(r'^COVER (.*)$', out, re.M))
        natstats.append(st)
        if rc == 1 and 'VIOLATED' in out:
            mm = re.search(r'VIOLATED (.*)', out)
            label = mm.group(1) if mm else 'native failure'
            lab = re.sub(r'^harness=\S+ (ensures: )?', '', label)
            if not iskn(h, lab):
                with open(path, 'a') as fo:
                    fo.write('# ' + '\n# '.join(out[-4000:].split('\n')) + '\n')
                natviol[h] = (path, label)
        elif rc != 0 and verbose:
            print('native', h, 'rc', rc, out[-500:])
        if verbose:
            print('native %-6s %-24s tried=%d ran=%d distinct=%d%s' % (tu, h, st['tried'], st['ran'], st['distinct'], ' VIOLATED' if rc == 1 else ''))

    pending = set(tasks) | set(nats)
    stopped = 0
    tviol = None
    while pending:
        done, pending = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
        for f in done:
            (on_result if f in tasks else on_native)(f)
        if (viol or natviol) and tviol is None:
            tviol = time.time()
        # a confirmed violation settles the verdict: the remaining obligations get 20 s more (so that the verifier's own
        # counterexample is usually among the reports), then the run ends
        if tviol is not None and time.time() - tviol > (5 if viol else 20):
            stopped = len(pending)
            for f in pending:
                f.cancel()
            for pr in list(getattr(pool, '_processes', {}).values()):
                pr.kill()
            break
    for h, (p, label) in natviol.items():
        viol.append((p, True, label))
    for h, (r, unconf) in retry.items():
        tu = r['tu']
        found = None
        if not viol and left() > 100:
            # bounded unrolling of the loops: exact counterexamples only
            for k in (1, 2, 4):
                if left() < 80:
                    break
                try:
                    b = pool.submit(work.verify, dict(tu=tu, ll=r['ll'], harness=h, contracts=contracts(tu), budget=min(60, left() - 60), bounded=k)).result()
                except Exception:
                    break
                for i, x in enumerate(b['fails']):
                    if x['replay'] is None:
                        continue
                    p, ok, out = replay(tu, h, x['replay'], 'bmc%d-%d' % (k, i))
                    if ok:
                        found = (p, '%s: %s: %s' % (h, x['kind'], x['label']))
                        with open(p, 'a') as fo:
                            fo.write('# obligation: %s: %s\n# native replay: violation confirmed\n# %s\n' % (x['kind'], x['label'], '\n# '.join(out.split('\n')[-60:])))
                        break
                if found:
                    break
            if not found and tu in exes and left() > 60:
                _, _, rc, out, path = explore(tu, h, min(30, left() / 4), 'search')
                if rc == 1 and 'VIOLATED' in out:
                    found = (path, 'random search: ' + h)
        if found:
            viol.append((found[0], True, found[1]))
        else:
            p = os.path.join(ev_dir, 'replay-%s-%s-obligation.txt' % (pid, h))
            with open(p, 'w') as fo:
                fo.write('failed obligation(s) of %s (h/%s.cpp), no failing input found\n' % (h, tu))
                for x in unconf:
                    fo.write('\n%s: %s\nat %s\nexact=%s\nnegated goal: %s\nverifier model:\n%s\n' % (
                        x['kind'], x['label'], x['where'], x['exact'], x['negated'], x['replay']))
                fo.write('\nverifier log:\n' + '\n'.join(r['log']))
            viol.append((p, False, '%s: %s' % (h, unconf[0]['label'])))
    pool.shutdown(wait=False, cancel_futures=True)
    for pr in list((getattr(pool, '_processes', None) or {}).values()):
        pr.kill()
    if stopped:
        deferred.append(('-', '%d unfinished tasks stopped after a confirmed violation' % stopped))
    # verdict
    for k in known:
        if k in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    rc = 0
    err = None
    if nocompile and not viol:
        # a harness that no longer compiles is a limit of the check, not a verdict
        if len(nocompile) == len(tus):
            err = 'no contract harness compiles against the current tree'
            if any('/repo/' in e and ': error:' in e.split('/verif/')[0] for _, e in nocompile):
                pass
    conf = [v for v in viol if v[1]]
    shown = conf or viol
    for p, ok, text in shown[:3]:
        print('failed: %s' % text)
        print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if ok else ' no-failing-input-found'))
        rc = 1
    evidence(pid, P, tier, seed, t0, results, natstats, nocompile, viol, ev_dir, err, deferred)
    if rc == 0 and err:
        print('ERROR', err)
        for tu, e in nocompile:
            print(tu, e[-1500:])
        return 2
    if rc == 0:
        pr = [r for r in results if proved(r)]
        print('OK property=%s: %d/%d contract harnesses discharged (%d obligations), %d native stand-ins, %.0f s' % (
            pid, len(pr), len(results), sum(r['obligations'] for r in pr), sum(1 for n in natstats if n['harness'].startswith('X_')), time.time() - t0))
    return rc


def proved(r):
    return r['status'] == 'ok' and not r['fails'] and not r['nunknown'] and not r['truncated'] and r['obligations'] > 0


def evidence(pid, P, tier, seed, t0, results, natstats, nocompile, viol, ev_dir, err, deferred):
    allf = sorted(set(f for r in results for f in r['funcs']))
    dem = demangle([f for f in allf if re.match(r'_ZN?K?(K?9zerialize)', f) or re.match(r'_ZNK?9zerialize', f)])
    dem = sorted(set(re.sub(r'\(.*', '', d)[:160] for d in dem))
    contracts = sorted(set(demangle(sorted(set(c for r in results for c in r['contracts'])))))
    by = {}
    for r in results:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    pr = [r for r in results if proved(r)]
    nobl = sum(r['obligations'] for r in results)
    ndis = sum(r['obligations'] - len(r['fails']) - r['nunknown'] for r in results if r['status'] == 'ok')
    bounded = []
    for r in results:
        if not proved(r):
            bounded.append('%s (%s): %s %s' % (r['harness'], r['tu'], r['status'] if r['status'] != 'ok' else 'obligation(s) not discharged', r['note']))
    for n in natstats:
        if n['harness'].startswith('X_'):
            bounded.append('%s (%s): outside the verifier, explored natively on %d distinct inputs (seed %d)' % (n['harness'], n['tu'], n['distinct'], seed))
    for tu, h in deferred:
        bounded.append('%s (%s): proved by the thorough tier only; in this run explored natively' % (h, tu))
    for tu, e in nocompile:
        bounded.append('%s: harness did not compile: %s' % (tu, e[-400:]))
    level = P['level']
    cov = dict(
        obligations=nobl, discharged=ndis,
        checker_cmd='/verif/check.py %s (clang-18 -O1 -disable-llvm-passes -> opt-18 sroa,simplifycfg,loop-simplify -> zv VC generator -> z3 %s / cvc5)' % (pid, __import__('z3').get_version_string()),
        trusted_base=props.TRUSTED + P.get('trusted', []),
        functions_under_contract=dem, n_functions=len(dem),
        assumed_contracts_used=contracts,
        modelled_externals=sorted(set(x for r in results for x in r['externs']))[:200],
        harnesses=[dict(harness=r['harness'], tu=r['tu'], proved=proved(r), status=r['status'], note=r['note'], obligations=r['obligations'],
                        trivially_true=r['trivial'], undecided=r['nunknown'], paths=r['paths'], queries=r['queries'], solver_s=r['solver_s'],
                        wall_s=r['wall_s'], loops=r['loops'], termination_proved=r.get('term', []), termination_not_proved=r['noterm'], covers=r['covers'], ensures=r['labels'] if len(r['labels']) < 60 else dict(list(r['labels'].items())[:60])) for r in results],
        harnesses_proved=len(pr), solver_queries_by_backend=by, solver_s=round(sum(r['solver_s'] for r in results), 1),
        bounded=bounded, native_exploration=natstats,
        evaluations=sum(n['ran'] for n in natstats), distinct_nontrivial=sum(n['distinct'] for n in natstats),
        rule='native runs of the same contract harnesses on pseudo-random inputs; non-trivial: distinct input trace that satisfied every precondition',
        samples=[dict(harness=r['harness'], ensures=list(r['labels'])[:8]) for r in results[:3]],
        explanation=P['what'])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=props.ASSUMPTIONS + P.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if err:
        cov['error'] = err
    json.dump(ev, open(os.path.join(ev_dir, pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
