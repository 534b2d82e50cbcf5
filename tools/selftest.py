import os, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'zv'))
import check, work
tmp = tempfile.mkdtemp(prefix='zv-self-')
ok = True
try:
    ll, err, hs = check.compile_ll('self', tmp)
    if ll is None:
        print(err); sys.exit(1)
    for h in hs:
        r = work.verify(dict(tu='self', ll=ll, harness=h, budget=60, timeout_ms=20000))
        want = h.startswith('H_good')
        good = check.proved(r) if want else bool(r['fails'])
        print('%-16s %s obligations=%d fails=%s %s' % (h, 'ok' if good else 'WRONG', r['obligations'], [f['label'] for f in r['fails']], r['note']))
        ok = ok and good
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(0 if ok else 1)
