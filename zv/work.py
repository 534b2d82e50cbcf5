"""One verification task: a contract harness of one translation unit (run in a worker process)."""
import sys
import time
import resource
import re
import z3
sys.setrecursionlimit(20000)
import sx
import ir


def zval(m, t):
    v = m.eval(t, model_completion=True)
    return v.as_long()


def arr_cells(m, arr, n, limit=1 << 22):
    """(default, {i: v}) of an array in a model"""
    v = m.eval(arr, model_completion=True)
    cells = {}
    d = 0
    x = v
    seen = 0
    while True:
        k = x.decl().kind()
        if k == z3.Z3_OP_STORE:
            a, i, b = x.children()
            i = m.eval(i, model_completion=True).as_long()
            if i not in cells and i < n:
                cells[i] = m.eval(b, model_completion=True).as_long()
            x = a
        elif k == z3.Z3_OP_CONST_ARRAY:
            d = m.eval(x.children()[0], model_completion=True).as_long()
            break
        elif k == z3.Z3_OP_AS_ARRAY:
            f = z3.get_as_array_func(x)
            fi = m[f]
            for j in range(fi.num_entries()):
                en = fi.entry(j)
                i = en.arg_value(0).as_long()
                if i not in cells and i < n:
                    cells[i] = en.value().as_long()
            ev = fi.else_value()
            try:
                d = ev.as_long()
            except Exception:
                d = 0
                for i in range(min(n, 1 << 16)):
                    if i not in cells:
                        cells[i] = m.eval(z3.Select(v, z3.BitVecVal(i, 64)), model_completion=True).as_long()
            break
        else:
            for i in range(min(n, 1 << 16)):
                if i not in cells:
                    cells[i] = m.eval(z3.Select(v, z3.BitVecVal(i, 64)), model_completion=True).as_long()
            break
        seen += 1
        if seen > 1 << 20:
            break
    return d, {i: b for i, b in cells.items() if b != d}


def replay_text(f):
    """smallest-input model of a failed obligation, as a replay file for the native runtime"""
    sizes = [x[3] for x in f.inputs if x[0] == 'b' and sx.isz(x[3])]
    nums = [x[2] for x in f.inputs if x[0] == 'u' and sx.isz(x[2])]
    m = None
    for lim in (64, 1024, 1 << 16, 1 << 22, 1 << 28, 5 << 30, None):
        s = z3.Solver()
        s.set('timeout', 8000)
        s.add(*f.pc)
        if f.neg is not None:
            s.add(f.neg)
        if lim is not None:
            for z in sizes:
                s.add(z3.ULE(sx.bv(z, 64), lim))
        if s.check() == z3.sat:
            m = s.model()
            break
        if not sizes:
            break
    if m is None:
        m = f.model
    if m is None:
        return None
    out = []
    for x in f.inputs:
        if x[0] == 'u':
            out.append('u %s %d' % (x[1], zval(m, x[2]) if sx.isz(x[2]) else int(x[2])))
        else:
            n = zval(m, x[3]) if sx.isz(x[3]) else x[3]
            d, cells = arr_cells(m, x[2], n)
            out.append('b %s %d %d %s' % (x[1], n, d, ' '.join('%d:%d' % kv for kv in sorted(cells.items()))))
    return '\n'.join(out) + '\n'


def contracts_of(mod, specs):
    """specs: (kind, demangled prefix, stub) -> {mangled: (stub, kind)}"""
    if not specs:
        return {}
    import subprocess
    names = sorted(set(mod.funcs_src) | set(mod.decls))
    dem = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    left = [i for i, d in enumerate(dem) if d.startswith('_Z')]
    if left:        # C++20 manglings binutils does not know
        try:
            more = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(dem[i] for i in left), capture_output=True, text=True).stdout.split('\n')
            for i, d in zip(left, more):
                dem[i] = d
        except OSError:
            pass
    out = {}
    for n, d in zip(names, dem):
        d = d.replace('[abi:cxx11]', '')
        for kind, pre, stub in specs:
            if n != stub and 'lambda' not in d and (d.startswith(pre) or d.split(' ', 1)[-1].startswith(pre)) and (not d.startswith('std::') or pre.startswith('std::')):
                out[n] = (stub, kind)
    return out


def verify(task):
    """task: dict(ll, harness, budget, timeout_ms, bounded) -> result dict"""
    t0 = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    h = task['harness']
    res = dict(harness=h, tu=task['tu'], status='?', note='', fails=[], unknowns=[], covers=[], obligations=0, trivial=0,
               paths=0, funcs=[], contracts=[], loops={}, queries=0, solver_s=0.0, by={}, externs=[], labels={}, truncated=0)
    log = []
    mod = task.get('_mod')
    if mod is None:
        mod = ir.Module(open(task['ll']).read())
    cons = contracts_of(mod, task.get('contracts', ())) if not h.startswith('H_def_') else {}
    cut = set()
    nocut = set()
    e = None
    qtot = stot = 0
    by = {}
    restarts = 0
    while True:
        left = task['budget'] - (time.time() - t0)
        e = sx.Engine(mod, contracts=cons, deadline=time.time() + max(left, 1), timeout_ms=task.get('timeout_ms', 15000),
                      log=log.append, cutset=set(cut), bounded=task.get('bounded'))
        e.nocut = set(nocut)
        again = False
        try:
            e.verify(h)
            res['status'] = 'ok'
        except sx.NeedCut as x:
            restarts += 1
            if restarts > 40:
                res['status'] = 'unsupported'
                res['note'] = 'too many loop cut restarts'
            else:
                cut.add(x.key)
                again = True
        except sx.CutFailed as x:
            restarts += 1
            res['status'] = 'unsupported'
            res['note'] = str(x)[:400]
            if x.key not in nocut and restarts <= 40:
                cut.discard(x.key)
                nocut.add(x.key)
                again = True
        except sx.Unsupported as x:
            res['status'] = 'unsupported'
            res['note'] = str(x)[:400]
        except sx.Budget as x:
            res['status'] = 'budget'
            res['note'] = str(x)[:400]
        except MemoryError:
            res['status'] = 'budget'
            res['note'] = 'memory'
        except z3.Z3Exception as x:
            res['status'] = 'unsupported'
            res['note'] = 'z3: ' + str(x)[:300]
        except RecursionError:
            res['status'] = 'unsupported'
            res['note'] = 'recursion'
        except Exception as x:          # a bug of the engine is never a verdict on the code
            import traceback
            res['status'] = 'unsupported'
            res['note'] = 'engine: ' + repr(x)[:200] + ' ' + traceback.format_exc()[-300:]
        qtot += e.slv.q
        stot += e.slv.time
        for k, v in e.slv.by.items():
            by[k] = by.get(k, 0) + v
        if not again:
            break
    res['queries'] = qtot
    res['solver_s'] = round(stot, 2)
    res['by'] = by
    res['obligations'] = e.nobl
    res['trivial'] = e.ntriv
    res['paths'] = e.npaths
    res['unknowns'] = [list(map(str, u)) for u in e.unknowns[:20]]
    res['nunknown'] = len(e.unknowns)
    res['covers'] = sorted(e.covers)
    res['funcs'] = sorted(e.funcs_run)
    res['contracts'] = sorted(e.used_contracts)
    res['externs'] = sorted(e.externs)
    res['loops'] = {k: v[:12] for k, v in e.loops_cut.items()}
    res['noterm'] = sorted(e.noterm)
    res['term'] = sorted(e.term)
    res['truncated'] = e.truncated
    lab = {}
    for (kind, label), (n, tr) in e.obl.items():
        lab['%s: %s' % (kind, label)] = n
    res['labels'] = lab
    for f in e.fails:
        try:
            txt = replay_text(f)
        except Exception as x:
            txt = None
            log.append('no model text: %r' % (x,))
        res['fails'].append(dict(label=f.label, kind=f.kind, where=f.where, exact=f.exact, replay=txt,
                                 negated=str(f.neg)[:600] if f.neg is not None else ''))
    res['log'] = [str(x)[:500] for x in log[-30:]]
    res['wall_s'] = round(time.time() - t0, 2)
    return res
