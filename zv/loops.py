"""Loop cutting: modified-set inference, candidate invariants (templates + harness hints), Houdini, generic iteration."""
import z3
from sx import Ptr, BArr, BLay, Unsupported, CutFailed, Budget, bv, zb, simp, simpb, isz, add64, sub64, Frame, PTR


class Var:
    __slots__ = ('kind', 'key', 'w', 'ptr')

    def __init__(self, kind, key, w, ptr):
        self.kind = kind          # 'phi' | 'cell' | 'size'
        self.key = key            # phi dest | (oid,off,size)
        self.w = w
        self.ptr = ptr            # None | (obj, ep)


def getvar(e, st, v, phivals):
    """current value of a variable; (bv or None if shape changed)"""
    if v.kind == 'phi':
        x = phivals[v.key]
    else:
        oid, off, size = v.key
        x = e.read(st, st.mem[oid], off, size)
    return x


def tobv(x, v):
    if v.ptr is not None:
        if not isinstance(x, Ptr) or x.obj != v.ptr:
            return None
        return bv(x.off, 64)
    if isinstance(x, Ptr):
        return None
    if v.w == 1:
        return z3.If(zb(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return bv(x, v.w)


def cut(e, st, header, body, stack, events, stop):
    fr = st.frames[-1]
    func = fr.func
    depth = len(st.frames)
    key = (func.name, header)
    prev = fr.block
    blk = func.block(header)
    phis = []
    i = 0
    while blk[i][0] == 'phi':
        phis.append(blk[i])
        i += 1
    nphi = i
    entry = {}
    for ins in phis:
        entry[ins[1]] = e.val(st, fr, ins[2], ins[3][prev])
    pre_ids = set(st.mem)
    mods = set()           # (oid,off,size) concrete cells
    modall = set()         # whole objects
    arrc = {}              # whole objects whose content after k iterations is known: oid -> fn(k) -> (off, n, byte function)
    k = e.fresh('k', 64)

    def mkgeneric():
        g = st.fork()
        gf = g.frames[-1]
        gf.block = header
        gf.prev = prev
        gf.i = nphi
        gf.cnt[header] = 0
        gf.cnt[('sym', header)] = 0
        g.ghost['cut'] = True
        vars_ = []
        for ins in phis:
            d = ins[1]
            v0 = entry[d]
            if isinstance(v0, Ptr):
                if isinstance(v0.obj, tuple) or v0.obj is None or v0.obj == 'wild':
                    gf.regs[d] = v0
                    vars_.append((Var('phi', d, 64, v0.obj), None))
                    continue
                nv = Ptr(v0.obj, e.fresh('phi_' + d, 64), v0.ep)
                gf.regs[d] = nv
                vars_.append((Var('phi', d, 64, v0.obj), nv))
            elif isinstance(v0, list):
                raise Unsupported('aggregate phi in cut loop')
            else:
                t = e.mod.resolve(ins[2])
                w = t[1]
                nv = e.freshbool('phi_' + d) if w == 1 else e.fresh('phi_' + d, w)
                gf.regs[d] = nv
                vars_.append((Var('phi', d, w, None), nv))
        for (oid, off, size) in sorted(mods):
            if oid in modall:
                continue
            o = g.mem[oid]
            v0 = e.read(st, st.mem[oid], off, size)
            if isinstance(v0, Ptr):
                if isinstance(v0.obj, tuple) or v0.obj is None or v0.obj == 'wild':
                    vars_.append((Var('cell', (oid, off, size), 64, v0.obj), None))
                    continue
                nv = Ptr(v0.obj, e.fresh('cell', 64), v0.ep)
                vars_.append((Var('cell', (oid, off, size), 64, v0.obj), nv))
            else:
                nv = e.fresh('cell', size * 8)
                vars_.append((Var('cell', (oid, off, size), size * 8, None), nv))
            e.write(g, oid, off, size, nv)
        for oid in sorted(modall):
            o = e.wobj(g, oid)
            e.wlog(g, oid, None, None)
            if oid in arrc:
                off, n, fn = arrc[oid](k)
                o.base = BLay(st.mem[oid].cells, st.mem[oid].base, 'fn', off, n, fn)
                o.cells = {}
                continue
            o.cells = {}
            o.base = BArr(e.fresharr('loop'))
        g.wlogs.append(set())
        return g, vars_

    stop2 = (depth, body, header)
    e.incut += 1
    mode0 = e.mode
    try:
        # 1. modified set
        e.mode = 'dry'
        for it in range(12):
            g, vars_ = mkgeneric()
            gbase = {oid: g.mem[oid].base for oid in modall if oid in g.mem}
            np = e.npaths
            evs = e.run([g], stop2)
            e.npaths = np
            new = False
            for kind, s in evs:
                if kind != 'back':
                    continue
                for w in s.wlogs[-1]:
                    oid, off, n = w
                    if oid not in pre_ids:
                        continue
                    if off is None:
                        if oid not in modall:
                            modall.add(oid)
                            new = True
                    else:
                        # objects on frames above the loop die; stack objects of callee frames are not in pre_ids
                        if oid in modall:
                            continue
                        if any(m[0] == oid and m[1] <= off and off + n <= m[1] + m[2] for m in mods):
                            continue
                        # overlapping but different granularity: widen by splitting to whole object for small arrays
                        ov = [m for m in mods if m[0] == oid and m[1] < off + n and off < m[1] + m[2]]
                        if ov or n not in (1, 2, 4, 8):
                            for m in ov:
                                mods.discard(m)
                            modall.add(oid)
                        else:
                            mods.add((oid, off, n))
                        new = True
                for oid in pre_ids:
                    a, b = st.mem.get(oid), s.mem.get(oid)
                    if a is not None and b is not None and a.live != b.live:
                        # lifetime markers of locals inside the body: same at the header of every iteration?
                        if a.kind == 'stack' and not b.live:
                            modall.add(oid) if oid not in modall else None
                        elif a.kind == 'stack' and b.live:
                            pass
                        else:
                            raise CutFailed('allocation state changes in loop %s' % (key,), key)
            if not new:
                break
        else:
            raise Unsupported('modified set does not stabilise')
        backs = [s for kind, s in evs if kind == 'back']

        def backvals(s):
            f2 = s.frames[-1]
            frm = s.ghost['backfrom']
            return {ins[1]: e.val(s, f2, ins[2], ins[3][frm]) for ins in phis}

        # 2. candidates
        cands = []           # (name, fn(vals)->Bool) ; vals: list aligned with vars_, plus k
        V = [v for v, nv in vars_]
        ent = []
        for v in V:
            if v.kind == 'phi':
                x = entry[v.key]
            else:
                x = e.read(st, st.mem[v.key[0]], v.key[1], v.key[2])
            ent.append(tobv(x, v))
        gen = [None if nv is None else tobv(nv, v) for v, nv in vars_]
        bvals = []
        for s in backs:
            pv = backvals(s)
            row = []
            for v in V:
                x = getvar(e, s, v, pv)
                if v.ptr is not None or v.ptr is None and isinstance(x, Ptr):
                    if isinstance(x, Ptr) and (v.ptr is None and v.kind == 'phi' and isinstance(entry.get(v.key), Ptr) or v.kind == 'cell') \
                            and v.ptr is None and x.obj is None:
                        row.append(None)
                        continue
                b = tobv(x, v)
                if b is None:
                    if v.w and v.ptr is None and isinstance(x, Ptr) is False:
                        raise Unsupported('loop var shape')
                    raise CutFailed('pointer variable changes object in loop %s' % (key,), key)
                row.append(b)
            bvals.append(row)
        terms = {}
        for s, row in zip(backs, bvals):
            collect_terms(s.pc[len(st.pc):], [x for x in gen if x is not None], terms)
        deltas = []
        for j, v in enumerate(V):
            if gen[j] is None or ent[j] is None:
                deltas.append(None)
                continue
            ds = set()
            for row in bvals:
                d = simp(row[j] - gen[j]) if v.w > 1 else (0 if row[j].eq(gen[j]) else None)
                ds.add(d if isinstance(d, int) else None)
            deltas.append(ds)

        def add(name, fn):
            cands.append((name, fn))
        for j, v in enumerate(V):
            if gen[j] is None or ent[j] is None:
                continue
            w = v.w
            e0 = ent[j]
            ds = deltas[j]
            add('%s==entry' % (v.key,), lambda vals, kk, j=j, e0=e0: vals[j] == e0)
            add('k>0|%s==entry' % (v.key,), lambda vals, kk, j=j, e0=e0: z3.Or(kk != 0, vals[j] == e0))
            if w == 1:
                continue
            if len(ds) == 1 and None not in ds:
                c = list(ds)[0]
                if c:
                    def f(vals, kk, j=j, e0=e0, c=c, w=w):
                        kz = kk if w == 64 else z3.Extract(w - 1, 0, kk)
                        return vals[j] == e0 + kz * c
                    add('%s==entry+%d*k' % (v.key, c), f)
            add('%s>=entry' % (v.key,), lambda vals, kk, j=j, e0=e0: z3.UGE(vals[j], e0))
            for t in terms.get(w, {}).values():
                add('%s<=%s' % (v.key, str(t)[:40]), lambda vals, kk, j=j, t=t: z3.ULE(vals[j], t))
                add('%s<=s%s' % (v.key, str(t)[:40]), lambda vals, kk, j=j, t=t: vals[j] <= t)
                if len(ds) == 1 and None not in ds and list(ds)[0] not in (0, 1, (1 << w) - 1):
                    c = list(ds)[0]
                    if c < 65536:
                        add('(%s-%s)%%%d==0' % (str(t)[:40], v.key, c),
                            lambda vals, kk, j=j, t=t, c=c: z3.URem(t - vals[j], z3.BitVecVal(c, t.size())) == 0)
            if v.ptr is not None and w == 64:
                sz = st.mem[v.ptr].size
                add('%s<=size' % (v.key,), lambda vals, kk, j=j, sz=sz: z3.ULE(vals[j], bv(sz, 64)))
            add('%s==0' % (v.key,), lambda vals, kk, j=j: vals[j] == 0)
            add('k<=%s' % (v.key,), lambda vals, kk, j=j, w=w: z3.ULE(kk, vals[j]) if w == 64 else z3.BoolVal(True))
        for t in terms.get(64, {}).values():
            add('k<=T%s' % str(t)[:40], lambda vals, kk, t=t: z3.ULE(kk, t))
        for t in terms.get(32, {}).values():
            add('k<=Tzext %s' % str(t)[:40], lambda vals, kk, t=t: z3.ULE(kk, z3.ZeroExt(32, t)))
        # relations between variables with equal but non-constant steps
        for a in range(len(V)):
            for b in range(a):
                if gen[a] is None or gen[b] is None or ent[a] is None or ent[b] is None:
                    continue
                if V[a].w == V[b].w and V[a].w > 1:
                    if deltas[a] == {0} or deltas[b] == {0}:
                        continue
                    for c1, c2 in ((1, 1), (2, 1), (1, 2), (4, 1), (1, 4), (8, 1), (1, 8), (16, 1), (1, 16)):
                        add('%s~%s*%d/%d' % (V[a].key, V[b].key, c1, c2),
                            lambda vals, kk, a=a, b=b, c1=c1, c2=c2: (vals[a] - ent[a]) * c2 == (vals[b] - ent[b]) * c1)
        # harness hints: fn(ctx,k)
        hintvals = []
        for (hk, hfn, hctx) in st.hints:
            if hk == 'val':
                hname = hfn.obj[1]

                def hv(kk, hname=hname, hctx=hctx):
                    r = e.call_pure(st, hname, [hctx, kk])
                    return None if r is None else bv(r, 64)
                hintvals.append(hv)
        for hv in hintvals:
            cache = {}

            def at(kk, hv=hv, cache=cache):
                i_ = kk.get_id() if isz(kk) else kk
                if i_ not in cache:
                    cache[i_] = (hv(kk if isz(kk) else z3.BitVecVal(kk, 64)), kk)
                return cache[i_][0]
            h0 = at(z3.BitVecVal(0, 64))
            if h0 is None:
                continue
            for j, v in enumerate(V):
                if gen[j] is None or ent[j] is None or v.w < 8:
                    continue
                w = v.w

                def f(vals, kk, j=j, w=w, at=at):
                    h = at(kk)
                    if h is None:
                        return z3.BoolVal(False)
                    return vals[j] == (h if w == 64 else z3.Extract(w - 1, 0, h))
                add('%s==hint' % (v.key,), f)

                def f2(vals, kk, j=j, w=w, at=at, h0=h0):
                    h = at(kk)
                    if h is None:
                        return z3.BoolVal(False)
                    d = h - h0
                    return vals[j] == ent[j] + (d if w == 64 else z3.Extract(w - 1, 0, d))
                add('%s==entry+hint' % (v.key,), f2)
        # array content candidates: consecutive cells written from linear loop variables
        sub0 = []
        for j, v in enumerate(V):
            if gen[j] is None or ent[j] is None or v.w < 8 or deltas[j] is None or len(deltas[j]) != 1 or None in deltas[j]:
                continue
            sub0.append((gen[j], ent[j], list(deltas[j])[0], v.w))
        nonlin = set()
        for j, v in enumerate(V):
            if gen[j] is not None and not any(x is gen[j] for x, _, _, _ in sub0):
                nonlin |= set(x.get_id() for x in leaves(gen[j]))
        for oid in sorted(modall):
            if oid not in gbase:
                continue
            f = guess_array(e, st, gbase[oid], oid, backs, sub0, nonlin, k)
            if f is not None:
                arrc[oid] = f
        # 3. entry filter
        k0 = z3.BitVecVal(0, 64)
        live = []
        for nm, fn in cands:
            c = z3.simplify(fn(ent, k0))
            if z3.is_true(c) or (not z3.is_false(c) and e.must(st, c)):
                live.append((nm, fn))
        # 4. Houdini
        for rnd in range(60):
            g, vars_ = mkgeneric()
            gen = [None if nv is None else tobv(nv, v) for v, nv in vars_]
            inv = []
            for nm, fn in live:
                c = z3.simplify(fn(gen, k))
                if not z3.is_true(c):
                    inv.append(c)
            g.pc.append(z3.ULT(k, 1 << 62))
            for c in inv:
                g.pc.append(c)
            g.model = None
            if not e.feasible(g):
                raise Unsupported('contradictory loop invariant %s' % (key,))
            snap = snapshot(e)
            e.mode = mode0
            np = e.npaths
            evs = e.run([g], stop2)
            e.mode = 'dry'
            removed = False
            for kind, s in evs:
                if kind != 'back':
                    continue
                pv = backvals(s)
                row = []
                for v in V:
                    row.append(tobv(getvar(e, s, v, pv), v) if gen_ok(v, vars_) else None)
                while live:
                    cs = [z3.simplify(fn(row, k + 1)) for nm, fn in live]
                    todo = [c for c in cs if not z3.is_true(c)]
                    if not todo:
                        break
                    r, m = e.slv.check(s.pc, z3.Not(z3.And(*todo)))
                    if r == z3.unsat:
                        break
                    removed = True
                    if r == z3.unknown or m is None:
                        # drop candidates one by one
                        nl = []
                        for (nm, fn), c in zip(live, cs):
                            if z3.is_true(c) or e.slv.check(s.pc, z3.Not(c))[0] == z3.unsat:
                                nl.append((nm, fn))
                        live = nl
                        break
                    nl = [x for x, c in zip(live, cs) if not z3.is_false(m.eval(c, model_completion=True))]
                    if len(nl) == len(live):
                        nl = nl[:-1]
                    live = nl
                for oid in list(arrc):
                    off, n, fn = arrc[oid](k + 1)
                    jx = e.fresh('j', 64)
                    so = s.mem[oid]
                    want = e.rd(s, {}, BLay(st.mem[oid].cells, st.mem[oid].base, 'fn', off, n, fn), jx, 1)[0]
                    have = e.rd(s, so.cells, so.base, jx, 1)[0]
                    c = z3.simplify(bv(want, 8) == bv(have, 8))
                    if z3.is_true(c):
                        continue
                    if z3.is_false(c) or e.slv.check(s.pc, z3.And(z3.ULT(jx, bv(so.size, 64)), z3.Not(c)))[0] != z3.unsat:
                        del arrc[oid]
                        removed = True
            if not removed:
                break
            restore(e, snap)
            e.npaths = np
        else:
            raise Unsupported('houdini does not stabilise')
        e.loops_cut['%s:%s' % key] = [nm for nm, fn in live] + ['content of object %s known up to k' % st.mem[oid].name for oid in arrc]
        # termination: some bound on the iteration counter, or a variable that strictly decreases / increases below a bound
        term = any(nm.startswith('k<=T') for nm, fn in live)
        if not term:
            for j, v in enumerate(V):
                if gen[j] is None or ent[j] is None or v.w < 8:
                    continue
                up = any(nm.startswith('%s<=' % (v.key,)) for nm, fn in live)
                for mk in ([lambda r, g_: z3.UGT(r, g_)] if up else []) + [lambda r, g_: z3.ULT(r, g_)]:
                    ok = True
                    for kind, s in evs:
                        if kind != 'back':
                            continue
                        b = tobv(getvar(e, s, v, backvals(s)), v)
                        c = z3.simplify(mk(b, gen[j])) if b is not None else z3.BoolVal(False)
                        if z3.is_true(c):
                            continue
                        if z3.is_false(c) or e.slv.check(s.pc, z3.Not(c))[0] != z3.unsat:
                            ok = False
                            break
                    if ok:
                        term = True
                        break
                if term:
                    break
        if mode0 == 'real':
            (e.term if term else e.noterm).add('%s:%s' % key)
        if e.log and mode0 == 'real':
            e.log('loop %s: %d candidates, invariant: %s' % (key, len(cands), '; '.join(nm for nm, fn in live)[:600]))
    finally:
        e.incut -= 1
        e.mode = mode0
    # 5. continue with the exits
    for kind, s in evs:
        if kind == 'back' or kind == 'done':
            continue
        w = s.wlogs.pop()
        for x in s.wlogs:
            x |= w
        if kind == 'unw' or kind == 'exit':
            stack.append(s)


def guess_array(e, st, base0, oid, backs, lin, nonlin, k):
    """content written by one generic iteration, as a function of the iteration number; verified by the caller"""
    paths = []
    for s in backs:
        o = s.mem.get(oid)
        if o is None or o.cells:
            return None
        ws = {}
        b = o.base
        while b is not base0:
            if not isinstance(b, BLay) or b.op != 'st' or b.cells:
                return None
            if isinstance(b.a, Ptr) or isinstance(b.off, int):
                return None
            for d in range(b.n):
                ws.setdefault(add64(b.off, d), e.vbyte(s, b.a, b.n, d))
            b = b.base
        paths.append((s, ws))
    paths = [x for x in paths if x[1]]
    if not paths:
        return None
    sub = [(gv, e0 + (k if w == 64 else z3.Extract(w - 1, 0, k)) * d) for gv, e0, d, w in lin if z3.is_const(gv) and gv.decl().kind() == z3.Z3_OP_UNINTERPRETED]

    def lift(x):
        x = z3.substitute(x, *sub) if sub else x
        return z3.simplify(x)
    out = None
    for s, ws in paths:
        offs = [(lift(bv(o, 64)), v) for o, v in ws.items()]
        first = offs[0][0]
        rel = {}
        for o, v in offs:
            d = simp(o - first)
            if not isinstance(d, int):
                return None
            rel[d - (1 << 64) if d >> 63 else d] = v
        lo = min(rel)
        c = len(rel)
        if sorted(rel) != list(range(lo, lo + c)) or c > 64:
            return None
        p = simp(first + lo)
        step = simp(z3.substitute(bv(p, 64), (k, k + 1)) - bv(p, 64))
        if step != c:
            return None
        vals = []
        for d in range(lo, lo + c):
            x = bv(rel[d], 8)
            vals.append(lift(x))
        cond = z3.And(*[lift(zb(x)) for x in s.pc[len(st.pc):]]) if len(s.pc) > len(st.pc) else z3.BoolVal(True)
        if out is None:
            out = (p, c, [(cond, vals)])
        else:
            if c != out[1] or simp(bv(p, 64) - bv(out[0], 64)) != 0:
                return None
            out[2].append((cond, vals))
    p, c, alts = out
    p0 = simp(z3.substitute(bv(p, 64), (k, z3.BitVecVal(0, 64))))
    bad = set(nonlin)
    if isinstance(base0, BArr):
        bad.add(base0.arr.get_id())
    merged = []
    for d in range(c):
        x = alts[-1][1][d]
        for cond, vals in reversed(alts[:-1]):
            x = z3.If(cond, vals[d], x) if not vals[d].eq(x) else x
        x = z3.simplify(x)
        if any(y.get_id() in bad for y in leaves(x)):
            return None
        merged.append(x)

    def content(kk):
        def fn(i):
            q = i - bv(p0, 64)
            if c == 1:
                return z3.simplify(z3.substitute(merged[0], (k, q)))
            it = z3.UDiv(q, z3.BitVecVal(c, 64))
            r = None
            for d in range(c - 1, -1, -1):
                v = z3.substitute(merged[d], (k, it))
                r = v if r is None else z3.If(q == it * c + d, v, r)
            return z3.simplify(r)
        return p0, simp(kk * c), fn
    return content


def gen_ok(v, vars_):
    for vv, nv in vars_:
        if vv.kind == v.kind and vv.key == v.key:
            return nv is not None
    return False


def snapshot(e):
    return (dict((k, list(v)) for k, v in e.obl.items()), e.nobl, e.ntriv, list(e.fails), set(e.failkeys), list(e.unknowns), set(e.covers))


def restore(e, s):
    e.obl, e.nobl, e.ntriv, e.fails, e.failkeys, e.unknowns, e.covers = \
        dict((k, list(v)) for k, v in s[0].items()), s[1], s[2], list(s[3]), set(s[4]), list(s[5]), set(s[6])


def collect_terms(pcs, genvars, out):
    """loop-invariant sides of comparisons made in the body"""
    gids = {}
    for gv in genvars:
        for x in leaves(gv):
            gids[x.get_id()] = True
    seen = set()

    def indep(t):
        return all(x.get_id() not in gids for x in leaves(t))
    for c in pcs:
        st = [c]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
                st.extend(x.children())
                continue
            ch = x.children()
            if len(ch) == 2 and z3.is_bv(ch[0]):
                a, b = ch
                ia, ib = indep(a), indep(b)
                for t, i_, o in ((a, ia, ib), (b, ib, ia)):
                    if i_ and not o:
                        d = out.setdefault(t.size(), {})
                        if len(d) < 12:
                            d[t.get_id()] = t
                            # strip zero extensions so that narrower variables match too
                            if t.decl().kind() == z3.Z3_OP_ZERO_EXT or t.decl().kind() == z3.Z3_OP_CONCAT:
                                y = t.children()[-1]
                                if z3.is_bv(y):
                                    out.setdefault(y.size(), {})[y.get_id()] = y


def leaves(t):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        ch = x.children()
        if not ch:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
        else:
            st.extend(ch)
    return out
