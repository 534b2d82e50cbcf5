"""Integer abstraction of bit-vector queries.  tolia(conjuncts) returns integer constraints whose models include every
model of the bit-vector conjuncts (machine wrap-around is kept exactly through carry variables; operations that are not
linear become variables of the right range with sound facts: monotonicity of products, the division identity), so `unsat` of the abstraction implies `unsat` of the query."""
import z3


class Tr:
    def __init__(self):
        self.memo = {}
        self.bmemo = {}
        self.side = []
        self.n = 0
        self.keep = []
        self.ub = {}         # term id -> tightened upper bound
        self.lb = {}
        self.fns = {}
        self.prods = {}      # (factor id, factor id) -> product

    def fresh(self, lo, hi):
        self.n += 1
        v = z3.Int('l%d' % self.n)
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v, lo, hi

    # ---- bounds from simple conjuncts -------------------------------------------------
    def scan(self, c, pos=True):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.scan(c.arg(0), not pos)
        if k == z3.Z3_OP_AND and pos or k == z3.Z3_OP_OR and not pos:
            for x in c.children():
                self.scan(x, pos)
            return
        if k not in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            if k == z3.Z3_OP_EQ and pos and z3.is_bv(c.arg(0)):
                a, b = c.arg(0), c.arg(1)
                for x, y in ((a, b), (b, a)):
                    if z3.is_bv_value(y):
                        self.tight(x, y.as_long(), y.as_long())
            return
        a, b = c.arg(0), c.arg(1)
        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = b, a
        strict = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
        if not pos:
            a, b, strict = b, a, not strict
        # a <(=) b
        if z3.is_bv_value(b):
            self.tight(a, 0, b.as_long() - (1 if strict else 0))
        elif z3.is_bv_value(a):
            self.tight(b, a.as_long() + (1 if strict else 0), (1 << a.size()) - 1)

    def tight(self, x, lo, hi):
        i = x.get_id()
        self.keep.append(x)
        self.ub[i] = min(self.ub.get(i, (1 << x.size()) - 1), hi)
        self.lb[i] = max(self.lb.get(i, 0), lo)

    # ---- terms --------------------------------------------------------------------------
    def t(self, x):
        i = x.get_id()
        r = self.memo.get(i)
        if r is None:
            self.keep.append(x)
            r = self._t(x)
            lo, hi = self.lb.get(i), self.ub.get(i)
            if lo is not None:
                # the bound itself is one of the conjuncts, so it may be used to tighten the range
                e, l, h = r
                r = (e, max(l, lo), min(h, hi))
                if r[1] > r[2]:
                    r = (e, l, h)
            self.memo[i] = r
        return r

    def wrapv(self, e, lo, hi, w):
        """e mod 2^w"""
        M = 1 << w
        if lo >= 0 and hi < M:
            return e, lo, hi
        ql, qh = lo // M, hi // M
        v, _, _ = self.fresh(0, M - 1)
        if ql == qh:
            return e - ql * M, lo - ql * M, hi - ql * M
        q, _, _ = self.fresh(ql, qh)
        self.side.append(v == e - q * M)
        return v, 0, M - 1

    def prod(self, a, b):
        """the product of two non-negative terms: a variable with the facts of `lemmas`"""
        if a[0].get_id() > b[0].get_id():
            a, b = b, a
        k = (a[0].get_id(), b[0].get_id())
        r = self.prods.get(k)
        if r is None:
            p = self.fresh(a[1] * b[1], a[2] * b[2])
            r = self.prods[k] = (a, b, p)
        return r[2]

    def lemmas(self):
        out = []
        ps = list(self.prods.values())
        for a, b, p in ps:
            for x, y in ((a[0], b[0]), (b[0], a[0])):
                out.append(z3.Implies(x == 0, p[0] == 0))
                out.append(z3.Implies(x == 1, p[0] == y))
                out.append(z3.Implies(x >= 1, p[0] >= y))
                out.append(z3.Implies(x >= 2, p[0] >= 2 * y))
        for i, (a, b, p) in enumerate(ps):
            for c, d, q in ps[:i]:
                for x, y in ((a, b), (b, a)):
                    for u, v in ((c, d), (d, c)):
                        if x[0].get_id() == u[0].get_id():       # x*y and x*v
                            out.append(z3.Implies(y[0] <= v[0], p[0] <= q[0]))
                            out.append(z3.Implies(v[0] <= y[0], q[0] <= p[0]))
                            out.append(z3.Implies(y[0] < v[0], p[0] + x[0] <= q[0]))
                            out.append(z3.Implies(v[0] < y[0], q[0] + x[0] <= p[0]))
        return out

    def _t(self, x):
        k = x.decl().kind()
        w = x.size()
        M = 1 << w
        if z3.is_bv_value(x):
            v = x.as_long()
            return z3.IntVal(v), v, v
        ch = x.children()
        if k == z3.Z3_OP_BADD:
            e, lo, hi = None, 0, 0
            for c in ch:
                if z3.is_bv_value(c):
                    v = c.as_long()
                    if v >= M // 2:
                        v -= M
                    ce, cl, cu = z3.IntVal(v), v, v
                elif c.decl().kind() == z3.Z3_OP_BMUL and len(c.children()) == 2 and z3.is_bv_value(c.arg(0)):
                    v = c.arg(0).as_long()
                    if v >= M // 2:
                        v -= M
                    be, bl, bu = self.t(c.arg(1))
                    ce = v * be
                    cl, cu = (v * bl, v * bu) if v >= 0 else (v * bu, v * bl)
                else:
                    ce, cl, cu = self.t(c)
                e = ce if e is None else e + ce
                lo += cl
                hi += cu
            return self.wrapv(e, lo, hi, w)
        if k == z3.Z3_OP_BSUB:
            a, b = self.t(ch[0]), self.t(ch[1])
            return self.wrapv(a[0] - b[0], a[1] - b[2], a[2] - b[1], w)
        if k == z3.Z3_OP_BNEG:
            a = self.t(ch[0])
            return self.wrapv(-a[0], -a[2], -a[1], w)
        if k == z3.Z3_OP_BNOT:
            a = self.t(ch[0])
            return (M - 1) - a[0], M - 1 - a[2], M - 1 - a[1]
        if k == z3.Z3_OP_BMUL:
            if len(ch) == 2:
                a, b = ch
                if z3.is_bv_value(b):
                    a, b = b, a
                if z3.is_bv_value(a):
                    v = a.as_long()
                    if v >= M // 2:
                        v -= M
                    e, l, h = self.t(b)
                    return self.wrapv(v * e, min(v * l, v * h), max(v * l, v * h), w)
            c, p = 1, None
            for a in ch:
                if z3.is_bv_value(a):
                    c *= a.as_long()
                else:
                    p = self.t(a) if p is None else self.prod(p, self.t(a))
            return self.wrapv(c * p[0] if c != 1 else p[0], c * p[1], c * p[2], w)
        if k == z3.Z3_OP_CONCAT:
            e, lo, hi = None, 0, 0
            for c in ch:
                ce, cl, cu = self.t(c)
                s = 1 << c.size()
                e = ce if e is None else e * s + ce
                lo = lo * s + cl
                hi = hi * s + cu
            return e, lo, hi
        if k == z3.Z3_OP_ZERO_EXT:
            return self.t(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            e, l, h = self.t(ch[0])
            s = ch[0].size()
            if h < 1 << (s - 1):
                return e, l, h
            b, _, _ = self.fresh(0, 1)
            self.side.append((b == 1) == (e >= 1 << (s - 1)))
            return e + b * (M - (1 << s)), 0, M - 1
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = x.params()
            return self.bits(ch[0], hi_, lo_)
        if k in (z3.Z3_OP_BLSHR,) and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return z3.IntVal(0), 0, 0
            return self.bits(ch[0], w - 1, s)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return z3.IntVal(0), 0, 0
            e, l, h = self.t(ch[0])
            return self.wrapv(e * (1 << s), l << s, h << s, w)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            d = ch[1].as_long()
            e, l, h = self.t(ch[0])
            q, _, _ = self.fresh(l // d, h // d)
            r, _, _ = self.fresh(0, d - 1)
            self.side.append(e == q * d + r)
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                return q, l // d, h // d
            return r, 0, d - 1
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) and z3.is_bv_value(ch[1]) and 0 < ch[1].as_long() < M // 2:
            d = ch[1].as_long()
            e, l, h = self.t(ch[0])
            if h < M // 2:
                q, _, _ = self.fresh(l // d, h // d)
                r, _, _ = self.fresh(0, d - 1)
                self.side.append(e == q * d + r)
                return q, l // d, h // d
            e = self.signed(ch[0])
            q, ql, qh = self.fresh(-(M // 2 // d), M // 2 // d)
            r, _, _ = self.fresh(-(d - 1), d - 1)
            self.side.append(e == q * d + r)
            self.side.append(z3.If(e >= 0, r >= 0, r <= 0))
            return self.wrapv(q, ql, qh, w)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            key = ('div', ch[0].get_id(), ch[1].get_id())
            r = self.memo.get(key)
            if r is None:
                a, b = self.t(ch[0]), self.t(ch[1])
                q, m = self.fresh(0, M - 1), self.fresh(0, M - 1)
                p = self.prod(b, q)
                self.side.append(z3.If(b[0] == 0, z3.And(q[0] == M - 1, m[0] == a[0]), z3.And(a[0] == p[0] + m[0], m[0] < b[0], q[0] <= a[0])))
                r = self.memo[key] = (q, m)
            return r[0] if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r[1]
        if k == z3.Z3_OP_BAND and len(ch) == 2:
            for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_bv_value(a):
                    m = a.as_long()
                    if m & (m + 1) == 0 and m:
                        return self.bits(b, m.bit_length() - 1, 0)
                    e, l, h = self.t(b)
                    v = self.fresh(0, min(m, h))
                    self.side.append(v[0] <= e)
                    return v
            a, b = self.t(ch[0]), self.t(ch[1])
            v = self.fresh(0, min(a[2], b[2]))
            self.side.append(v[0] <= a[0])
            self.side.append(v[0] <= b[0])
            return v
        if k == z3.Z3_OP_BOR:
            hi = 0
            for c in ch:
                hi = max(hi, self.t(c)[2])
            v = self.fresh(0, min(M - 1, (1 << hi.bit_length()) - 1))
            for c in ch:
                self.side.append(v[0] >= self.t(c)[0])
            return v
        if k == z3.Z3_OP_ITE:
            a, b = self.t(ch[1]), self.t(ch[2])
            return z3.If(self.b(ch[0]), a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if k == z3.Z3_OP_SELECT and z3.is_const(ch[0]) and len(ch) == 2 and z3.is_bv(ch[1]):
            f = self.fns.get(ch[0].get_id())
            if f is None:
                self.keep.append(ch[0])
                f = z3.Function('sel%d' % len(self.fns), z3.IntSort(), z3.IntSort())
                self.fns[ch[0].get_id()] = f
            v = f(self.t(ch[1])[0])
            self.side.append(v >= 0)
            self.side.append(v < M)
            return v, 0, M - 1
        if k == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_bv(c) for c in ch):
            d = x.decl()
            f = self.fns.get(('d', d.name()))
            if f is None:
                f = z3.Function('uf_%s' % d.name(), *([z3.IntSort()] * (len(ch) + 1)))
                self.fns[('d', d.name())] = f
            v = f(*[self.t(c)[0] for c in ch])
            self.side.append(v >= 0)
            self.side.append(v < M)
            return v, 0, M - 1
        lo, hi = self.lb.get(x.get_id(), 0), self.ub.get(x.get_id(), M - 1)
        return self.fresh(0, M - 1) if lo > hi else self.fresh(lo, hi)

    def bits(self, x, hi, lo):
        e, l, h = self.t(x)
        W = hi - lo + 1
        if lo == 0 and h < 1 << W:
            return e, l, h
        if lo == 0:
            return self.wrapv(e, l, h, W)
        r, _, _ = self.fresh(0, (1 << lo) - 1)
        q, ql, qh = self.fresh(l >> lo, h >> lo)
        self.side.append(e == q * (1 << lo) + r)
        if qh < 1 << W:
            return q, ql, qh
        return self.wrapv(q, ql, qh, W)

    def signed(self, x):
        e, l, h = self.t(x)
        w = x.size()
        if h < 1 << (w - 1):
            return e
        if l >= 1 << (w - 1):
            return e - (1 << w)
        b, _, _ = self.fresh(0, 1)
        self.side.append((b == 1) == (e >= 1 << (w - 1)))
        return e - b * (1 << w)

    def b(self, c):
        i = c.get_id()
        r = self.bmemo.get(i)
        if r is None:
            self.keep.append(c)
            r = self._b(c)
            self.bmemo[i] = r
        return r

    def _b(self, c):
        if z3.is_true(c) or z3.is_false(c):
            return c
        k = c.decl().kind()
        ch = c.children()
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.b(x) for x in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.b(x) for x in ch])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bv(ch[0]):
                a, b = self.t(ch[0])[0], self.t(ch[1])[0]
                return a == b if k == z3.Z3_OP_EQ else a != b
            if z3.is_bool(ch[0]):
                a, b = self.b(ch[0]), self.b(ch[1])
                return a == b if k == z3.Z3_OP_EQ else a != b
        if k == z3.Z3_OP_ULEQ:
            return self.t(ch[0])[0] <= self.t(ch[1])[0]
        if k == z3.Z3_OP_ULT:
            return self.t(ch[0])[0] < self.t(ch[1])[0]
        if k == z3.Z3_OP_UGEQ:
            return self.t(ch[0])[0] >= self.t(ch[1])[0]
        if k == z3.Z3_OP_UGT:
            return self.t(ch[0])[0] > self.t(ch[1])[0]
        if k == z3.Z3_OP_SLEQ:
            return self.signed(ch[0]) <= self.signed(ch[1])
        if k == z3.Z3_OP_SLT:
            return self.signed(ch[0]) < self.signed(ch[1])
        if k == z3.Z3_OP_SGEQ:
            return self.signed(ch[0]) >= self.signed(ch[1])
        if k == z3.Z3_OP_SGT:
            return self.signed(ch[0]) > self.signed(ch[1])
        if k in (z3.Z3_OP_BSMUL_NO_OVFL, z3.Z3_OP_BSMUL_NO_UDFL):
            a, b = self.t(ch[0]), self.t(ch[1])
            M = 1 << ch[0].size()
            if a[2] < M // 2 and b[2] < M // 2:
                return self.prod(a, b)[0] < M // 2 if k == z3.Z3_OP_BSMUL_NO_OVFL else z3.BoolVal(True)
        self.n += 1
        return z3.Bool('p%d' % self.n)


def unsat(conj, timeout_ms):
    tr = Tr()
    conj = [z3.simplify(c) for c in conj]
    for c in conj:
        tr.scan(c)
    out = [tr.b(c) for c in conj]
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*tr.side)
    s.add(*tr.lemmas())
    s.add(*out)
    return s.check() == z3.unsat


if __name__ == '__main__':
    import sys
    import time
    for f in sys.argv[1:]:
        cs = list(z3.parse_smt2_file(f))
        t = time.time()
        print(f, unsat(cs, 60000), '%.2f' % (time.time() - t))
