"""zv: forward verification-condition generator over LLVM IR.

Every obligation is generated from the IR of the real code: memory accesses (in bounds, live), signed overflow /
shift / division UB, calls to std::terminate / assertion handlers, uncaught exceptions, and the `ensures` clauses
(zv_assert) of the contract harness.  Loops are cut with inductive invariants (Houdini over templates and hints
given by the harness); calls to functions with a registered contract are replaced by the contract.
"""
import re
import time
import z3
from ir import Module, PTR

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class CutFailed(Unsupported):
    """a loop that cannot be cut; it may still be unrolled when its exit is concrete"""
    def __init__(self, msg, key):
        super().__init__(msg)
        self.key = key


class Budget(Exception):
    pass


class NeedCut(Exception):
    def __init__(self, key):
        self.key = key


class Ptr:
    __slots__ = ('obj', 'off', 'ep')

    def __init__(self, obj, off, ep=0):
        self.obj = obj
        self.off = off
        self.ep = ep

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


NULL = Ptr(None, 0)


def isz(x):
    return isinstance(x, z3.ExprRef)


def simp(x):
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    return x


def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def zb(x):
    """i1 value to z3 Bool"""
    if isinstance(x, (int, bool)):
        return z3.BoolVal(bool(x))
    if z3.is_bool(x):
        return x
    return x == z3.BitVecVal(1, 1)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def add64(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M64
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(bv(a, 64) + bv(b, 64))


def sub64(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & M64
    if isinstance(b, int) and b == 0:
        return a
    return simp(bv(a, 64) - bv(b, 64))


# ---- memory content -------------------------------------------------------------
class BArr:
    __slots__ = ('arr', 'facts')

    def __init__(self, arr, facts=()):
        self.arr = arr
        self.facts = facts      # list of (lo, hi, fn(i)->BV8): forall lo<=i<hi: arr[i]==fn(i)


class BConst:
    __slots__ = ('data', '_z')

    def __init__(self, data):
        self.data = data
        self._z = None

    def z(self):
        if self._z is None:
            a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
            for i, b in enumerate(self.data):
                if b:
                    a = z3.Store(a, i, b)
            self._z = a
        return self._z


class BZero:
    pass


ZERO = BZero()


class BLay:
    __slots__ = ('cells', 'base', 'op', 'off', 'n', 'a', 'b', 'c')

    def __init__(self, cells, base, op, off, n, a=None, b=None, c=None):
        self.cells = cells
        self.base = base
        self.op = op
        self.off = off
        self.n = n
        self.a = a
        self.b = b
        self.c = c


class Obj:
    __slots__ = ('id', 'size', 'cells', 'base', 'live', 'kind', 'name', 'align', 'const', 'ep', 'gen')

    def __init__(self, id, size, base, kind, name, align=1, const=False):
        self.id = id
        self.size = size
        self.cells = {}
        self.base = base
        self.live = True
        self.kind = kind
        self.name = name
        self.align = align
        self.const = const
        self.ep = 0
        self.gen = 0

    def clone(self):
        o = Obj.__new__(Obj)
        o.id, o.size, o.base, o.live, o.kind, o.name, o.align, o.const, o.ep, o.gen = \
            self.id, self.size, self.base, self.live, self.kind, self.name, self.align, self.const, self.ep, self.gen
        o.cells = dict(self.cells)
        return o


class Frame:
    __slots__ = ('func', 'block', 'prev', 'i', 'regs', 'allocas', 'ret', 'cnt', 'byv')

    def __init__(self, func):
        self.func = func
        self.block = func.entry
        self.prev = None
        self.i = 0
        self.regs = {}
        self.allocas = []
        self.ret = None       # (dest, normal_label, unwind_label)
        self.cnt = {}

    def clone(self):
        f = Frame.__new__(Frame)
        f.func, f.block, f.prev, f.i, f.ret = self.func, self.block, self.prev, self.i, self.ret
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.cnt = dict(self.cnt)
        return f


def as_bool(x):
    """c when x is If(c, 1, 0) or 0/1, else None"""
    if z3.is_bv_value(x):
        v = x.as_long()
        return z3.BoolVal(v == 1) if v < 2 else None
    if x.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)):
        a, b = x.arg(1).as_long(), x.arg(2).as_long()
        if (a, b) == (1, 0):
            return x.arg(0)
        if (a, b) == (0, 1):
            return z3.Not(x.arg(0))
    return None


class State:
    __slots__ = ('frames', 'mem', 'own', 'pc', 'model', 'inflight', 'caught', 'inputs', 'wlogs', 'ghost', 'path', 'hints',
                 'addrs', 'lastret', 'seen')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.pc = []
        self.model = None
        self.inflight = None
        self.caught = []
        self.inputs = []
        self.wlogs = []
        self.ghost = {}
        self.path = []
        self.hints = []
        self.addrs = {}
        self.lastret = None
        self.seen = set()

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.pc = list(self.pc)
        s.model = self.model
        s.inflight = self.inflight
        s.caught = list(self.caught)
        s.inputs = list(self.inputs)
        s.wlogs = [set(w) for w in self.wlogs]
        s.ghost = dict(self.ghost)
        s.path = list(self.path)
        s.hints = list(self.hints)
        s.addrs = dict(self.addrs)
        s.lastret = self.lastret
        s.seen = set(self.seen)
        return s


class Slv:
    """prefix-sharing incremental solver with fallbacks"""

    def __init__(self, timeout_ms=15000):
        self.s = z3.Solver()
        self.timeout = timeout_ms
        self.s.set('timeout', min(40, timeout_ms))
        self.stack = []
        self.q = 0
        self.time = 0.0
        self.unknown = 0
        self.slow = 0
        self.deadline = None
        self.fp = False
        self.by = {'z3': 0, 'z3-lia': 0, 'z3-ufbv': 0, 'z3-qfaufbv': 0, 'cvc5': 0}
        self.hpc, self.chain, self.keep = [], [0], []
        self.memo = {}
        self.hits = 0
        self.recent = []
        self.repaired = 0
        self.cmemo = {}

    def consts(self, x):
        i = x.get_id()
        r = self.cmemo.get(i)
        if r is None:
            self.keep.append(x)
            r = set()
            todo, seen = [x], set()
            while todo:
                y = todo.pop()
                if y.get_id() in seen:
                    continue
                seen.add(y.get_id())
                if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(y.decl().name())
                todo.extend(y.children())
            self.cmemo[i] = r
        return r

    def repair(self, pc, extra):
        """a model of the aligned path condition and extra near a recent model: scalars keep their values, those of violated conjuncts excepted"""
        for old in reversed(self.recent):
            free = set(self.consts(extra))
            for c in pc:
                if not z3.is_true(old.eval(c, model_completion=True)):
                    free |= self.consts(c)
            self.s.push()
            for d in old.decls():
                if d.arity() == 0 and d.range().kind() in (z3.Z3_BV_SORT, z3.Z3_BOOL_SORT) and d.name() not in free:
                    self.s.add(d() == old[d])
            self.s.add(extra)
            r = self.s.check()
            m = self.s.model() if r == z3.sat else None
            self.s.pop()
            if m is not None:
                self.repaired += 1
                return m
        return None

    def _chain(self, pc):
        """hash chain over the path condition (answers are reused for the same or a stronger path condition)"""
        h, ch = self.hpc, self.chain
        n, m = 0, min(len(h), len(pc))
        while n < m and h[n] is pc[n]:
            n += 1
        del h[n:]
        del ch[n + 1:]
        for c in pc[n:]:
            self.keep.append(c)
            h.append(c)
            ch.append(hash((ch[-1], c.get_id(), 0x5bd1e995)))
        return ch

    def _align(self, pc):
        n = 0
        st = self.stack
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if n < len(st):
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, extra, want_model=True, quick=False, near=True):
        t = time.time()
        ch = self._chain(pc)
        me = self.memo.get(extra.get_id())
        if me is None:
            self.keep.append(extra)
            me = self.memo[extra.get_id()] = ({}, {})
        for n, h in me[0].items():
            if n < len(ch) and ch[n] in h:
                self.hits += 1
                return z3.unsat, None
        if ch[-1] in me[1] and (me[1][ch[-1]] is not None or not want_model):
            self.hits += 1
            return z3.sat, me[1][ch[-1]]
        self.q += 1
        self._align(pc)
        self.s.push()
        self.s.add(extra)
        r = self.s.check()
        m = None
        if r == z3.sat and want_model:
            m = self.s.model()
        self.s.pop()
        if r == z3.unknown and near and quick:
            m = self.repair(pc, extra)
            if m is not None:
                r = z3.sat
                self.by['z3'] += 1
        if r == z3.unknown:
            r, m = self.fallback(pc, extra, quick)
        else:
            self.by['z3'] += 1
        if r == z3.unsat:
            me[0].setdefault(len(pc), set()).add(ch[-1])
        elif r == z3.sat:
            me[1][ch[-1]] = m
        self.time += time.time() - t
        if m is not None and (not self.recent or self.recent[-1] is not m):
            self.recent = self.recent[-2:] + [m]
        if self.slow and time.time() - t > self.slow:
            print('SLOW %.2f %s pc=%d' % (time.time() - t, r, len(pc)), str(extra)[:300].replace('\n', ' '))
        return r, m

    def left(self, ms):
        if self.deadline is None:
            return ms
        x = (self.deadline - time.time()) * 1000
        if x < 100:
            raise Budget('time')
        return int(min(ms, x))

    def fallback(self, pc, extra, quick=False):
        import lia
        try:
            if lia.unsat(list(pc) + [extra], self.left(1500 if quick else 4000)):
                self.by['z3-lia'] += 1
                return z3.unsat, None
        except z3.Z3Exception:
            pass
        if quick:
            # feasibility only: an undecided branch is explored (sound; its obligations are still checked in full)
            s2 = z3.Solver() if self.fp else z3.SolverFor('QF_AUFBV')
            s2.set('timeout', self.left(1500))
            s2.add(*pc)
            s2.add(extra)
            r = s2.check()
            self.by['z3-qfaufbv'] += 1
            return r, (s2.model() if r == z3.sat else None)
        for name, mk, tmo in (('z3-ufbv', lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'bvarray2uf', 'qfufbv').solver(), 5000),
                              ('z3-qfaufbv', lambda: z3.SolverFor('QF_AUFBV'), self.timeout),
                              ('z3', z3.Solver, self.timeout)):
            if self.fp and name == 'z3-qfaufbv':
                continue        # no floating-point theory there
            try:
                s2 = mk()
                s2.set('timeout', self.left(min(tmo, self.timeout)))
                s2.add(*pc)
                s2.add(extra)
                r = s2.check()
                if r == z3.unsat:
                    self.by[name] += 1
                    return r, None
                if r == z3.sat and name != 'z3-ufbv':
                    self.by[name] += 1
                    return r, s2.model()
            except z3.Z3Exception:
                pass
        r = self.cvc5(pc, extra)
        if r is not None:
            self.by['cvc5'] += 1
            return r, None
        self.unknown += 1
        return z3.unknown, None

    def cvc5(self, pc, extra):
        import subprocess
        s2 = z3.Solver()
        s2.add(*pc)
        s2.add(extra)
        txt = '(set-logic ALL)\n' + s2.to_smt2()
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % self.left(self.timeout)], input=txt, capture_output=True, text=True,
                               timeout=self.timeout / 1000 * 2 + 5).stdout
        except Exception:
            return None
        if 'unsat' in o:
            return z3.unsat
        return None


class Fail:
    def __init__(self, label, kind, model, st, where, exact):
        self.label = label
        self.kind = kind
        self.where = where
        self.model = model
        self.inputs = list(st.inputs)
        self.pc = list(st.pc)
        self.path = list(st.path)
        self.exact = exact
        self.neg = None


class Engine:
    def __init__(self, mod, contracts=None, max_paths=20000, timeout_ms=15000, deadline=None, log=None,
                 bounded=None, cutset=None, max_fail=6, max_call=160):
        self.mod = mod
        self.contracts = contracts or {}
        self.slv = Slv(timeout_ms)
        self.nid = 1
        self.nfresh = 0
        self.gobj = {}
        self.initmem = {}
        self.mode = 'real'
        self.obl = {}          # label -> [checked, trivially true]
        self.nobl = 0
        self.ntriv = 0
        self.fails = []
        self.failkeys = set()
        self.unknowns = []
        self.covers = set()
        self.funcs_run = set()
        self.used_contracts = set()
        self.externs = set()
        self.cutset = cutset if cutset is not None else set()
        self.nocut = set()
        self.bounded = bounded     # None or max symbolic iterations
        self.truncated = 0
        self.maxpaths = max_paths
        self.npaths = 0
        self.deadline = deadline
        self.slv.deadline = deadline
        self.log = log
        self.loops_cut = {}
        self.term = set()
        self.noterm = set()
        self.max_fail = max_fail
        self.max_call = max_call
        self.typeids = {}
        self.reports = []
        self.incut = 0
        self.pins = {}
        self.ufs = {}
        self.steps = 0
        self.uf_decls = {}

    # ---- fresh -----------------------------------------------------------------
    def fresh(self, name, w):
        self.nfresh += 1
        return z3.BitVec('%s!%d' % (name, self.nfresh), w)

    def freshbool(self, name):
        self.nfresh += 1
        return z3.Bool('%s!%d' % (name, self.nfresh))

    def fresharr(self, name):
        self.nfresh += 1
        return z3.Array('%s!%d' % (name, self.nfresh), z3.BitVecSort(64), z3.BitVecSort(8))

    def undef(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'i':
            return self.freshbool('undef') if t[1] == 1 else self.fresh('undef', t[1])
        if t[0] == 'f':
            return self.fresh('undef', t[1])
        if t[0] == 'ptr':
            return Ptr('wild', 0)
        if t[0] == 'struct':
            return [self.undef(f) for f in t[1]]
        if t[0] == 'arr':
            return [self.undef(t[2]) for _ in range(t[1])]
        raise Unsupported('undef %r' % (t,))

    # ---- path condition ----------------------------------------------------------
    def assume(self, st, c):
        """add constraint; returns False if syntactically false"""
        if isinstance(c, (bool, int)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        st.pc.append(c)
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if not z3.is_true(v):
                st.model = None
        return True

    def feasible(self, st):
        if st.model is not None:
            return True
        r, m = self.slv.check(st.pc, z3.BoolVal(True), quick=True)
        if r == z3.unsat:
            return False
        st.model = m
        return True

    def may(self, st, c):
        """is pc & c satisfiable (unknown counts as yes); returns (bool, model)"""
        if isinstance(c, (bool, int)):
            return bool(c), st.model
        c = z3.simplify(c)
        if z3.is_true(c):
            return True, st.model
        if z3.is_false(c):
            return False, None
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)):
            return True, st.model
        r, m = self.slv.check(st.pc, c, quick=True)
        return r != z3.unsat, m

    def must(self, st, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        if st.model is not None and z3.is_false(st.model.eval(c, model_completion=True)):
            return False
        return self.slv.check(st.pc, z3.Not(c))[0] == z3.unsat

    def prove(self, st, c, label, kind='ensures'):
        """obligation: pc => c.  Afterwards c is assumed.  Returns False if the path is dead."""
        if isinstance(c, (bool, int)):
            c = z3.BoolVal(bool(c))
        c = z3.simplify(c)
        if self.mode != 'real':
            if z3.is_false(c):
                return False
            if not z3.is_true(c):
                st.pc.append(c)
                if st.model is not None and not z3.is_true(st.model.eval(c, model_completion=True)):
                    st.model = None
                    return self.feasible(st)
            return True
        self.nobl += 1
        o = self.obl.setdefault((kind, label), [0, 0])
        o[0] += 1
        if z3.is_true(c):
            self.ntriv += 1
            o[1] += 1
            return True
        neg = z3.Not(c)
        r, m = None, None
        if st.model is not None and z3.is_false(st.model.eval(c, model_completion=True)):
            r, m = z3.sat, st.model
        else:
            r, m = self.slv.check(st.pc, neg, near=False)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.unknowns.append((label, kind, self.where(st)))
        else:
            self.fail(st, label, kind, m, neg)
        if z3.is_false(c):
            return False
        st.pc.append(c)
        st.model = None
        return self.feasible(st)

    def where(self, st):
        out = []
        for f in st.frames[-4:]:
            out.append('%s:%s' % (f.func.name, f.block))
        return ' > '.join(out)

    def fail(self, st, label, kind, model, neg):
        fr = st.frames[-1] if st.frames else None
        key = (label, kind, fr.func.name if fr else '', fr.block if fr else '')
        if key in self.failkeys and len(self.fails) >= 2:
            return
        self.failkeys.add(key)
        f = Fail(label, kind, model, st, self.where(st), exact=(self.incut == 0 and 'cut' not in st.ghost))
        f.neg = neg
        self.fails.append(f)
        if self.log:
            self.log('FAIL %s [%s] at %s exact=%s' % (label, kind, f.where, f.exact))

    # ---- objects ------------------------------------------------------------------
    def newobj(self, st, size, base, kind, name, align=1, const=False):
        self.nid += 1
        o = Obj(self.nid, size, base, kind, name, align, const)
        st.mem[o.id] = o
        st.own.add(o.id)
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if oid not in st.own:
            o = o.clone()
            st.mem[oid] = o
            st.own.add(oid)
        return o

    def addr(self, st, oid):
        if isinstance(oid, tuple):      # function
            oid2 = ('fn',) + oid
        o = st.mem.get(oid)
        key = (oid, o.gen if o else 0)
        a = st.addrs.get(key)
        if a is None:
            a = z3.BitVec('addr_%s_%s' % (oid if not isinstance(oid, tuple) else oid[1], key[1]), 64)
            st.addrs[key] = a
            al = o.align if o else 16
            c = [z3.UGT(a, 4095), z3.ULT(a, 1 << 47)]
            if al > 1:
                c.append(a & (al - 1) == 0)
            if o is not None:
                c.append(z3.ULT(a + bv(o.size, 64), 1 << 47))
                if o.live:
                    for (oid2, gen2), a2 in list(st.addrs.items()):
                        o2 = st.mem.get(oid2)
                        if o2 is None or oid2 == oid or not o2.live or gen2 != o2.gen:
                            continue
                        c.append(z3.Or(z3.ULT(a + bv(o.size, 64), a2), z3.ULT(a2 + bv(o2.size, 64), a)))
            for x in c:
                st.pc.append(z3.simplify(x))
            st.model = None
        return a

    def ptr2int(self, st, p):
        if p.obj is None:
            return p.off
        return simp(bv(self.addr(st, p.obj), 64) + bv(p.off, 64))

    def global_ptr(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs_src or name in self.mod.decls:
            return Ptr(('fn', name), 0)
        oid = self.gobj.get(name)
        if oid is None:
            self.nid += 1
            oid = self.nid
            self.gobj[name] = oid
            g = self.mod.get_global(name)
            if g is None:
                raise Unsupported('global ' + name)
            const, t, init = g
            size = self.mod.sizeof(t)
            base = BArr(self.fresharr('glob_' + name)) if init is None else ZERO
            if init is not None and init[0] == 'bytes':
                base = BConst(init[1])
            o = Obj(oid, size, base, 'global', name, 16, const)
            self.initmem[oid] = o
            if init is not None and init[0] != 'bytes':
                self._init(st, o, 0, t, init)
                if t[0] == 'arr' and t[2] == ('i', 8) or all(isinstance(v[1], int) for v in o.cells.values()) and o.cells:
                    # flatten integer tables
                    b = bytearray(size)
                    for k, (s, v) in o.cells.items():
                        b[k:k + s] = v.to_bytes(s, 'little')
                    o.base = BConst(bytes(b))
                    if size > 64:
                        o.cells = {}
        self._mat(st, oid)
        return Ptr(oid, 0)

    def _mat(self, st, oid):
        if oid not in st.mem:
            st.mem[oid] = self.initmem[oid]
            for _, v in self.initmem[oid].cells.values():
                if isinstance(v, Ptr) and v.obj in self.initmem:
                    self._mat(st, v.obj)

    def _init(self, st, o, off, t, v):
        t = self.mod.resolve(t)
        k = v[0]
        if k in ('zero', 'undef', 'null'):
            if k == 'null':
                o.cells[off] = (8, NULL)
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if t[0] == 'struct':
                offs = self.mod.fields(t)
                for (ft, fv), fo in zip(v[1], offs):
                    self._init(st, o, off + fo, ft, fv)
            else:
                es = self.mod.sizeof(t[2])
                for i, (ft, fv) in enumerate(v[1]):
                    self._init(st, o, off + i * es, ft, fv)
            return
        o.cells[off] = (self.mod.sizeof(t), self.val(st, None, t, v))

    # ---- byte-level reads -------------------------------------------------------------
    def vbyte(self, st, val, size, d):
        if isinstance(val, Ptr):
            val = self.ptr2int(st, val)
        if isinstance(val, int):
            return (val >> (8 * d)) & 0xff
        if z3.is_bool(val):
            return z3.If(val, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if d == 0 else 0
        if val.size() == 8:
            return val
        return simp(z3.Extract(8 * d + 7, 8 * d, val))

    def rel(self, st, off, n, o2, n2):
        """relation of [off,off+n) to [o2,o2+n2): 'in','out','?'.  n is int"""
        if isinstance(off, int) and isinstance(o2, int) and isinstance(n2, int):
            if off >= o2 and off + n <= o2 + n2:
                return 'in'
            if off + n <= o2 or o2 + n2 <= off:
                return 'out'
            return '?'
        d = sub64(off, o2)
        if isinstance(d, int) and isinstance(n2, int):
            if d + n <= n2:
                return 'in'
            if d >= n2 and (-d & M64) >= n:
                return 'out'
            return '?'
        d = bv(d, 64)
        nn = z3.BitVecVal(n, 64)
        n2 = bv(n2, 64)
        cin = z3.And(z3.ULE(nn, n2), z3.ULE(d, n2 - nn))
        cout = z3.And(z3.UGE(d, n2), z3.UGE(-d, nn))
        # try the side allowed by the model first
        if st.model is not None:
            if z3.is_true(st.model.eval(cin, model_completion=True)):
                return 'in' if self.must(st, cin) else '?'
            if z3.is_true(st.model.eval(cout, model_completion=True)):
                return 'out' if self.must(st, cout) else '?'
            return '?'
        if self.must(st, cout):
            return 'out'
        if self.must(st, cin):
            return 'in'
        return '?'

    def unique(self, st, off):
        """the value of a term that the path condition pins down, else None"""
        if st.model is None and not self.feasible(st) or st.model is None:
            return None
        v = st.model.eval(off, model_completion=True)
        if not z3.is_bv_value(v):
            return None
        c = z3.simplify(off == v)
        if z3.is_true(c):
            return v.as_long()
        return v.as_long() if not z3.is_false(c) and self.slv.check(st.pc, z3.Not(c), quick=True)[0] == z3.unsat else None

    def pin(self, st, site, p):
        """the pointer with its offset replaced by the only value it can have, where that tends to work"""
        if not isz(p.off) or not isinstance(p.obj, int):
            return p
        w = self.pins.setdefault(site, [0, 0])
        if w[1] >= 3 and w[1] > 2 * w[0]:
            return p
        u = self.unique(st, p.off)
        w[0 if u is not None else 1] += 1
        return p if u is None else Ptr(p.obj, u, p.ep)

    def rd(self, st, cells, base, off, n):
        if isinstance(off, int):
            if not cells:
                return self.rdb(st, base, off, n)
            out = [None] * n
            i = 0
            seg = None
            for i in range(n):
                o = off + i
                for d in range(16):
                    c = cells.get(o - d)
                    if c is not None and c[0] > d:
                        out[i] = self.vbyte(st, c[1], c[0], d)
                        break
            i = 0
            while i < n:
                if out[i] is None:
                    j = i
                    while j < n and out[j] is None:
                        j += 1
                    out[i:j] = self.rdb(st, base, off + i, j - i)
                    i = j
                else:
                    i += 1
            return out
        if not cells:
            return self.rdb(st, base, off, n)
        u = self.unique(st, off)
        if u is not None:
            return self.rd(st, cells, base, u, n)
        lo = min(cells)
        hi = max(k + c[0] for k, c in cells.items())
        if self.rel(st, off, n, lo, hi - lo) == 'out':
            return self.rdb(st, base, off, n)
        res = self.rdb(st, base, off, n)
        out = []
        for i in range(n):
            r = res[i]
            oi = add64(off, i)
            for s, (sz, v) in sorted(cells.items()):
                for d in range(sz):
                    r = z3.If(bv(oi, 64) == s + d, bv(self.vbyte(st, v, sz, d), 8), bv(r, 8))
            out.append(simp(r))
        return out

    def rdb(self, st, base, off, n):
        if isinstance(base, BArr):
            out = []
            for i in range(n):
                ix = add64(off, i)
                s = z3.Select(base.arr, bv(ix, 64))
                out.append(s)
                for (lo, hi, fn) in base.facts:
                    key = (s.get_id(), id(fn))
                    if key in st.seen:
                        continue
                    st.seen.add(key)
                    z = bv(ix, 64)
                    v = fn(st, z)
                    if v is not None:
                        self.assume(st, z3.Implies(z3.And(z3.ULE(bv(lo, 64), z), z3.ULT(z, bv(hi, 64))), s == bv(v, 8)))
            return out
        if base is ZERO:
            return [0] * n
        if isinstance(base, BConst):
            if isinstance(off, int):
                return [base.data[off + i] if off + i < len(base.data) else 0 for i in range(n)]
            if len(base.data) <= 512:
                return [self.mux(base.data, bv(add64(off, i), 64)) for i in range(n)]
            return [z3.Select(base.z(), bv(add64(off, i), 64)) for i in range(n)]
        # layer
        r = self.rel(st, off, n, base.off, base.n)
        if r == 'out':
            return self.rd(st, base.cells, base.base, off, n)
        if r == 'in':
            return self.rdl(st, base, off, n)
        if n > 1:
            out = []
            for i in range(n):
                out += self.rdb(st, base, add64(off, i), 1)
            return out
        a = self.rd(st, base.cells, base.base, off, 1)[0]
        b = self.rdl(st, base, off, 1)[0]
        d = bv(sub64(off, base.off), 64)
        return [simp(z3.If(z3.ULT(d, bv(base.n, 64)), bv(b, 8), bv(a, 8)))]

    def mux(self, data, ix):
        """table lookup as a decision tree on the index bits (the bounds of the access are a separate obligation)"""
        nb = max(1, (len(data) - 1).bit_length())
        data = bytes(data) + bytes((1 << nb) - len(data))
        bit = [z3.simplify(z3.Extract(b, b, ix) == 1) for b in range(nb)]
        memo = {}

        def go(b, d):
            if len(set(d)) == 1:
                return z3.BitVecVal(d[0], 8)
            r = memo.get((b, d))
            if r is None:
                h = len(d) // 2
                r = memo[(b, d)] = z3.If(bit[b], go(b - 1, d[h:]), go(b - 1, d[:h]))
            return r
        return simp(go(nb - 1, data))

    def rdl(self, st, base, off, n):
        d = sub64(off, base.off)
        if base.op == 'fill':
            return [base.a] * n
        if base.op == 'fn':
            return [base.a(bv(add64(off, i), 64)) for i in range(n)]
        if base.op == 'st':
            out = []
            for i in range(n):
                di = add64(d, i)
                if isinstance(di, int):
                    out.append(self.vbyte(st, base.a, base.n, di) if di < base.n else 0)
                else:
                    r = self.vbyte(st, base.a, base.n, 0)
                    for j in range(1, base.n):
                        r = z3.If(di == j, bv(self.vbyte(st, base.a, base.n, j), 8), bv(r, 8))
                    out.append(r)
            return out
        # copy: a=cells b=base c=soff
        return self.rd(st, base.a, base.b, add64(d, base.c), n)

    def join(self, bs):
        if all(isinstance(b, int) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return v
        if len(bs) == 1:
            return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def read(self, st, o, off, size, want_ptr=False):
        """raw read of `size` bytes; returns int/BV of size*8, or Ptr"""
        if isinstance(off, int):
            c = o.cells.get(off)
            if c is not None and c[0] == size:
                return c[1]
        v = self.rdwide(st, o.cells, o.base, off, size)
        if v is not None:
            return v
        return self.join(self.rd(st, o.cells, o.base, off, size))

    def rdwide(self, st, cells, base, off, size):
        """try to find an exactly matching stored value through copy layers (keeps pointers intact)"""
        if size not in (1, 2, 4, 8):
            return None
        while True:
            if isinstance(off, int):
                c = cells.get(off)
                if c is not None and c[0] == size:
                    return c[1]
                if c is not None:
                    return None
                for d in range(1, 16):
                    c = cells.get(off - d)
                    if c is not None and c[0] > d:
                        return None
                for d in range(1, size):
                    if off + d in cells:
                        return None
            elif cells:
                lo = min(cells)
                hi = max(k + c[0] for k, c in cells.items())
                if self.rel(st, off, size, lo, hi - lo) != 'out':
                    # symbolic index into pointer cells is not resolved here
                    return None
            if not isinstance(base, BLay):
                return None
            r = self.rel(st, off, size, base.off, base.n)
            if r == 'out':
                cells, base = base.cells, base.base
                continue
            if r == 'in':
                if base.op == 'cp':
                    off = add64(sub64(off, base.off), base.c)
                    cells, base = base.a, base.b
                    continue
                if base.op == 'st' and base.n == size and sub64(off, base.off) == 0:
                    return base.a
            return None

    def wlog(self, st, oid, off, n):
        if st.wlogs:
            e = (oid, off, n) if isinstance(off, int) and isinstance(n, int) else (oid, None, None)
            for w in st.wlogs:
                w.add(e)

    def write(self, st, oid, off, size, val):
        o = self.wobj(st, oid)
        self.wlog(st, oid, off, size)
        if isinstance(off, int):
            self.clear(st, o, off, size)
            o.cells[off] = (size, val)
        else:
            o.base = BLay(o.cells, o.base, 'st', off, size, val)
            o.cells = {}

    def clear(self, st, o, off, n):
        """remove cells overlapping concrete range, splitting partial ones"""
        cells = o.cells
        if n <= 64:
            cand = [k for k in range(off - 15, off + n) if k in cells]
        else:
            cand = [k for k in cells if off - 15 <= k < off + n]
        for k in cand:
            s, v = cells[k]
            if k + s <= off or k >= off + n:
                continue
            del cells[k]
            if k < off or k + s > off + n:
                for d in range(s):
                    if k + d < off or k + d >= off + n:
                        cells[k + d] = (1, self.vbyte(st, v, s, d))

    def copyrange(self, st, dst, doff, src, soff, n):
        """memmove content semantics (bounds already proved)"""
        if isinstance(n, int) and n == 0:
            return
        so = st.mem[src]
        scells, sbase = dict(so.cells), so.base
        o = self.wobj(st, dst)
        self.wlog(st, dst, doff, n)
        if isinstance(n, int) and isinstance(doff, int) and isinstance(soff, int):
            self.clear(st, o, doff, n)
            covered = 0
            new = {}
            for k, (s, v) in scells.items():
                if k >= soff and k + s <= soff + n:
                    new[doff + k - soff] = (s, v)
                    covered += s
                elif k < soff + n and k + s > soff:
                    for d in range(s):
                        if soff <= k + d < soff + n:
                            new[doff + k + d - soff] = (1, self.vbyte(st, v, s, d))
                            covered += 1
            if covered < n:
                o.base = BLay({}, o.base, 'cp', doff, n, {}, sbase, soff)
            o.cells.update(new)
            return
        o.base = BLay(o.cells, o.base, 'cp', doff, n, scells, sbase, soff)
        o.cells = {}

    def fillrange(self, st, dst, off, n, byte):
        if isinstance(n, int) and n == 0:
            return
        o = self.wobj(st, dst)
        self.wlog(st, dst, off, n)
        if isinstance(off, int) and isinstance(n, int):
            self.clear(st, o, off, n)
            if n <= 16:
                for i in range(n):
                    o.cells[off + i] = (1, byte)
            else:
                o.base = BLay({}, o.base, 'fill', off, n, byte)
            return
        o.base = BLay(o.cells, o.base, 'fill', off, n, byte)
        o.cells = {}

    # ---- access checks ------------------------------------------------------------------
    def access(self, st, p, n, what, write=False):
        """obligation: [p,p+n) valid. Returns False if path dead"""
        if isinstance(n, int) and n == 0:
            return True
        if not isinstance(p, Ptr):
            raise Unsupported('access through integer')
        if p.obj is None or p.obj == 'wild' or isinstance(p.obj, tuple):
            if isinstance(n, int):
                return self.prove(st, False, 'invalid pointer ' + what, 'memory')
            return self.prove(st, n == 0, 'invalid pointer ' + what, 'memory')
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported('no object')
        if not o.live or (p.ep != o.ep):
            return self.prove(st, False if isinstance(n, int) else n == 0, 'use after free/scope ' + what, 'memory')
        if write and o.const:
            return self.prove(st, False, 'write to constant ' + what, 'memory')
        off = p.off
        if isinstance(off, int) and isinstance(n, int) and isinstance(o.size, int):
            ok = off + n <= o.size
            if ok:
                self.nobl += self.mode == 'real'
                self.ntriv += self.mode == 'real'
                return True
            return self.prove(st, False, 'out of bounds ' + what, 'memory')
        offz, nz, sz = bv(off, 64), bv(n, 64), bv(o.size, 64)
        c = z3.And(z3.ULE(nz, sz), z3.ULE(offz, sz - nz))
        if not isinstance(n, int):
            c = z3.Or(nz == 0, c)
        return self.prove(st, c, 'out of bounds ' + what, 'memory')

    def load(self, st, p, t):
        t = self.mod.resolve(t)
        if t[0] == 'struct':
            return [self.load(st, Ptr(p.obj, add64(p.off, fo), p.ep), ft) for ft, fo in zip(t[1], self.mod.fields(t))]
        if t[0] == 'arr':
            es = self.mod.sizeof(t[2])
            return [self.load(st, Ptr(p.obj, add64(p.off, i * es), p.ep), t[2]) for i in range(t[1])]
        n = self.mod.sizeof(t)
        if t == ('f', 80):
            n = 10
        o = st.mem[p.obj]
        v = self.read(st, o, p.off, n)
        if t[0] == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int):
                return Ptr(None, v)
            return self.int2ptr(st, v)
        if isinstance(v, Ptr):
            v = self.ptr2int(st, v)
        if t[0] == 'i':
            if t[1] == 1:
                if isinstance(v, int):
                    return v & 1
                if z3.is_bool(v):
                    return v
                return z3.Extract(0, 0, v) == 1
            if isz(v) and z3.is_bool(v):
                v = bv(v, t[1])
            if isz(v) and v.size() > t[1]:
                v = z3.Extract(t[1] - 1, 0, v)
            elif isinstance(v, int):
                v &= (1 << t[1]) - 1
        return v

    def store(self, st, p, t, v):
        t = self.mod.resolve(t)
        if t[0] == 'struct':
            for ft, fo, fv in zip(t[1], self.mod.fields(t), v):
                self.store(st, Ptr(p.obj, add64(p.off, fo), p.ep), ft, fv)
            return
        if t[0] == 'arr':
            es = self.mod.sizeof(t[2])
            for i, fv in enumerate(v):
                self.store(st, Ptr(p.obj, add64(p.off, i * es), p.ep), t[2], fv)
            return
        n = self.mod.sizeof(t)
        if t[0] == 'i' and t[1] == 1 and isz(v):
            v = bv(v, 8)
        if t[0] == 'i' and t[1] not in (1, 8, 16, 32, 64, 128) and isz(v):
            v = z3.ZeroExt(n * 8 - t[1], v)
        if t == ('f', 80):
            n = 10
        self.write(st, p.obj, p.off, n, v)

    def int2ptr(self, st, v):
        if isinstance(v, int):
            return Ptr(None, v)
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return Ptr(None, v.as_long())
        # match addr_obj + off
        for (oid, gen), a in st.addrs.items():
            d = z3.simplify(v - a)
            ids = str(d)
            if 'addr_' not in ids:
                o = st.mem.get(oid)
                return Ptr(oid, simp(d), o.ep if o else 0)
        return Ptr('wild', 0)

    # ---- operand evaluation --------------------------------------------------------------
    def val(self, st, fr, t, v):
        k = v[0]
        if k == 'l':
            return fr.regs[v[1]]
        if k == 'c':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'undef':
            return self.undef(t)
        if k == 'zero':
            t = self.mod.resolve(t)
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'struct':
                return [self.val(st, fr, f, v) for f in t[1]]
            if t[0] == 'arr':
                return [self.val(st, fr, t[2], v) for _ in range(t[1])]
            return 0
        if k == 'agg':
            return [self.val(st, fr, et, ev) for et, ev in v[1]]
        if k == 'gep':
            return self.gep(st, fr, v[1], self.val(st, fr, PTR, v[2]), v[3])
        if k == 'cast':
            return self.cast(st, v[1], v[2], self.val(st, fr, v[2], v[3]), v[4])
        if k == 'bin':
            return self.binop(st, v[1], v[2], self.val(st, fr, v[2], v[3]), self.val(st, fr, v[2], v[4]), ())
        if k == 'bytes':
            return list(v[1])
        raise Unsupported('operand %r' % (v,))

    def gep(self, st, fr, t, base, idx):
        off = 0
        first = True
        t0 = t
        for it, iv in idx:
            x = self.val(st, fr, it, iv)
            w = it[1]
            if first:
                off = self._acc(off, x, w, self.mod.sizeof(t0))
                first = False
                cur = t0
                continue
            cur = self.mod.resolve(cur)
            if cur[0] == 'struct':
                off = add64(off, self.mod.fields(cur)[x])
                cur = cur[1][x]
            else:
                cur = cur[2]
                off = self._acc(off, x, w, self.mod.sizeof(cur))
        if not isinstance(base, Ptr):
            raise Unsupported('gep base')
        if isinstance(off, int) and off == 0:
            return base
        return Ptr(base.obj, add64(base.off, off), base.ep)

    def _acc(self, off, x, w, sz):
        if isinstance(x, int):
            return add64(off, (sgn(x, w) * sz) & M64)
        if z3.is_bool(x):
            x = bv(x, w)
        if w < 64:
            x = z3.SignExt(64 - w, x)
        return add64(off, simp(x * sz) if sz != 1 else x)

    def cast(self, st, op, t1, v, t2):
        t1, t2 = self.mod.resolve(t1), self.mod.resolve(t2)
        if op == 'ptrtoint':
            r = self.ptr2int(st, v)
            if t2[1] < 64:
                return r & ((1 << t2[1]) - 1) if isinstance(r, int) else z3.Extract(t2[1] - 1, 0, r)
            return r
        if op == 'inttoptr':
            return self.int2ptr(st, v)
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'trunc':
            w = t2[1]
            if isinstance(v, int):
                return v & ((1 << w) - 1)
            if w == 1:
                return z3.Extract(0, 0, v) == 1
            return simp(z3.Extract(w - 1, 0, v))
        if op == 'zext':
            if isinstance(v, int):
                return v
            if z3.is_bool(v):
                return bv(v, t2[1])
            return z3.ZeroExt(t2[1] - t1[1], v)
        if op == 'sext':
            w1, w2 = t1[1], t2[1]
            if isinstance(v, int):
                return sgn(v, w1) & ((1 << w2) - 1)
            if z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2))
            return z3.SignExt(w2 - w1, v)
        if op in ('fpext', 'fptrunc'):
            x = self.tofp(v, t1[1])
            return self.frfp(z3.fpFPToFP(z3.RNE(), x, fpsort(t2[1])), t2[1])
        if op in ('sitofp', 'uitofp'):
            if isz(v) and z3.is_bool(v):
                v = bv(v, 8) if op == 'uitofp' else z3.If(v, z3.BitVecVal(-1, 8), z3.BitVecVal(0, 8))
            x = bv(v, t1[1]) if isinstance(v, int) else v
            f = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
            return self.frfp(f(z3.RNE(), x, fpsort(t2[1])), t2[1])
        if op in ('fptosi', 'fptoui'):
            f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
            return simp(f(z3.RTZ(), self.tofp(v, t1[1]), z3.BitVecSort(t2[1])))
        raise Unsupported('cast ' + op)

    def tofp(self, v, w):
        if w == 80:
            raise Unsupported('x86_fp80')
        if not isinstance(v, int):
            self.slv.fp = True
        return z3.fpBVToFP(bv(v, w), fpsort(w))

    def frfp(self, f, w):
        return simp(z3.fpToIEEEBV(f))

    def exactdiv(self, st, op, t, a, b):
        """(b * e) / b is e when the product provably does not wrap (element counts from pointer differences)"""
        w = t[1]
        if t[0] != 'i' or not 1 < b < 1 << (w - 1) or a.decl().kind() != z3.Z3_OP_BMUL or not z3.is_bv_value(a.arg(0)):
            return None
        c = a.arg(0).as_long()
        if c == 0 or c % b or c >= 1 << (w - 1):
            return None
        ch = a.children()[1:]
        # without wrap-around when the widened product stays in range; factors must be small for this to be evident
        e = ch[0]
        for x in ch[1:]:
            e = e * x
        if c != b:
            return None
        lim = ((1 << (w - 1)) - 1) // c
        return simp(e) if self.must(st, z3.ULE(e, lim)) else None

    def binop(self, st, op, t, a, b, flags):
        t = self.mod.resolve(t)
        if t[0] == 'f':
            x, y = self.tofp(a, t[1]), self.tofp(b, t[1])
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
            if not f:
                raise Unsupported(op)
            return self.frfp(f(z3.RNE(), x, y), t[1])
        if t[0] != 'i':
            raise Unsupported('binop on %r' % (t,))
        w = t[1]
        mask = (1 << w) - 1
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('ptr arith')
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & mask
            if op == 'sub':
                return (a - b) & mask
            if op == 'mul':
                return (a * b) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mask if b < w else self.fresh('poison', w)
            if op == 'lshr':
                return a >> b if b < w else self.fresh('poison', w)
            if op == 'ashr':
                return (sgn(a, w) >> b) & mask if b < w else self.fresh('poison', w)
            if op == 'udiv' and b:
                return a // b
            if op == 'urem' and b:
                return a % b
            if op in ('sdiv', 'srem') and b:
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & mask
            return 0
        if w == 1:
            x, y = zb(a), zb(b)
            if op == 'and':
                return simpb(z3.And(x, y))
            if op == 'or':
                return simpb(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'):
                return simpb(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        x, y = bv(a, w), bv(b, w)
        if op in ('and', 'or', 'xor'):      # logic on widened booleans stays boolean
            p, q = as_bool(x), as_bool(y)
            if p is not None and q is not None:
                c = z3.And(p, q) if op == 'and' else z3.Or(p, q) if op == 'or' else z3.Xor(p, q)
                return simp(z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        elif op == 'udiv':
            r = z3.UDiv(x, y)
        elif op == 'urem':
            r = z3.URem(x, y)
        elif op == 'sdiv':
            r = x / y
        elif op == 'srem':
            r = z3.SRem(x, y)
        else:
            raise Unsupported(op)
        if op in ('shl', 'lshr', 'ashr') and not (isinstance(b, int) and b < w):
            r = z3.If(z3.ULT(y, w), r, self.fresh('poison', w))
        return simp(r)

    def icmp(self, st, pr, t, a, b):
        t = self.mod.resolve(t)
        if t[0] == 'ptr':
            return self.pcmp(st, pr, a, b)
        w = t[1]
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pr])
        if w == 1:
            x, y = zb(a), zb(b)
            if pr == 'eq':
                return simpb(x == y)
            if pr == 'ne':
                return simpb(x != y)
            x, y = bv(a, 1), bv(b, 1)
        else:
            x, y = bv(a, w), bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pr]()
        return simpb(r)

    def pcmp(self, st, pr, a, b):
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('ptr compare with int')
        if a.obj == b.obj:
            x, y = a.off, b.off
            if isinstance(x, int) and isinstance(y, int):
                if pr not in ('eq', 'ne') and a.obj is not None:
                    x, y = sgn(x, 64), sgn(y, 64)
                return int({'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y}[pr])
            x, y = bv(x, 64), bv(y, 64)
            # offsets within one object: compared as signed displacements from the (non-wrapping) base address
            return simpb({'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: x > y, 'uge': lambda: x >= y,
                          'ult': lambda: x < y, 'ule': lambda: x <= y}[pr]())
        if pr == 'eq':
            return 0
        if pr == 'ne':
            return 1
        if a.obj == 'wild' or b.obj == 'wild':
            return self.freshbool('wildcmp')
        # relational comparison of different objects: unspecified but consistent -> compare addresses
        x, y = bv(self.ptr2int(st, a), 64), bv(self.ptr2int(st, b), 64)
        return simpb({'ugt': z3.UGT(x, y), 'uge': z3.UGE(x, y), 'ult': z3.ULT(x, y), 'ule': z3.ULE(x, y)}[pr])

    def fcmp(self, pr, t, a, b):
        x, y = self.tofp(a, t[1]), self.tofp(b, t[1])
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if pr == 'ord':
            return simpb(z3.Not(un))
        if pr == 'uno':
            return simpb(un)
        k = pr[1:]
        if k == 'ne':
            c = z3.Not(z3.fpEQ(x, y))
            return simpb(z3.And(z3.Not(un), c) if pr[0] == 'o' else z3.Or(un, c))
        c = base[k](x, y)
        return simpb(c if pr[0] == 'o' else z3.Or(un, c))

    # ---- execution -----------------------------------------------------------------------
    def start(self, fname, args=()):
        st = State()
        f = self.mod.get_func(fname)
        if f is None:
            raise Unsupported('no function ' + fname)
        fr = Frame(f)
        for (nm, t), a in zip(f.params, args):
            fr.regs[nm] = a
        st.frames.append(fr)
        return st

    def verify(self, fname):
        st = self.start(fname)
        for kind, s in self.run([st], None):
            pass

    def run(self, stack, stop):
        """explore; returns list of (event, state) for stop events / ('done', state)"""
        events = []
        while stack:
            st = stack.pop()
            try:
                self.path(st, stack, events, stop)
            except NeedCut:
                raise
            if self.deadline and time.time() > self.deadline:
                raise Budget('time')
        return events

    def end_path(self, st, events, kind):
        self.npaths += 1
        if self.npaths > self.maxpaths:
            raise Budget('paths')
        events.append((kind, st))

    def path(self, st, stack, events, stop):
        """run st until it ends; forks go on the stack"""
        if st.inflight is not None and st.ghost.get('unw'):
            del st.ghost['unw']
            if not self.unwind(st, events, stop, stack):
                return
        if st.ghost.get('resume'):
            tgt = st.ghost.pop('resume')
            if not self.enter(st, tgt, stack, events, stop):
                return
        while True:
            fr = st.frames[-1]
            insts = fr.func.block(fr.block)
            ins = insts[fr.i]
            fr.i += 1
            self.steps += 1
            if self.steps & 1023 == 0 and self.deadline and time.time() > self.deadline:
                raise Budget('time')
            r = self.step(st, fr, ins, stack, events, stop)
            if r is False:
                return

    def step(self, st, fr, ins, stack, events, stop):
        op = ins[0]
        regs = fr.regs
        if op == 'load':
            p = self.val(st, fr, PTR, ins[3])
            n = self.mod.sizeof(ins[2])
            if not self.access(st, p, n, 'load'):
                return False
            regs[ins[1]] = self.load(st, self.pin(st, id(ins), p) if isz(p.off) else p, ins[2])
            return True
        if op == 'store':
            p = self.val(st, fr, PTR, ins[4])
            v = self.val(st, fr, ins[2], ins[3])
            if not self.access(st, p, self.mod.sizeof(ins[2]), 'store', True):
                return False
            self.store(st, self.pin(st, id(ins), p) if isz(p.off) else p, ins[2], v)
            return True
        if op == 'gep':
            regs[ins[1]] = self.gep(st, fr, ins[2], self.val(st, fr, PTR, ins[3]), ins[4])
            return True
        if op == 'icmp':
            regs[ins[1]] = self.icmp(st, ins[2], ins[3], self.val(st, fr, ins[3], ins[4]), self.val(st, fr, ins[3], ins[5]))
            return True
        if op == 'bin':
            a, b = self.val(st, fr, ins[3], ins[4]), self.val(st, fr, ins[3], ins[5])
            if not self.ub(st, ins[2], ins[3], a, b, ins[6]):
                return False
            q = self.exactdiv(st, ins[2], ins[3], a, b) if ins[2] in ('udiv', 'sdiv') and isinstance(b, int) and isz(a) else None
            regs[ins[1]] = self.binop(st, ins[2], ins[3], a, b, ins[6]) if q is None else q
            return True
        if op == 'cast':
            regs[ins[1]] = self.cast(st, ins[2], ins[3], self.val(st, fr, ins[3], ins[4]), ins[5])
            return True
        if op == 'br':
            return self.enter(st, ins[2], stack, events, stop)
        if op == 'cbr':
            c = self.val(st, fr, ('i', 1), ins[2])
            return self.branch(st, c, ins[3], ins[4], stack, events, stop)
        if op == 'call' or op == 'invoke':
            return self.docall(st, fr, ins, stack, events, stop)
        if op == 'ret':
            v = None if ins[2] is None else self.val(st, fr, ins[2], ins[3])
            return self.doret(st, v, stack, events, stop)
        if op == 'select':
            c = self.val(st, fr, ('i', 1), ins[2])
            a, b = self.val(st, fr, ins[3], ins[4]), self.val(st, fr, ins[3], ins[5])
            regs[ins[1]] = self.select(st, fr, ins, c, a, b, stack)
            return regs[ins[1]] is not None
        if op == 'alloca':
            n = self.val(st, fr, ('i', 64), ins[3])
            if not isinstance(n, int):
                raise Unsupported('dynamic alloca')
            o = self.newobj(st, n * self.mod.sizeof(ins[2]), BArr(self.fresharr('stk')), 'stack', '%s:%s' % (fr.func.name, ins[1]),
                            max(ins[4], 1))
            fr.allocas.append(o.id)
            regs[ins[1]] = Ptr(o.id, 0)
            return True
        if op == 'extractvalue':
            v = self.val(st, fr, ins[2], ins[3])
            for i in ins[4]:
                v = v[i]
            regs[ins[1]] = v
            return True
        if op == 'insertvalue':
            v = self.val(st, fr, ins[2], ins[3])
            e = self.val(st, fr, ins[4], ins[5])
            regs[ins[1]] = insv(v, ins[6], e)
            return True
        if op == 'switch':
            return self.doswitch(st, fr, ins, stack, events, stop)
        if op == 'copy':
            regs[ins[1]] = self.val(st, fr, ins[2], ins[3])
            return True
        if op == 'fcmp':
            regs[ins[1]] = self.fcmp(ins[2], ins[3], self.val(st, fr, ins[3], ins[4]), self.val(st, fr, ins[3], ins[5]))
            return True
        if op == 'fneg':
            v = self.val(st, fr, ins[2], ins[3])
            w = ins[2][1]
            regs[ins[1]] = self.binop(st, 'xor', ('i', w), v, 1 << (w - 1), ())
            return True
        if op == 'landingpad':
            exc, sel = st.inflight
            regs[ins[1]] = [exc, sel]
            return True
        if op == 'resume':
            v = self.val(st, fr, ins[2], ins[3])
            st.inflight = (v[0], None)
            return self.unwind(st, events, stop, stack)
        if op == 'unreachable':
            if not self.prove(st, False, 'unreachable code reached', 'ub'):
                return False
            return False
        if op == 'nop':
            return True
        if op == 'atomicrmw':
            p = self.val(st, fr, PTR, ins[3])
            if not self.access(st, p, self.mod.sizeof(ins[4]), 'atomicrmw', True):
                return False
            old = self.load(st, p, ins[4])
            v = self.val(st, fr, ins[4], ins[5])
            if ins[2] == 'xchg':
                new = v
            else:
                new = self.binop(st, ins[2], ins[4], old, v, ())
            self.store(st, p, ins[4], new)
            regs[ins[1]] = old
            return True
        raise Unsupported('instruction %s' % (ins[2] if op == 'unsupported' else op))

    def ub(self, st, op, t, a, b, flags):
        if op in ('add', 'sub', 'mul') and 'nsw' in flags:
            w = t[1]
            if isinstance(a, int) and isinstance(b, int):
                x, y = sgn(a, w), sgn(b, w)
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                    return self.prove(st, False, 'signed overflow', 'ub')
                return True
            x, y = bv(a, w), bv(b, w)
            if op == 'add':
                c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            return self.prove(st, c, 'signed overflow', 'ub')
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isinstance(b, int):
                if b == 0:
                    return self.prove(st, False, 'division by zero', 'ub')
            elif not self.prove(st, b != 0, 'division by zero', 'ub'):
                return False
            if op[0] == 's' and not (isinstance(b, int) and sgn(b, t[1]) != -1):
                w = t[1]
                return self.prove(st, z3.Not(z3.And(bv(a, w) == (1 << (w - 1)), bv(b, w) == (1 << w) - 1)), 'division overflow', 'ub')
            return True
        # an out-of-range shift is poison (simplifycfg speculates shifts): its value is arbitrary, see binop
        return True

    def select(self, st, fr, ins, c, a, b, stack):
        if isinstance(c, int):
            return a if c else b
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, list):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.ep == b.ep and a.obj is not None:
                return Ptr(a.obj, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))), a.ep)
            # fork
            ok1, m1 = self.may(st, c)
            ok2, m2 = self.may(st, z3.Not(c))
            if ok1 and ok2:
                s2 = st.fork()
                s2.model = m2
                self.assume(s2, z3.Not(c))
                s2.frames[-1].regs[ins[1]] = b
                stack.append(s2)
                st.model = m1
                self.assume(st, c)
                return a
            return a if ok1 else (b if ok2 else None)
        t = self.mod.resolve(ins[3])
        if t == ('i', 1):
            return simpb(z3.If(c, zb(a), zb(b)))
        w = t[1]
        return simp(z3.If(c, bv(a, w), bv(b, w)))

    def branch(self, st, c, ta, tb, stack, events, stop):
        if isinstance(c, int):
            return self.enter(st, ta if c else tb, stack, events, stop)
        fr = st.frames[-1]
        ok1, m1 = self.may(st, c)
        ok2, m2 = self.may(st, z3.Not(c))
        if ok1 and ok2:
            # symbolic decision inside an uncut loop?
            self.symfork(st, fr, ta, tb)
            s2 = st.fork()
            s2.model = m2
            s2.pc.append(z3.simplify(z3.Not(c)))
            s2.ghost['resume'] = tb
            stack.append(s2)
            st.model = m1
            st.pc.append(c)
            return self.enter(st, ta, stack, events, stop)
        if ok1:
            st.model = m1
            return self.enter(st, ta, stack, events, stop)
        if ok2:
            st.model = m2
            return self.enter(st, tb, stack, events, stop)
        return False

    def symfork(self, st, fr, *targets):
        loops = fr.func.loops()
        for h, body in loops.items():
            if fr.block in body and any(t not in body and t in fr.func.returns() for t in targets):
                k = ('sym', h)
                fr.cnt[k] = fr.cnt.get(k, 0) + 1
        # forks inside callees (comparison operators of iterators, say) or inner blocks count at a higher threshold
        for f in st.frames:
            for h, body in f.func.loops().items():
                if f.block in body:
                    k = ('any', h)
                    f.cnt[k] = f.cnt.get(k, 0) + 1

    def doswitch(self, st, fr, ins, stack, events, stop):
        t, df, cases = ins[2], ins[4], ins[5]
        v = self.val(st, fr, t, ins[3])
        w = t[1]
        if isinstance(v, int):
            for c, l in cases:
                if c == v:
                    return self.enter(st, l, stack, events, stop)
            return self.enter(st, df, stack, events, stop)
        alts = []
        by = {}
        for c, l in cases:
            by.setdefault(l, []).append(c)
        conds = []
        for l, cs in by.items():
            cond = z3.Or(*[v == c for c in cs]) if len(cs) > 1 else v == cs[0]
            conds.append(cond)
            ok, m = self.may(st, cond)
            if ok:
                alts.append((cond, l, m))
        cond = z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True)
        ok, m = self.may(st, cond)
        if ok:
            alts.append((cond, df, m))
        if not alts:
            return False
        for cond, l, m in alts[1:]:
            s2 = st.fork()
            s2.model = m
            s2.pc.append(z3.simplify(cond))
            s2.ghost['resume'] = l
            stack.append(s2)
        cond, l, m = alts[0]
        st.model = m
        if len(alts) > 1:
            st.pc.append(z3.simplify(cond))
        return self.enter(st, l, stack, events, stop)

    def enter(self, st, target, stack, events, stop):
        """control transfer inside the top frame"""
        fr = st.frames[-1]
        f = fr.func
        if stop is not None and len(st.frames) == stop[0]:
            if target == stop[2]:
                st.ghost['backfrom'] = fr.block
                self.end_path(st, events, 'back')
                return False
            if target not in stop[1]:
                st.ghost['resume'] = target
                self.end_path(st, events, 'exit')
                return False
        loops = f.loops()
        if target in loops:
            body = loops[target]
            key = (f.name, target)
            if fr.block not in body:        # loop entry
                fr.cnt[target] = 0
                fr.cnt[('sym', target)] = 0
                fr.cnt[('any', target)] = 0
                if key in self.cutset and self.bounded is None:
                    self.cut_loop(st, target, body, stack, events, stop)
                    return False
            else:
                fr.cnt[target] = fr.cnt.get(target, 0) + 1
                s = fr.cnt.get(('sym', target), 0)
                if self.bounded is None:
                    if key in self.nocut:
                        if max(s, fr.cnt.get(('any', target), 0)) > 64:
                            raise Unsupported('loop neither cut nor unrolled %s' % (key,))
                    elif s > 2 or (fr.cnt[target] >= 4 and fr.cnt.get(("any", target), 0) >= 4):
                        raise NeedCut(key)
                    if fr.cnt[target] > 5000:
                        raise Unsupported('loop does not end ' + str(key))
                else:
                    if max(s, min(fr.cnt[target], fr.cnt.get(('any', target), 0))) > self.bounded or fr.cnt[target] > 5000:
                        self.truncated += 1
                        return False
        self.phis(st, fr, target)
        return True

    def phis(self, st, fr, target):
        f = fr.func
        prev = fr.block
        blk = f.block(target)
        vals = []
        i = 0
        while blk[i][0] == 'phi':
            ins = blk[i]
            vals.append((ins[1], self.val(st, fr, ins[2], ins[3][prev])))
            i += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.prev = prev
        fr.block = target
        fr.i = i

    # ---- calls ------------------------------------------------------------------------
    def docall(self, st, fr, ins, stack, events, stop):
        inv = ins[0] == 'invoke'
        dest, rt, cal = ins[1], ins[2], ins[3]
        args = [(None if a[1] is None else self.val(st, fr, a[0], a[1])) for a in ins[4]]
        if cal[0] == 'g':
            name = self.mod.aliases.get(cal[1], cal[1])
        else:
            p = self.val(st, fr, PTR, cal)
            if isinstance(p, Ptr) and isinstance(p.obj, tuple):
                name = self.mod.aliases.get(p.obj[1], p.obj[1])
            else:
                self.prove(st, False, 'call through invalid function pointer', 'memory')
                return False
        ret = (dest, ins[5] if inv else None, ins[6] if inv else None)
        return self.call(st, name, args, rt, ret, stack, events, stop, ins)

    def call(self, st, name, args, rt, ret, stack, events, stop, ins=None):
        import ext
        h = ext.lookup(name)
        if h is None and name in self.contracts:
            # a call to a function under contract is replaced by the contract ('rec': only recursive calls are)
            tgt, kind = self.contracts[name]
            if kind != 'rec' or any(self.contracts.get(f.func.name, (None,))[0] == tgt for f in st.frames):
                a, b = self.mod.get_func(name), self.mod.get_func(tgt)
                if b is not None and (a is None or [t for _, t in a.params] == [t for _, t in b.params]):
                    self.used_contracts.add(name)
                    name = tgt
        if h is not None:
            st.lastret = ret
            r = h(self, st, name, args, rt, stack, events, stop)
            if r is ext.DEAD:
                return False
            if isinstance(r, ext.Throw):
                return self.throw(st, r, ret, events, stop, stack)
            return self.ret_value(st, ret, r, stack, events, stop)
        f = self.mod.get_func(name)
        if f is None:
            raise Unsupported('external function ' + name)
        if len(st.frames) > self.max_call or sum(1 for x in st.frames if x.func is f) > 8:
            if self.bounded is not None:
                self.truncated += 1
                return False
            raise Unsupported('recursion in ' + name)
        self.funcs_run.add(name)
        nf = Frame(f)
        nf.ret = ret
        for i, ((nm, t), a) in enumerate(zip(f.params, args)):
            if i in f.byval:
                sz = self.mod.sizeof(f.byval[i])
                o = self.newobj(st, sz, BArr(self.fresharr('byv')), 'stack', name + ':byval', 8)
                self.copyrange(st, o.id, 0, a.obj, a.off, sz)
                nf.allocas.append(o.id)
                a = Ptr(o.id, 0)
            nf.regs[nm] = a
        st.frames.append(nf)
        return True

    def ret_value(self, st, ret, v, stack, events, stop):
        dest, normal, unw = ret
        fr = st.frames[-1]
        if dest is not None:
            fr.regs[dest] = v
        if normal is not None:
            return self.enter(st, normal, stack, events, stop)
        return True

    def popframe(self, st):
        fr = st.frames.pop()
        for a in fr.allocas:
            o = st.mem.get(a)
            if o is not None:
                if o.live:
                    o = self.wobj(st, a)
                    o.live = False
                    o.cells = {}
        return fr

    def doret(self, st, v, stack, events, stop):
        fr = self.popframe(st)
        if not st.frames:
            st.ghost['retval'] = v
            self.end_path(st, events, 'done')
            return False
        return self.ret_value(st, fr.ret, v, stack, events, stop)

    # ---- exceptions -----------------------------------------------------------------------
    def throw(self, st, thr, ret, events, stop, stack):
        """thr: ext.Throw(ptr, typename)"""
        o = thr.ptr
        if o is None:
            ob = self.newobj(st, 64, ZERO, 'exc', thr.tname, 16)
            o = Ptr(ob.id, 0)
        st.ghost[('exc', o.obj)] = thr.tname
        st.inflight = (o, None)
        # the call instruction itself may be an invoke
        if ret[2] is not None:
            if self.land(st, ret[2], stack, events, stop) is not None:
                return self._land_result
        return self.unwind(st, events, stop, stack)

    def land(self, st, label, stack, events, stop):
        fr = st.frames[-1]
        blk = fr.func.block(label)
        lp = None
        for x in blk:
            if x[0] == 'landingpad':
                lp = x
                break
        exc = st.inflight[0]
        tname = st.ghost.get(('exc', exc.obj), '?')
        sel = None
        for c in lp[2]:
            if c[0] == 'cleanup':
                if sel is None:
                    sel = 0
            elif c[0] == 'catch':
                if c[1][0] == 'null':
                    sel = self.typeid('*')
                    break
                if self.derives(tname, c[1][1]):
                    sel = self.typeid(c[1][1])
                    break
            elif c[0] == 'filter':
                sel = -1 & 0xffffffff
                break
        if sel is None:
            return None
        # any later catch has priority over cleanup: a cleanup clause only matters if nothing else matched
        st.inflight = (exc, sel)
        self._land_result = self.enter(st, label, stack, events, stop)
        return True

    def typeid(self, n):
        if n not in self.typeids:
            self.typeids[n] = len(self.typeids) + 1
        return self.typeids[n]

    STD = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
           '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
           '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
           '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
           '_ZTISt18bad_variant_access': '_ZTISt9exception', '_ZTISt19bad_optional_access': '_ZTISt9exception',
           '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
           '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt8bad_cast': '_ZTISt9exception'}

    def derives(self, t, base):
        seen = 0
        while t is not None and seen < 20:
            if t == base:
                return True
            seen += 1
            if t in self.mod.globals_src and not self.mod.globals_src[t].startswith('external'):
                g = self.mod.get_global(t)
                init = g[2]
                nt = None
                if init and init[0] == 'agg' and len(init[1]) >= 3:
                    b = init[1][2][1]
                    if b[0] == 'g':
                        nt = b[1]
                if nt is None:
                    nt = self.STD.get(t)
                t = nt
            else:
                t = self.STD.get(t)
        return False

    def unwind(self, st, events, stop, stack):
        """pop frames until a landing pad takes the in-flight exception"""
        while True:
            if stop is not None and len(st.frames) == stop[0]:
                # leaving the function that owns the cut loop
                fr = self.popframe(st)
                st.ghost['unw'] = True
                st.ghost['unwret'] = fr.ret
                self.end_path(st, events, 'unw')
                return False
            if 'unwret' in st.ghost:
                ret = st.ghost.pop('unwret')
            else:
                fr = self.popframe(st)
                ret = fr.ret
            if not st.frames:
                exc = st.inflight[0]
                tn = st.ghost.get(('exc', exc.obj), '?')
                fr2 = Frame.__new__(Frame)
                self.prove(st, False, 'uncaught exception ' + tn, 'exception')
                return False
            if ret is not None and ret[2] is not None:
                if self.land(st, ret[2], stack, events, stop) is not None:
                    return self._land_result

    # ---- pure evaluation of harness functions ------------------------------------------------
    def call_pure(self, st, fname, args):
        """evaluate a pure harness function symbolically, merging its paths into one value"""
        f = self.mod.get_func(fname)
        s = st.fork()
        s.wlogs = []
        n0 = len(s.pc)
        nf = Frame(f)
        for (nm, t), a in zip(f.params, args):
            nf.regs[nm] = a
        s.frames = [nf]
        mode, self.mode = self.mode, 'dry'
        np = self.npaths
        b, self.bounded = self.bounded, 40
        try:
            evs = self.run([s], None)
        finally:
            self.mode = mode
            self.npaths = np
            self.bounded = b
        res = None
        for k, e in evs:
            if k != 'done':
                continue
            v = e.ghost.get('retval')
            cond = z3.And(*e.pc[n0:]) if len(e.pc) > n0 else z3.BoolVal(True)
            if res is None:
                res = v
            else:
                if isinstance(v, int) and isinstance(res, int) and v == res:
                    continue
                if z3.is_bool(v) if isz(v) else (z3.is_bool(res) if isz(res) else False):
                    res = z3.If(cond, zb(v), zb(res))
                else:
                    w = v.size() if isz(v) else res.size() if isz(res) else 64
                    res = z3.If(cond, bv(v, w), bv(res, w))
        if res is None:
            return None
        return simp(res) if not (isz(res) and z3.is_bool(res)) else res

    # ---- loop cutting ------------------------------------------------------------------------
    def cut_loop(self, st, header, body, stack, events, stop):
        import loops
        loops.cut(self, st, header, body, stack, events, stop)


def simpb(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return 1
    if z3.is_false(c):
        return 0
    return c


def insv(v, idx, e):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        v[idx[0]] = insv(v[idx[0]], idx[1:], e)
    return v


def fpsort(w):
    return {16: z3.Float16(), 32: z3.Float32(), 64: z3.Float64()}[w]
