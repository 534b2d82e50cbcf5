"""Assumed contracts: LLVM intrinsics, C/C++ runtime functions outside the translation unit, and the zv_* vocabulary."""
import re
import z3
from sx import Ptr, NULL, BArr, BZero, ZERO, BLay, Unsupported, bv, zb, simp, simpb, isz, add64, sub64, M64, sgn

DEAD = object()


class Throw:
    def __init__(self, ptr, tname):
        self.ptr = ptr
        self.tname = tname


TABLE = {}
PATTERNS = []


def ext(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def pat(rx):
    def deco(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return deco


_cache = {}


def lookup(name):
    h = _cache.get(name, 0)
    if h == 0:
        h = TABLE.get(name)
        if h is None:
            for rx, f in PATTERNS:
                if rx.match(name):
                    h = f
                    break
        _cache[name] = h
    return h


# ---- intrinsics --------------------------------------------------------------------------
@pat(r'llvm\.lifetime\.start')
def lt_start(e, st, name, a, *r):
    p = a[1]
    if isinstance(p, Ptr) and p.obj in st.mem and p.off == 0:
        o = e.wobj(st, p.obj)
        o.live = True
        o.cells = {}
        o.base = BArr(e.fresharr('stk'))
        e.wlog(st, p.obj, 0, o.size)


@pat(r'llvm\.lifetime\.end')
def lt_end(e, st, name, a, *r):
    p = a[1]
    if isinstance(p, Ptr) and p.obj in st.mem and p.off == 0:
        o = e.wobj(st, p.obj)
        o.live = False
        o.cells = {}


@pat(r'llvm\.(dbg|donothing|experimental\.noalias|sideeffect|stacksave|stackrestore|invariant|prefetch|var\.annotation)')
def nop(e, st, name, a, *r):
    return None


@pat(r'llvm\.assume')
def l_assume(e, st, name, a, *r):
    # compiler-inserted (alignment, nonnull): an obligation of the code, not an assumption
    if not e.prove(st, zb(a[0]), 'llvm.assume', 'ub'):
        return DEAD


@pat(r'llvm\.expect')
def l_expect(e, st, name, a, *r):
    return a[0]


@pat(r'llvm\.is\.constant')
def l_isconst(e, st, name, a, *r):
    return 0


@pat(r'llvm\.trap|llvm\.ubsantrap|llvm\.debugtrap')
def l_trap(e, st, name, a, *r):
    e.prove(st, False, 'trap', 'ub')
    return DEAD


@pat(r'llvm\.objectsize')
def l_objsize(e, st, name, a, *r):
    return M64


@pat(r'llvm\.eh\.typeid\.for')
def l_typeid(e, st, name, a, *r):
    p = a[0]
    if p.obj is None:
        return e.typeid('*')
    o = st.mem[p.obj]
    return e.typeid(o.name)


@pat(r'llvm\.(umax|umin|smax|smin)\.i(\d+)')
def l_minmax(e, st, name, a, *r):
    k, w = re.match(r'llvm\.(\w+)\.i(\d+)', name).groups()
    w = int(w)
    x, y = bv(a[0], w), bv(a[1], w)
    c = {'umax': z3.UGE(x, y), 'umin': z3.ULE(x, y), 'smax': x >= y, 'smin': x <= y}[k]
    return simp(z3.If(c, x, y))


@pat(r'llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\.i(\d+)')
def l_ovf(e, st, name, a, *r):
    k, w = re.match(r'llvm\.(\w+)\.with\.overflow\.i(\d+)', name).groups()
    w = int(w)
    x, y = bv(a[0], w), bv(a[1], w)
    if k == 'uadd':
        return [simp(x + y), simpb(z3.Not(z3.BVAddNoOverflow(x, y, False)))]
    if k == 'usub':
        return [simp(x - y), simpb(z3.ULT(x, y))]
    if k == 'umul':
        return [simp(x * y), simpb(z3.Not(z3.BVMulNoOverflow(x, y, False)))]
    if k == 'sadd':
        return [simp(x + y), simpb(z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))))]
    if k == 'ssub':
        return [simp(x - y), simpb(z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))))]
    return [simp(x * y), simpb(z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))))]


@pat(r'llvm\.bswap\.i(\d+)')
def l_bswap(e, st, name, a, *r):
    w = int(name.split('.i')[1])
    if isinstance(a[0], int):
        return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
    return simp(z3.Concat(*[z3.Extract(i * 8 + 7, i * 8, a[0]) for i in range(w // 8)]))


@pat(r'llvm\.abs\.i(\d+)')
def l_abs(e, st, name, a, *r):
    w = int(name.split('.i')[1])
    x = bv(a[0], w)
    return simp(z3.If(x < 0, -x, x))


@pat(r'llvm\.(ctlz|cttz)\.i(\d+)')
def l_ctz(e, st, name, a, *r):
    k, w = re.match(r'llvm\.(\w+)\.i(\d+)', name).groups()
    w = int(w)
    x = bv(a[0], w)
    res = z3.BitVecVal(w, w)
    rng = range(w - 1, -1, -1) if k == 'cttz' else range(w)
    for i in rng:
        res = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i if k == 'cttz' else w - 1 - i, w), res)
    return simp(res)


@pat(r'llvm\.fabs\.f(\d+)')
def l_fabs(e, st, name, a, *r):
    w = int(name.split('.f')[-1])
    return e.binop(st, 'and', ('i', w), a[0], (1 << (w - 1)) - 1, ())


# ---- memory functions ------------------------------------------------------------------------
@pat(r'llvm\.memcpy|llvm\.memmove')
def l_memcpy(e, st, name, a, *r):
    return memcpy(e, st, name, a)


@ext('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk')
def memcpy(e, st, name, a, *r):
    d, s, n = a[0], a[1], a[2]
    if isz(n):
        n = simp(n)
    if not e.access(st, s, n, 'memcpy source'):
        return DEAD
    if not e.access(st, d, n, 'memcpy destination', True):
        return DEAD
    if isz(n) and (s.obj is None or d.obj is None or s.obj == 'wild' or d.obj == 'wild'):
        return d          # n == 0 proved
    if isinstance(n, int) and n == 0:
        return d
    if 'memcpy' in name and s.obj == d.obj and s.obj is not None and name != 'memmove':
        so, do, nz = bv(s.off, 64), bv(d.off, 64), bv(n, 64)
        if not e.prove(st, z3.Or(nz == 0, s.off == d.off if isinstance(s.off, int) and isinstance(d.off, int) else so == do,
                                 z3.ULE(so + nz, do), z3.ULE(do + nz, so)), 'memcpy overlap', 'memory'):
            return DEAD
    fr = st.frames[-1]
    site = (fr.func.name, fr.block, fr.i)
    d0 = d
    if isz(d.off):
        d = e.pin(st, site + ('d',), d)
    if isz(s.off):
        s = e.pin(st, site + ('s',), s)
    if isz(n):
        n = e.pin(st, site + ('n',), Ptr(0, n)).off
        if isinstance(n, int) and n == 0:
            return d0
    e.copyrange(st, d.obj, d.off, s.obj, s.off, n)
    return d0


@pat(r'llvm\.memset|memset$')
def memset(e, st, name, a, *r):
    d, c, n = a[0], a[1], a[2]
    if isz(n):
        n = simp(n)
    if not e.access(st, d, n, 'memset', True):
        return DEAD
    if d.obj is None:
        return d
    if isz(c) and c.size() > 8:
        c = simp(z3.Extract(7, 0, c))
    elif isinstance(c, int):
        c &= 0xff
    e.fillrange(st, d.obj, d.off, n, c)
    return d


def content_key(o):
    if isinstance(o.base, BArr) and not o.cells:
        return ('a', o.base.arr.get_id())
    return ('o', o.id, id(o.base), tuple(sorted((k, id(v[1])) for k, v in o.cells.items())))


@ext('memcmp', 'bcmp')
def memcmp(e, st, name, a, *r):
    p, q, n = a
    if isz(n):
        n = simp(n)
    if not e.access(st, p, n, 'memcmp'):
        return DEAD
    if not e.access(st, q, n, 'memcmp'):
        return DEAD
    if isinstance(n, int) and n == 0:
        return 0
    if isz(n) and (p.obj is None or q.obj is None):
        return 0
    oa, ob = st.mem[p.obj], st.mem[q.obj]
    if isinstance(n, int) and n <= 24:
        x, y = e.rd(st, oa.cells, oa.base, p.off, n), e.rd(st, ob.cells, ob.base, q.off, n)
        if all(isinstance(v, int) for v in x + y):
            return 0 if x == y else (1 if x > y else M64 >> 32)
        res = z3.BitVecVal(0, 32)
        for i in reversed(range(n)):
            u, v = bv(x[i], 8), bv(y[i], 8)
            res = z3.If(u == v, res, z3.If(z3.ULT(u, v), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        return simp(res)
    ka, kb = content_key(oa), content_key(ob)
    swap = repr(kb) < repr(ka)
    if swap:
        p, q, oa, ob, ka, kb = q, p, ob, oa, kb, ka
    fk = ('memcmp', ka, kb)
    f = e.ufs.get(fk)
    if f is None:
        f = z3.Function('memcmp_%d' % len(e.ufs), *([z3.BitVecSort(64)] * 3 + [z3.BitVecSort(32)]))
        e.ufs[fk] = f
        e.ufs[('keep', len(e.ufs))] = (oa.base, ob.base)
    po, qo, nz = bv(p.off, 64), bv(q.off, 64), bv(n, 64)
    res = f(po, qo, nz)
    key = ('memcmp', res.get_id())
    if key not in st.ghost:
        st.ghost[key] = True
        w = e.fresh('diff', 64)
        x = e.rd(st, oa.cells, oa.base, add64(p.off, w), 1)[0]
        y = e.rd(st, ob.cells, ob.base, add64(q.off, w), 1)[0]
        e.assume(st, z3.Implies(res != 0, z3.And(z3.ULT(w, nz), bv(x, 8) != bv(y, 8))))
        e.assume(st, z3.Implies(nz == 0, res == 0))
        fact = (dict(oa.cells), oa.base, p.off, dict(ob.cells), ob.base, q.off, n, res)
        old = st.ghost.get('eqf', ())
        # an equality is instantiated at every known difference, and the other way round
        for f2 in old:
            eq_at(e, st, f2, w)
        for w2 in st.ghost.get('diffs', ()):
            eq_at(e, st, fact, w2)
        st.ghost['eqf'] = old + (fact,)
        st.ghost['diffs'] = st.ghost.get('diffs', ()) + (w,)
    return simp(-res) if swap else res


def eq_at(e, st, f, j):
    ca, ba, oa, cb, bb, ob, n, res = f
    x = e.rd(st, ca, ba, add64(oa, j), 1)[0]
    y = e.rd(st, cb, bb, add64(ob, j), 1)[0]
    e.assume(st, z3.Implies(z3.And(res == 0, z3.ULT(j, bv(n, 64))), bv(x, 8) == bv(y, 8)))


@ext('memchr')
def memchr(e, st, name, a, rt, stack, events, stop):
    p, c, n = a
    if isz(n):
        n = simp(n)
    if not e.access(st, p, n, 'memchr'):
        return DEAD
    if isinstance(n, int) and n == 0 or p.obj is None:
        return Ptr(None, 0)
    c = simp(z3.Extract(7, 0, bv(c, 32)))
    o = st.mem[p.obj]
    if ('cstr', p.obj) in st.ghost and c == 0 and e.must(st, z3.ULE(bv(add64(p.off, n), 64), bv(st.ghost[('cstr', p.obj)], 64))):
        return Ptr(None, 0)
    if isinstance(n, int) and n <= 64:
        bs = e.rd(st, o.cells, o.base, p.off, n)
        if isinstance(c, int) and all(isinstance(b, int) for b in bs):
            return Ptr(p.obj, add64(p.off, bs.index(c))) if c in bs else Ptr(None, 0)
    # found at some position w (over-approximated: not necessarily the first), or nowhere
    dest, normal, unw = st.lastret
    w = e.fresh('chr', 64)
    s2 = st.fork()
    x = e.rd(s2, o.cells, o.base, add64(p.off, w), 1)[0]
    if e.assume(s2, z3.And(z3.ULT(w, bv(n, 64)), bv(x, 8) == bv(c, 8))) and e.feasible(s2):
        s2.frames[-1].regs[dest] = Ptr(p.obj, add64(p.off, w))
        if normal is not None:
            s2.ghost['resume'] = normal
        stack.append(s2)
    return Ptr(None, 0)


@ext('strlen')
def strlen(e, st, name, a, rt, stack, events, stop):
    p = a[0]
    if not e.access(st, p, 1, 'strlen'):
        return DEAD
    o = st.mem[p.obj]
    if ('cstr', p.obj) in st.ghost:
        return sub64(st.ghost[('cstr', p.obj)], p.off)
    dest, normal, unw = st.lastret
    n = 0
    while True:
        if n and not e.access(st, Ptr(p.obj, add64(p.off, n), p.ep), 1, 'strlen'):
            return DEAD
        b = e.rd(st, o.cells, o.base, add64(p.off, n), 1)[0]
        if isz(b):
            b = simp(b)
        if isz(b):
            zero, m0 = e.may(st, b == 0)
            more, m1 = e.may(st, b != 0)
            if not zero:
                b = 1
            elif not more:
                b = 0
            else:
                if n > 40:
                    raise Unsupported('strlen of long symbolic content')
                s2 = st.fork()
                if e.assume(s2, b == 0):
                    s2.frames[-1].regs[dest] = n
                    if normal is not None:
                        s2.ghost['resume'] = normal
                    stack.append(s2)
                if not e.assume(st, b != 0):
                    return DEAD
                b = 1
        if b == 0:
            return n
        n += 1


@ext('strcmp')
def strcmp(e, st, name, a, *r):
    p, q = a
    conds = []
    i = 0
    while True:
        if i > 40:
            raise Unsupported('strcmp of long symbolic content')
        bs = []
        for v in (p, q):
            x = Ptr(v.obj, add64(v.off, i), v.ep)
            if not e.access(st, x, 1, 'strcmp'):
                return DEAD
            o = st.mem[v.obj]
            b = e.rd(st, o.cells, o.base, x.off, 1)[0]
            bs.append(simp(b) if isz(b) else b)
        x, y = bs
        if isinstance(x, int) and isinstance(y, int):
            if x != y or x == 0:
                res = bv(0 if x == y else (1 if x > y else -1), 32)
                break
        else:
            x, y = bv(x, 8), bv(y, 8)
            d = z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32))
            conds.append((x, y, d))
            if e.must(st, x != y):
                res = d
                conds.pop()
                break
            if e.must(st, z3.Or(x == 0, y == 0, x != y)):
                res = z3.If(x == y, z3.BitVecVal(0, 32), d)
                conds.pop()
                break
            if e.may(st, x == 0)[0] and e.may(st, y == 0)[0]:
                raise Unsupported('strcmp of symbolic length')
        i += 1
    for x, y, d in reversed(conds):
        res = z3.If(x != y, d, z3.If(x == 0, z3.BitVecVal(0, 32), res))
    return simp(res)


def getcstr(e, st, p):
    o = st.mem[p.obj]
    out = []
    i = p.off
    while True:
        b = e.rd(st, o.cells, o.base, i, 1)[0]
        if not isinstance(b, int):
            raise Unsupported('symbolic name')
        if b == 0:
            return bytes(out).decode('latin1')
        out.append(b)
        i += 1


# ---- allocation ------------------------------------------------------------------------------
def alloc(e, st, n, kind):
    if isz(n):
        n = simp(n)
    if isz(n):
        # allocation success is assumed for sizes an address space can hold; larger requests throw
        big = z3.UGE(n, 1 << 46)
        ok, m = e.may(st, big)
        if ok:
            return big
    elif n >= 1 << 46:
        return True
    return None


@ext('_Znwm', '_Znam', '_ZnwmSt11align_val_t')
def op_new(e, st, name, a, rt, stack, events, stop):
    n = a[0]
    big = alloc(e, st, n, 'new')
    if big is True:
        return Throw(None, '_ZTISt9bad_alloc')
    if big is not None:
        # fork: bad_alloc for absurd sizes
        if e.may(st, z3.Not(big))[0]:
            s2 = st.fork()
            e.assume(s2, big)
            s2.model = None
            s2.ghost['pendthrow'] = '_ZTISt9bad_alloc'
            ret = st.lastret
            # deliver the throw on the forked state right away
            s2.ghost.pop('pendthrow')
            sub = []
            if e.throw(s2, Throw(None, '_ZTISt9bad_alloc'), ret, events, stop, sub):
                stack.append(s2)
            stack.extend(sub)
            e.assume(st, z3.Not(big))
        else:
            return Throw(None, '_ZTISt9bad_alloc')
    if isz(n):
        n = simp(n)
    o = e.newobj(st, n, BArr(e.fresharr('heap')), 'new' if name != '_Znam' else 'newarr', 'heap', 16)
    return Ptr(o.id, 0)


@ext('malloc')
def malloc(e, st, name, a, *r):
    n = a[0]
    o = e.newobj(st, simp(n), BArr(e.fresharr('heap')), 'malloc', 'malloc', 16)
    if isz(n):
        e.assume(st, z3.ULT(n, 1 << 46))
        if not e.feasible(st):
            return DEAD
    return Ptr(o.id, 0)


@ext('calloc')
def calloc(e, st, name, a, *r):
    n = simp(bv(a[0], 64) * bv(a[1], 64))
    o = e.newobj(st, n, ZERO, 'malloc', 'calloc', 16)
    if isz(n):
        e.assume(st, z3.ULT(n, 1 << 46))
    return Ptr(o.id, 0)


@ext('realloc')
def realloc(e, st, name, a, *r):
    p, n = a
    if isz(n):
        e.assume(st, z3.ULT(n, 1 << 46))
        if not e.feasible(st):
            return DEAD
        n = simp(n)
    o = e.newobj(st, n, BArr(e.fresharr('heap')), 'malloc', 'realloc', 16)
    if p.obj is None:
        return Ptr(o.id, 0)
    old = st.mem[p.obj]
    if not (old.live and old.kind == 'malloc'):
        e.prove(st, False, 'realloc of invalid pointer', 'memory')
        return DEAD
    # contract: the common prefix is preserved
    m = old.size
    if isinstance(m, int) and isinstance(n, int):
        k = min(m, n)
    else:
        k = simp(z3.If(z3.ULT(bv(m, 64), bv(n, 64)), bv(m, 64), bv(n, 64)))
    e.copyrange(st, o.id, 0, p.obj, 0, k)
    w = e.wobj(st, p.obj)
    w.live = False
    return Ptr(o.id, 0)


def release(e, st, p, kinds, what):
    if not isinstance(p, Ptr):
        raise Unsupported('free of integer')
    if p.obj is None and p.off == 0:
        return None
    if p.obj is None or isinstance(p.obj, tuple) or p.obj == 'wild':
        e.prove(st, False, what + ' of invalid pointer', 'memory')
        return DEAD
    o = st.mem[p.obj]
    if not o.live:
        e.prove(st, False, 'double ' + what, 'memory')
        return DEAD
    if o.kind not in kinds:
        e.prove(st, False, what + ' of non-matching allocation (%s)' % o.kind, 'memory')
        return DEAD
    if not e.prove(st, bv(p.off, 64) == 0, what + ' of interior pointer', 'memory'):
        return DEAD
    o = e.wobj(st, p.obj)
    o.live = False
    e.wlog(st, p.obj, None, None)
    st.ghost[('freed', p.obj)] = st.ghost.get(('freed', p.obj), 0) + 1
    return None


@ext('_ZdlPv', '_ZdlPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def op_delete(e, st, name, a, *r):
    return release(e, st, a[0], ('new',), 'delete')


@ext('_ZdaPv', '_ZdaPvm')
def op_deletea(e, st, name, a, *r):
    return release(e, st, a[0], ('newarr',), 'delete[]')


@ext('free')
def c_free(e, st, name, a, *r):
    return release(e, st, a[0], ('malloc',), 'free')


# ---- exceptions -------------------------------------------------------------------------------
@ext('__cxa_allocate_exception')
def cxa_alloc(e, st, name, a, *r):
    o = e.newobj(st, a[0] + 64, BArr(e.fresharr('exc')), 'exc', 'exc', 16)
    return Ptr(o.id, 0)


@ext('__cxa_free_exception')
def cxa_free(e, st, name, a, *r):
    return None


@ext('__cxa_throw')
def cxa_throw(e, st, name, a, *r):
    t = a[1]
    o = st.mem[t.obj]
    return Throw(a[0], o.name)


@ext('__cxa_begin_catch')
def cxa_begin(e, st, name, a, *r):
    st.caught.append(a[0])
    return a[0]


@ext('__cxa_get_exception_ptr')
def cxa_getptr(e, st, name, a, *r):
    return a[0]


@ext('__cxa_end_catch')
def cxa_end(e, st, name, a, *r):
    st.caught.pop()
    return None


@ext('__cxa_rethrow')
def cxa_rethrow(e, st, name, a, *r):
    p = st.caught[-1]
    return Throw(p, st.ghost.get(('exc', p.obj), '?'))


@ext('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_pure_virtual', '_ZSt10unexpectedv')
def terminate(e, st, name, a, *r):
    e.prove(st, False, 'std::terminate/abort reached', 'exception')
    return DEAD


@pat(r'_ZSt21__glibcxx_assert_fail|__assert_fail')
def assert_fail(e, st, name, a, *r):
    e.prove(st, False, 'library precondition (_GLIBCXX_ASSERTIONS / assert) violated', 'memory')
    return DEAD


THROWS = {'length_error': '_ZTISt12length_error', 'logic_error': '_ZTISt11logic_error', 'out_of_range': '_ZTISt12out_of_range',
          'out_of_range_fmt': '_ZTISt12out_of_range', 'bad_alloc': '_ZTISt9bad_alloc',
          'bad_array_new_length': '_ZTISt20bad_array_new_length', 'bad_function_call': '_ZTISt17bad_function_call',
          'bad_optional_access': '_ZTISt19bad_optional_access', 'bad_variant_access': '_ZTISt18bad_variant_access',
          'invalid_argument': '_ZTISt16invalid_argument', 'runtime_error': '_ZTISt13runtime_error', 'bad_cast': '_ZTISt8bad_cast'}


@pat(r'_ZSt\d+__throw_(\w+?)(PKc\w*|v|j|b)$')
def std_throw(e, st, name, a, *r):
    m = re.match(r'_ZSt(\d+)__throw_(.*)', name)
    n = int(m.group(1)) - len('__throw_')
    k = m.group(2)[:n]
    if k not in THROWS:
        raise Unsupported(name)
    if name in e.mod.funcs_src:
        pass
    return Throw(None, THROWS[k])


@pat(r'_ZNSt\d+(runtime_error|logic_error|invalid_argument|length_error|out_of_range|domain_error|overflow_error|range_error|exception|bad_alloc|bad_variant_access|bad_optional_access|bad_function_call)[CD][012]')
def exc_ctor(e, st, name, a, *r):
    return None


@pat(r'_ZNKSt\d+\w+4whatEv')
def exc_what(e, st, name, a, *r):
    o = e.newobj(st, 1, ZERO, 'global', 'what')
    return Ptr(o.id, 0)


@ext('__cxa_guard_acquire')
def guard_acq(e, st, name, a, *r):
    return 1


@ext('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '_ZNSt8ios_base4InitC1Ev')
def guard_rel(e, st, name, a, *r):
    return 0


@ext('isprint')
def c_isprint(e, st, name, a, *r):
    return e.fresh('isprint', 32)


# ---- zv vocabulary -------------------------------------------------------------------------------
def reg(st, kind, name, *x):
    st.inputs.append((kind, name) + x)


def in_int(w):
    def h(e, st, nm, a, *r):
        n = getcstr(e, st, a[0])
        v = e.fresh('in_' + n, w)
        reg(st, 'u', n, v)
        return v
    return h


for _w in (8, 16, 32, 64):
    TABLE['zv_u%d' % _w] = in_int(_w)


TABLE['zv_docsize'] = in_int(64)


@ext('zv_bool')
def zv_bool(e, st, nm, a, *r):
    n = getcstr(e, st, a[0])
    v = e.freshbool('in_' + n)
    reg(st, 'u', n, z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    return v


@ext('zv_pick')
def zv_pick(e, st, nm, a, rt, stack, events, stop):
    """concrete case split 0..n-1 (a fork per value)"""
    n = getcstr(e, st, a[0])
    k = a[1]
    if not isinstance(k, int):
        raise Unsupported('zv_pick symbolic')
    dest, normal, unw = st.lastret
    for i in range(1, k):
        s2 = st.fork()
        reg(s2, 'u', n, z3.BitVecVal(i, 64))
        s2.frames[-1].regs[dest] = i
        if normal is not None:
            s2.ghost['resume'] = normal
        stack.append(s2)
    reg(st, 'u', n, z3.BitVecVal(0, 64))
    return 0


@ext('zv_bytes')
def zv_bytes(e, st, nm, a, *r):
    n = getcstr(e, st, a[0])
    size = a[1]
    if isz(size):
        e.assume(st, z3.ULT(size, 1 << 40))
        if not e.feasible(st):
            return DEAD
    arr = e.fresharr('in_' + n)
    o = e.newobj(st, size, BArr(arr), 'malloc', 'input:' + n, 1)
    reg(st, 'b', n, arr, size)
    return Ptr(o.id, 0)


@ext('zv_cstr')
def zv_cstr(e, st, nm, a, *r):
    """n symbolic non-zero bytes followed by a terminator"""
    n = getcstr(e, st, a[0])
    size = a[1]
    if isz(size):
        e.assume(st, z3.ULT(size, 1 << 40))
    arr = e.fresharr('in_' + n)
    o = e.newobj(st, add64(size, 1), BArr(arr), 'malloc', 'input:' + n, 1)
    e.assume(st, z3.Select(arr, bv(size, 64)) == 0)
    st.ghost[('cstr', o.id)] = size
    reg(st, 'b', n, arr, add64(size, 1))
    return Ptr(o.id, 0)


@ext('zv_assume')
def zv_assume(e, st, nm, a, *r):
    if not e.assume(st, zb(a[0])):
        return DEAD
    if not e.feasible(st):
        return DEAD


@ext('zv_assert')
def zv_assert(e, st, nm, a, *r):
    label = getcstr(e, st, a[1])
    if not e.prove(st, zb(a[0]), label, 'ensures'):
        return DEAD


@ext('zv_cover')
def zv_cover(e, st, nm, a, *r):
    label = getcstr(e, st, a[0])
    if e.mode == 'real' and label not in e.covers:
        if e.feasible(st):
            e.covers.add(label)


@ext('zv_stop')
def zv_stop(e, st, nm, a, *r):
    return DEAD


@ext('zv_off')
def zv_off(e, st, nm, a, *r):
    """zv_off(p, base, n): byte offset of p in the object of base, or UINT64_MAX if p points elsewhere"""
    p, b = a[0], a[1]
    if p.obj is None or p.obj != b.obj:
        return M64
    return sub64(p.off, b.off)


@ext('zv_same')
def zv_same(e, st, nm, a, *r):
    return int(a[0].obj is not None and a[0].obj == a[1].obj)


@ext('zv_live')
def zv_live(e, st, nm, a, *r):
    p = a[0]
    if p.obj is None or p.obj == 'wild':
        return 0
    o = st.mem[p.obj]
    if not (o.live and o.ep == p.ep):
        return 0
    n = a[1]
    return simpb(z3.And(z3.ULE(bv(n, 64), bv(o.size, 64)), z3.ULE(bv(p.off, 64), bv(o.size, 64) - bv(n, 64))))


@ext('zv_eqinst')
def zv_eqinst(e, st, nm, a, *r):
    """instantiate all memcmp(...)==0 facts at relative index a[0]"""
    j = a[0]
    for (ca, ba, oa, cb, bb, ob, n, res) in st.ghost.get('eqf', ()):
        x = e.rd(st, ca, ba, add64(oa, j), 1)[0]
        y = e.rd(st, cb, bb, add64(ob, j), 1)[0]
        e.assume(st, z3.Implies(z3.And(res == 0, z3.ULT(bv(j, 64), bv(n, 64))), bv(x, 8) == bv(y, 8)))


def uf(k):
    def h(e, st, nm, a, *r):
        n = getcstr(e, st, a[0])
        f = e.ufs.get(('uf', n, k))
        if f is None:
            f = z3.Function('uf_' + n, *([z3.BitVecSort(64)] * (k + 1)))
            e.ufs[('uf', n, k)] = f
        return f(*[bv(x, 64) for x in a[1:1 + k]])
    return h


for _k in range(1, 5):
    TABLE['zv_uf%d' % _k] = uf(_k)


@ext('zv_havoc64')
def zv_havoc64(e, st, nm, a, *r):
    """ghost nondeterminism that is not an input (used in contracts)"""
    return e.fresh('havoc', 64)


@ext('zv_havocbool')
def zv_havocbool(e, st, nm, a, *r):
    return e.freshbool('havoc')


@ext('zv_hint')
def zv_hint(e, st, nm, a, *r):
    """zv_hint(fn, ctx): candidate value fn(ctx, k) of some loop variable at iteration k"""
    st.hints.append(('val', a[0], a[1]))


@ext('zv_hint_array')
def zv_hint_array(e, st, nm, a, *r):
    """zv_hint_array(fn, ctx): candidate content fn(ctx, j) of a byte array written in a loop"""
    st.hints.append(('arr', a[0], a[1]))


@ext('zv_hint_clear')
def zv_hint_clear(e, st, nm, a, *r):
    st.hints = []


@ext('zv_symbolic')
def zv_symbolic(e, st, nm, a, *r):
    return 1


@ext('zv_unsupported')
def zv_unsup(e, st, nm, a, *r):
    raise Unsupported('harness: ' + getcstr(e, st, a[0]))
