"""Lazy parser for textual LLVM 18 IR (opaque pointers) as emitted by clang/opt on x86-64."""
import re

TOK = re.compile(r'''
   (?P<loc>%"(?:[^"\\]|\\.)*"|%[\w.$-]+)
 | (?P<glb>@"(?:[^"\\]|\\.)*"|@[\w.$-]+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<meta>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<ell>\.\.\.)
 | (?P<word>[A-Za-z_$][\w.$]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


def lex(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t\r\n':
            i += 1
            continue
        if c == ';':
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        m = TOK.match(s, i)
        if not m:
            raise ParseError('lex: %r' % s[i:i + 40])
        out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


def unq(name):
    # strip sigil and quotes
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


# ---- types -------------------------------------------------------------------
PTR = ('ptr',)
VOID = ('void',)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals_src = {}
        self.globals = {}
        self.funcs_src = {}
        self.decls = {}
        self.funcs = {}
        self.aliases = {}
        self.attrgroups = {}
        self._sz = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        fre = re.compile(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(')
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                m = fre.search(l)
                name = m.group(1).strip('"')
                j = i
                while lines[j] != '}':
                    j += 1
                self.funcs_src[name] = (l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                m = fre.search(l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('%'):
                nm, rest = l.split(' = type ', 1)
                self.types[unq(nm)] = rest
            elif l.startswith('@'):
                nm, rest = l.split(' = ', 1)
                if re.search(r'\balias\b', rest.split('{')[0].split('[')[0]):
                    t = re.findall(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)', rest)
                    self.aliases[unq(nm)] = t[-1].strip('"')
                else:
                    self.globals_src[unq(nm)] = rest
            elif l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrgroups[m.group(1)] = m.group(2)
            i += 1

    # ---- layout ---------------------------------------------------------------
    def resolve(self, t):
        while t[0] == 'named':
            v = self.types[t[1]]
            if isinstance(v, str):
                if v.startswith('opaque'):
                    v = ('opaque',)
                else:
                    v = P(self, lex(v)).type()
                self.types[t[1]] = v
            t = v
        return t

    def sizeof(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._layout(t)
            self._sz[t] = r
        return r[0]

    def alignof(self, t):
        self.sizeof(t)
        return self._sz[t][1]

    def fields(self, t):
        t = self.resolve(t)
        self.sizeof(t)
        return self._sz[t][2]

    def _layout(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return (s, min(s, 16), None)
        if k == 'ptr':
            return (8, 8, None)
        if k == 'f':
            return {32: (4, 4, None), 64: (8, 8, None), 80: (16, 16, None), 16: (2, 2, None), 128: (16, 16, None)}[t[1]]
        if k == 'arr':
            return (t[1] * self.sizeof(t[2]), self.alignof(t[2]), None)
        if k == 'vec':
            s = t[1] * self.sizeof(t[2])
            return (s, s, None)
        if k == 'struct':
            off = 0
            al = 1
            offs = []
            for f in t[1]:
                s, a = self.sizeof(f), self.alignof(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, tuple(offs))
        if k == 'opaque':
            return (0, 1, None)
        raise ParseError('layout %r' % (t,))

    # ---- globals / functions -----------------------------------------------------
    def get_global(self, name):
        g = self.globals.get(name)
        if g is None and name in self.globals_src:
            src = self.globals_src[name]
            p = P(self, lex(src))
            const = False
            ext = False
            while True:
                w = p.peek()[1]
                if w in ('constant', 'global'):
                    const = w == 'constant'
                    p.next()
                    break
                if w in ('external', 'extern_weak'):
                    ext = True
                p.next()
                if w in ('thread_local', 'addrspace') and p.peek()[1] == '(':
                    p.skip_parens()
            t = p.type()
            init = None
            if not ext:
                init = p.const(t)
            align = None
            g = (const, t, init)
            self.globals[name] = g
        return g

    def get_func(self, name):
        f = self.funcs.get(name)
        if f is None:
            name = self.aliases.get(name, name)
            src = self.funcs_src.get(name)
            if src is None:
                return None
            f = Func(self, name, *src)
            self.funcs[name] = f
        return f


PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'align', 'byval', 'sret', 'byref', 'inalloca',
                     'preallocated', 'elementtype', 'allocsize', 'memory', 'nofpclass', 'range', 'initializes', 'captures'}
PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
               'returned', 'immarg', 'inreg', 'noreturn', 'nounwind', 'nest', 'swiftself', 'allocptr', 'writable',
               'dead_on_unwind', 'nofree', 'inrange', 'builtin', 'nobuiltin', 'cold', 'dso_local', 'local_unnamed_addr'}
CALLCONV = {'ccc', 'fastcc', 'coldcc', 'tailcc', 'swiftcc'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


class P:
    """token-stream parser"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise ParseError('expected %r got %r in %r' % (s, self.t[self.i:self.i + 6], ' '.join(x[1] for x in self.t)[:300]))

    def skip_parens(self):
        self.exp('(')
        d = 1
        while d:
            x = self.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    self.next()
                    self.skip_parens()
            elif v == 'void':
                t = VOID
            elif v == 'float':
                t = ('f', 32)
            elif v == 'double':
                t = ('f', 64)
            elif v == 'half':
                t = ('f', 16)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v == 'fp128':
                t = ('f', 128)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('metadata',)
            elif v == 'token':
                t = ('token',)
            elif re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise ParseError('type %r' % v)
        elif k == 'loc':
            t = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.acc('{'):
                fs = self._fields()
                self.exp('>')
                t = ('struct', fs, True)
            else:
                n = int(self.next()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = ('vec', n, e)
        elif v == '{':
            t = ('struct', self._fields(), False)
        else:
            raise ParseError('type? %r %r' % (k, v))
        while self.peek()[1] == '(' and t[0] != 'label' and self._is_fnty():
            self.skip_parens()
            t = ('fnty', t)
        return t

    def _is_fnty(self):
        # function type such as `void (ptr, ...)` : only after a call's return type
        j = self.i + 1
        k, v = self.peek(1)
        return v == '...' or v == ')' or (k == 'word' and (v in ('ptr', 'float', 'double') or re.fullmatch(r'i\d+', v or '')))

    def _fields(self):
        fs = []
        if self.acc('}'):
            return ()
        while True:
            fs.append(self.type())
            if self.acc('}'):
                return tuple(fs)
            self.exp(',')

    # ---- constants / operands: representation
    # ('l',name) local ; ('c',int) ; ('g',name) ; ('null',) ; ('undef',) ; ('zero',) ; ('agg',[(t,v)..]) ; ('bytes',b)
    # ('gep', srcty, base, [(t,v)...]) ; ('cast',op,t1,v,t2) ; ('bin',op,t,a,b) ; ('fp',bits)
    def value(self, t):
        k, v = self.peek()
        if k == 'loc':
            self.next()
            return ('l', unq(v))
        return self.const(t)

    def const(self, t):
        k, v = self.next()
        if k == 'glb':
            return ('g', unq(v))
        if k == 'num':
            if t[0] == 'f':
                return ('c', fpbits(float(v), t[1]))
            return ('c', int(v) & ((1 << t[1]) - 1))
        if k == 'hex':
            return ('c', fphex(v, t))
        if k == 'cstr':
            return ('bytes', decode_cstr(v[2:-1]))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('zero',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                if self.peek()[1] == 'inrange':
                    self.next()
                    if self.peek()[1] == '(':
                        self.skip_parens()
                self.exp('(')
                st = self.type()
                self.exp(',')
                bt = self.type()
                b = self.value(bt)
                idx = []
                while self.acc(','):
                    if self.peek()[1] == 'inrange':
                        self.next()
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.exp(')')
                return ('gep', st, b, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                t1 = self.type()
                x = self.value(t1)
                self.exp('to')
                t2 = self.type()
                self.exp(')')
                return ('cast', v, t1, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.exp('(')
                t1 = self.type()
                a = self.value(t1)
                self.exp(',')
                self.type()
                b = self.value(t1)
                self.exp(')')
                return ('bin', v, t1, a, b)
            if v == 'blockaddress':
                self.skip_parens()
                return ('undef',)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.const(t)
        if v in ('{', '['):
            close = '}' if v == '{' else ']'
            el = []
            if not self.acc(close):
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if self.acc(close):
                        break
                    self.exp(',')
            return ('agg', el)
        if v == '<':
            if self.acc('{'):
                el = []
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if self.acc('}'):
                        break
                    self.exp(',')
                self.exp('>')
                return ('agg', el)
            el = []
            while True:
                et = self.type()
                el.append((et, self.value(et)))
                if self.acc('>'):
                    break
                self.exp(',')
            return ('agg', el)
        raise ParseError('const %r %r' % (k, v))

    def attrs(self):
        """skip parameter/return attributes; returns list of seen words"""
        seen = []
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS_PAREN:
                self.next()
                seen.append(v)
                if self.peek()[1] == '(':
                    if v in ('byval', 'sret'):
                        self.exp('(')
                        ty = self.type()
                        self.exp(')')
                        seen.append((v, ty))
                    else:
                        self.skip_parens()
                elif v == 'align':
                    self.next()
                continue
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
                seen.append(v)
                continue
            if k == 'str':
                self.next()
                if self.acc('='):
                    self.next()
                continue
            if k == 'attr':
                self.next()
                seen.append(v)
                continue
            return seen


def decode_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def fpbits(x, w):
    import struct
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    if w == 32:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    raise ParseError('fp const %d' % w)


def fphex(v, t):
    import struct
    if v[2] in 'KLMHR':
        if t == ('f', 80):
            return int(v[3:], 16)
        return int(v[3:], 16)
    bits = int(v, 16)
    if t[0] == 'f' and t[1] == 32:
        d = struct.unpack('<d', struct.pack('<Q', bits))[0]
        try:
            return struct.unpack('<I', struct.pack('<f', d))[0]
        except OverflowError:
            return 0x7f800000 if d > 0 else 0xff800000
    return bits


class Func:
    def __init__(self, mod, name, head, body):
        self.name = name
        self.mod = mod
        p = P(mod, lex(head))
        self.attrs = ''
        for k, v in p.t:
            if k == 'attr':
                self.attrs += mod.attrgroups.get(v, '')
        # skip to name
        while p.peek()[0] != 'glb':
            p.next()
        p.next()
        p.exp('(')
        self.params = []
        self.byval = {}
        if not p.acc(')'):
            while True:
                if p.peek()[1] == '...':
                    p.next()
                else:
                    t = p.type()
                    at = p.attrs()
                    nm = None
                    if p.peek()[0] == 'loc':
                        nm = unq(p.next()[1])
                    for a in at:
                        if isinstance(a, tuple) and a[0] == 'byval':
                            self.byval[len(self.params)] = a[1]
                    self.params.append((nm, t))
                if p.acc(')'):
                    break
                p.exp(',')
        # unnamed params are numbered
        cnt = 0
        ps = []
        for nm, t in self.params:
            if nm is None:
                nm = str(cnt)
                cnt += 1
            elif nm.isdigit():
                cnt = int(nm) + 1
            ps.append((nm, t))
        self.params = ps
        self.blocks = {}
        self.order = []
        self._parse_body(body, cnt)
        self._loops = None

    def _parse_body(self, lines, cnt):
        cur = None
        insts = None
        lab = re.compile(r'^("(?:[^"\\]|\\.)*"|[\w.$-]+):')
        i = 0
        n = len(lines)
        # entry label may be implicit
        while i < n:
            l = lines[i]
            if not l.strip() or l.lstrip().startswith(';'):
                i += 1
                continue
            m = lab.match(l)
            if m:
                cur = m.group(1).strip('"')
                insts = []
                self.blocks[cur] = insts
                self.order.append(cur)
                i += 1
                continue
            if cur is None:
                cur = str(cnt)
                insts = []
                self.blocks[cur] = insts
                self.order.append(cur)
            s = l
            st = l.strip()
            if ' switch ' in ' ' + st.split('=')[0] or st.startswith('switch '):
                while ']' not in re.sub(r'"[^"]*"', '', lines[i]):
                    i += 1
                    s += ' ' + lines[i]
            elif 'landingpad ' in st:
                while i + 1 < n and re.match(r'\s+(catch|cleanup|filter)\b', lines[i + 1]):
                    i += 1
                    s += ' ' + lines[i]
            elif re.match(r'(%\S+ = )?invoke ', st):
                while 'unwind label' not in s:
                    i += 1
                    s += ' ' + lines[i]
            insts.append(s.strip())
            i += 1
        self.entry = self.order[0]
        self.compiled = {}

    def block(self, name):
        c = self.compiled.get(name)
        if c is None:
            c = [self._inst(x) for x in self.blocks[name]]
            self.compiled[name] = c
        return c

    def _inst(self, s):
        p = P(self.mod, lex(s))
        dest = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dest = unq(p.next()[1])
            p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        m = getattr(self, '_i_' + op, None)
        if m:
            return m(p, dest)
        if op in BINOPS:
            flags = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek()[1] in FMF:
                flags.add(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.exp(',')
            b = p.value(t)
            return ('bin', dest, op, t, a, b, flags)
        if op in CASTS:
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.exp('to')
            return ('cast', dest, op, t, v, p.type())
        return ('unsupported', dest, s)

    def _i_ret(self, p, d):
        t = p.type()
        if t == VOID:
            return ('ret', None, None, None)
        return ('ret', None, t, p.value(t))

    def _i_br(self, p, d):
        if p.acc('label'):
            return ('br', None, unq(p.next()[1]))
        p.exp('i1')
        c = p.value(('i', 1))
        p.exp(',')
        p.exp('label')
        a = unq(p.next()[1])
        p.exp(',')
        p.exp('label')
        b = unq(p.next()[1])
        return ('cbr', None, c, a, b)

    def _i_switch(self, p, d):
        t = p.type()
        v = p.value(t)
        p.exp(',')
        p.exp('label')
        df = unq(p.next()[1])
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct = p.type()
            c = p.const(ct)
            p.exp(',')
            p.exp('label')
            cases.append((c[1], unq(p.next()[1])))
        return ('switch', None, t, v, df, cases)

    def _i_unreachable(self, p, d):
        return ('unreachable', None)

    def _i_resume(self, p, d):
        t = p.type()
        return ('resume', None, t, p.value(t))

    def _i_phi(self, p, d):
        while p.peek()[1] in FMF:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            b = unq(p.next()[1])
            p.exp(']')
            inc[b] = v
            if not p.acc(','):
                break
        return ('phi', d, t, inc)

    def _i_select(self, p, d):
        while p.peek()[1] in FMF:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.exp(',')
        t = p.type()
        a = p.value(t)
        p.exp(',')
        t2 = p.type()
        b = p.value(t2)
        return ('select', d, c, t, a, b)

    def _i_alloca(self, p, d):
        p.acc('inalloca')
        t = p.type()
        n = ('c', 1)
        al = 1
        while p.acc(','):
            if p.acc('align'):
                al = int(p.next()[1])
            elif p.peek()[0] == 'meta':
                break
            else:
                nt = p.type()
                n = p.value(nt)
        return ('alloca', d, t, n, al)

    def _i_load(self, p, d):
        atomic = p.acc('atomic')
        p.acc('volatile')
        t = p.type()
        p.exp(',')
        p.exp('ptr')
        return ('load', d, t, p.value(PTR))

    def _i_store(self, p, d):
        p.acc('atomic')
        p.acc('volatile')
        t = p.type()
        v = p.value(t)
        p.exp(',')
        p.exp('ptr')
        return ('store', None, t, v, p.value(PTR))

    def _i_getelementptr(self, p, d):
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        st = p.type()
        p.exp(',')
        p.type()
        b = p.value(PTR)
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            t = p.type()
            idx.append((t, p.value(t)))
        return ('gep', d, st, b, idx)

    def _i_icmp(self, p, d):
        pr = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        return ('icmp', d, pr, t, a, p.value(t))

    def _i_fcmp(self, p, d):
        while p.peek()[1] in FMF:
            p.next()
        pr = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        return ('fcmp', d, pr, t, a, p.value(t))

    def _i_fneg(self, p, d):
        while p.peek()[1] in FMF:
            p.next()
        t = p.type()
        return ('fneg', d, t, p.value(t))

    def _i_freeze(self, p, d):
        t = p.type()
        return ('copy', d, t, p.value(t))

    def _i_fence(self, p, d):
        return ('nop', None)

    def _i_extractvalue(self, p, d):
        t = p.type()
        v = p.value(t)
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        return ('extractvalue', d, t, v, idx)

    def _i_insertvalue(self, p, d):
        t = p.type()
        v = p.value(t)
        p.exp(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        return ('insertvalue', d, t, v, et, e, idx)

    def _i_landingpad(self, p, d):
        t = p.type()
        cl = []
        while p.peek()[1]:
            w = p.next()[1]
            if w == 'cleanup':
                cl.append(('cleanup',))
            elif w == 'catch':
                ct = p.type()
                cl.append(('catch', p.value(ct)))
            elif w == 'filter':
                ct = p.type()
                cl.append(('filter', p.value(ct)))
            else:
                break
        return ('landingpad', d, cl)

    def _i_atomicrmw(self, p, d):
        p.acc('volatile')
        op = p.next()[1]
        p.type()
        a = p.value(PTR)
        p.exp(',')
        t = p.type()
        return ('atomicrmw', d, op, a, t, p.value(t))

    def _call(self, p):
        while p.peek()[1] in FMF:
            p.next()
        while p.peek()[1] in CALLCONV:
            p.next()
        p.attrs()
        t = p.type()
        if t[0] == 'fnty':
            t = t[1]
        callee = p.value(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                at = p.type()
                attrs = p.attrs()
                if at == ('metadata',):
                    while p.peek()[1] not in (',', ')'):
                        p.next()
                    args.append((at, None, ()))
                else:
                    v = p.value(at)
                    args.append((at, v, tuple(attrs)))
                if p.acc(')'):
                    break
                p.exp(',')
        return t, callee, args

    def _i_call(self, p, d):
        t, callee, args = self._call(p)
        return ('call', d, t, callee, args)

    def _i_invoke(self, p, d):
        t, callee, args = self._call(p)
        while p.peek()[1] != 'to':
            p.next()
        p.next()
        p.exp('label')
        n = unq(p.next()[1])
        p.exp('unwind')
        p.exp('label')
        u = unq(p.next()[1])
        return ('invoke', d, t, callee, args, n, u)

    # ---- CFG ------------------------------------------------------------------
    def succs(self, b):
        t = self.block(b)[-1]
        o = t[0]
        if o == 'br':
            return [t[2]]
        if o == 'cbr':
            return [t[3], t[4]]
        if o == 'switch':
            return [t[4]] + [c[1] for c in t[5]]
        if o == 'invoke':
            return [t[5], t[6]]
        return []

    def returns(self):
        """blocks from which a normal return is reachable"""
        r = getattr(self, '_returns', None)
        if r is None:
            pred = {}
            for b in list(self.blocks):
                t = self.block(b)[-1]
                for x in ([t[5]] if t[0] == 'invoke' else self.succs(b)):
                    pred.setdefault(x, []).append(b)
            todo = [b for b in list(self.blocks) if self.block(b)[-1][0] == 'ret']
            r = set(todo)
            while todo:
                for q in pred.get(todo.pop(), ()):
                    if q not in r:
                        r.add(q)
                        todo.append(q)
            self._returns = r
        return r

    def loops(self):
        """header -> frozenset(blocks), natural loops"""
        if self._loops is not None:
            return self._loops
        # reverse postorder
        order, seen = [], set()
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                nd = None
                for q in preds[b]:
                    if q in idom:
                        if nd is None:
                            nd = q
                        else:
                            x, y = q, nd
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            nd = x
                if idom.get(b) != nd:
                    idom[b] = nd
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = {h: frozenset(v) for h, v in loops.items()}
        return self._loops


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'sitofp', 'uitofp',
         'fptosi', 'fptoui', 'addrspacecast'}

if __name__ == '__main__':
    import sys
    m = Module(open(sys.argv[1]).read())
    for f in m.funcs_src:
        F = m.get_func(f)
        for b in F.order:
            for i in F.block(b):
                if i[0] == 'unsupported':
                    print(f, i)
        F.loops()
    for g in m.globals_src:
        m.get_global(g)
    print(len(m.funcs), len(m.globals))
