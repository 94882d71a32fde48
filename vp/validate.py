"""An independent decoder and validator for the WebAssembly binary format:
core 2.0 with threads, tail calls, multi-memory, extended constant
expressions, exception handling (try_table) and custom page sizes.  It follows
the text of the specification (appendix "Validation Algorithm").

validate(bytes) -> (verdict, reason, notes): verdict is True/False; notes is a
set of reasons for which a disagreement should not be judged (documented
implementation limits, points on which spec revisions differ)."""
from . import wasm as W
from .wasm import EXNREF, EXTERNREF, F32, F64, FUNCREF, I32, I64, V128

TV = {v: k for k, v in W.VT.items()}
NUM = {I32, I64, F32, F64}
REFS = {FUNCREF, EXTERNREF, EXNREF}
UNK = '?'


class Bad(Exception):
    pass


def _key(b):
    if b[0] in (0xfc, 0xfd, 0xfe):
        n, sh = 0, 0
        for x in b[1:]:
            n |= (x & 0x7f) << sh
            sh += 7
        return b[0], n
    return b[0], None


SIMPLE = {}      # key -> (params, results, imm)
MEM = {}         # key -> (params, results, natural align, exact, lanes)
for _n, (_b, _p, _r, _f) in W.SCALAR.items():
    SIMPLE[_key(_b)] = (_p, _r, None)
for _n, (_b, _p, _r, _f, _i) in W.SIMD.items():
    SIMPLE[_key(_b)] = (_p, _r, _i)
for _n, (_b, _t, _a, _w) in {**W.LOADS, **W.VLOADS}.items():
    MEM[_key(_b)] = ((I32,), (_t,), _a, False, None)
for _n, (_b, _t, _a, _w) in {**W.STORES, **W.VSTORES}.items():
    MEM[_key(_b)] = ((I32, _t), (), _a, False, None)
for _n, (_b, _w) in W.VLANELOADS.items():
    MEM[_key(_b)] = ((I32, V128), (V128,), _w.bit_length() - 1, False, 16 // _w)
for _n, (_b, _w) in W.VLANESTORES.items():
    MEM[_key(_b)] = ((I32, V128), (), _w.bit_length() - 1, False, 16 // _w)
for _n, (_b, _t, _w, _nm) in W.ARMW.items():
    MEM[_key(_b)] = ((I32, _t), (_t,), _w.bit_length() - 1, True, None)
for _n, (_b, _t, _w) in W.ACMPXCHG.items():
    MEM[_key(_b)] = ((I32, _t, _t), (_t,), _w.bit_length() - 1, True, None)
for _n, (_b, _t, _w) in W.ALOAD.items():
    MEM[_key(_b)] = ((I32,), (_t,), _w.bit_length() - 1, True, None)
for _n, (_b, _t, _w) in W.ASTORE.items():
    MEM[_key(_b)] = ((I32, _t), (), _w.bit_length() - 1, True, None)
MEM[(0xfe, 0)] = ((I32, I32), (I32,), 2, True, None)
MEM[(0xfe, 1)] = ((I32, I32, I64), (I32,), 2, True, None)
MEM[(0xfe, 2)] = ((I32, I64, I64), (I32,), 3, True, None)


class R:
    __slots__ = ('b', 'p', 'e')

    def __init__(self, b, p=0, e=None):
        self.b, self.p, self.e = b, p, len(b) if e is None else e

    def u8(self):
        if self.p >= self.e:
            raise Bad('eof')
        x = self.b[self.p]
        self.p += 1
        return x

    def take(self, n):
        if n > self.e - self.p:
            raise Bad('eof')
        x = self.b[self.p:self.p + n]
        self.p += n
        return x

    def u(self, bits=32):
        n, sh = 0, 0
        while True:
            x = self.u8()
            if sh + 7 > bits and (x & 0x7f) >> (bits - sh):
                raise Bad('leb unused bits')
            n |= (x & 0x7f) << sh
            sh += 7
            if not x & 0x80:
                return n
            if sh >= bits:
                raise Bad('leb too long')

    def s(self, bits):
        n, sh = 0, 0
        while True:
            x = self.u8()
            left = bits - sh
            if left < 7:
                top = (x & 0x7f) >> (left - 1)
                if top != 0 and top != 0x7f >> (left - 1):
                    raise Bad('leb unused bits')
            n |= (x & 0x7f) << sh
            sh += 7
            if not x & 0x80:
                if x & 0x40:
                    n -= 1 << sh
                return n
            if sh >= bits:
                raise Bad('leb too long')

    def name(self):
        n = self.u()
        b = self.take(n)
        try:
            b.decode('utf-8')
        except UnicodeDecodeError:
            raise Bad('utf8') from None
        return b

    def sub(self, n):
        if n > self.e - self.p:
            raise Bad('eof')
        r = R(self.b, self.p, self.p + n)
        self.p += n
        return r

    def count(self):
        n = self.u()
        if n > self.e - self.p:      # every item takes at least a byte
            raise Bad('eof')
        return n

    def end(self):
        if self.p != self.e:
            raise Bad('section size')


class V:
    def __init__(self, b):
        self.r = R(b)
        self.notes = set()
        self.types, self.funcs, self.tables, self.mems, self.tags, self.globs = [], [], [], [], [], []
        self.nimpf = self.nimpg = 0
        self.datacount = None
        self.declared = set()
        self.nelem_t = []
        self.exports = set()
        self.opcount = {}

    def valtype(self, r):
        x = r.u8()
        if x not in TV:
            raise Bad('valtype')
        return TV[x]

    def reftype(self, r):
        t = self.valtype(r)
        if t not in REFS:
            raise Bad('reftype')
        return t

    def limits(self, r, mem):
        f = r.u8()
        if f & ~(0xb if mem else 1):
            raise Bad('limits flags')
        shared = bool(f & 2)
        mn = r.u()
        mx = r.u() if f & 1 else None
        pl = 16
        if f & 8:
            pl = r.u()
            self.notes.add('custom page size')   # not known to the references
            if pl not in (0, 16):
                raise Bad('page size')
        if shared and mx is None:
            raise Bad('shared without max')
        if mx is not None and mx < mn:
            raise Bad('min>max')
        if mem:
            lim = min(1 << 32 - pl, 0xffffffff)
            if mn > lim or mx is not None and mx > lim:
                raise Bad('memory too large')
        return mn, mx, shared

    def tabletype(self, r):
        t = self.reftype(r)
        if t == EXNREF:
            self.notes.add('exnref table')
        mn, mx, _ = self.limits(r, False)
        if mn > 10000000:
            self.notes.add('big table')
        self.tables.append(t)

    def globaltype(self, r):
        t = self.valtype(r)
        m = r.u8()
        if m > 1:
            raise Bad('mut')
        return t, m

    def tagtype(self, r):
        if r.u8() != 0:
            raise Bad('tag attribute')
        i = r.u()
        if i >= len(self.types):
            raise Bad('type index')
        p, q = self.types[i]
        if q:
            raise Bad('tag result')
        cells = sum({I32: 1, F32: 1, I64: 2, F64: 2, V128: 4}.get(t, 2) for t in p)
        if cells > 4:
            self.notes.add('exception size')
        if EXNREF in p:
            self.notes.add('exnref in exception')
        self.tags.append(p)

    def constexpr(self, r, want):
        st = []
        while True:
            o = r.u8()
            if o == 0x0b:
                break
            if o == 0x41:
                r.s(32)
                st.append(I32)
            elif o == 0x42:
                r.s(64)
                st.append(I64)
            elif o == 0x43:
                r.take(4)
                st.append(F32)
            elif o == 0x44:
                r.take(8)
                st.append(F64)
            elif o == 0xfd:
                if r.u() != 12:
                    raise Bad('const expr')
                r.take(16)
                st.append(V128)
            elif o == 0x23:
                i = r.u()
                if i >= len(self.globs):
                    raise Bad('global index')
                t, m = self.globs[i]
                if m:
                    raise Bad('mutable global in const expr')
                if i >= self.nimpg:
                    self.notes.add('global.get of a defined global')
                st.append(t)
            elif o == 0xd0:
                st.append(self.reftype(r))
            elif o == 0xd2:
                i = r.u()
                if i >= len(self.funcs):
                    raise Bad('function index')
                self.declared.add(i)
                st.append(FUNCREF)
            elif o in (0x6a, 0x6b, 0x6c, 0x7c, 0x7d, 0x7e):
                t = I32 if o < 0x70 else I64
                if len(st) < 2 or st[-1] != t or st[-2] != t:
                    raise Bad('const expr type')
                st.pop()
            else:
                raise Bad('const expr')
        if st != [want]:
            raise Bad('const expr type')

    # sections

    def s1(self, r):
        for _ in range(r.count()):
            if r.u8() != 0x60:
                raise Bad('functype')
            p = [self.valtype(r) for _ in range(r.count())]
            q = [self.valtype(r) for _ in range(r.count())]
            if len(p) > 1000 or len(q) > 1000:
                self.notes.add('many params')
            self.types.append((tuple(p), tuple(q)))

    def s2(self, r):
        for _ in range(r.count()):
            r.name()
            r.name()
            k = r.u8()
            if k == 0:
                i = r.u()
                if i >= len(self.types):
                    raise Bad('type index')
                self.funcs.append(i)
            elif k == 1:
                self.tabletype(r)
            elif k == 2:
                self.mems.append(self.limits(r, True))
            elif k == 3:
                self.globs.append(self.globaltype(r))
            elif k == 4:
                self.tagtype(r)
            else:
                raise Bad('import kind')
        self.nimpf, self.nimpg = len(self.funcs), len(self.globs)

    def s3(self, r):
        for _ in range(r.count()):
            i = r.u()
            if i >= len(self.types):
                raise Bad('type index')
            self.funcs.append(i)

    def s4(self, r):
        for _ in range(r.count()):
            self.tabletype(r)

    def s5(self, r):
        for _ in range(r.count()):
            self.mems.append(self.limits(r, True))

    def s13(self, r):
        for _ in range(r.count()):
            self.tagtype(r)

    def s6(self, r):
        for _ in range(r.count()):
            t, m = self.globaltype(r)
            self.constexpr(r, t)
            self.globs.append((t, m))

    def s7(self, r):
        for _ in range(r.count()):
            n = r.name()
            if n in self.exports:
                raise Bad('duplicate export')
            self.exports.add(n)
            k = r.u8()
            i = r.u()
            if k > 4:
                raise Bad('export kind')
            if i >= len((self.funcs, self.tables, self.mems, self.globs, self.tags)[k]):
                raise Bad('export index')
            if k == 0:
                self.declared.add(i)

    def s8(self, r):
        i = r.u()
        if i >= len(self.funcs):
            raise Bad('start index')
        if self.types[self.funcs[i]] != ((), ()):
            raise Bad('start type')

    def s9(self, r):
        for _ in range(r.count()):
            f = r.u()
            if f > 7:
                raise Bad('elem flags')
            tab = None
            if not f & 1:
                tab = r.u() if f & 2 else 0
                if tab >= len(self.tables):
                    raise Bad('table index')
                self.constexpr(r, I32)
            if f & 4:
                t = self.reftype(r) if f & 3 else FUNCREF
                for _ in range(r.count()):
                    self.constexpr(r, t)
            else:
                t = FUNCREF
                if f & 3 and r.u8() != 0:
                    raise Bad('elemkind')
                for _ in range(r.count()):
                    i = r.u()
                    if i >= len(self.funcs):
                        raise Bad('function index')
                    self.declared.add(i)
            if tab is not None and self.tables[tab] != t:
                raise Bad('elem type')
            self.nelem_t.append(t)

    def s12(self, r):
        self.datacount = r.u()

    def s10(self, r):
        n = r.u()
        if n != len(self.funcs) - self.nimpf:
            raise Bad('function and code count')
        self.ncode = n
        for i in range(n):
            body = r.sub(r.u())
            self.body(body, self.types[self.funcs[self.nimpf + i]])

    def s11(self, r):
        n = r.count()
        self.ndata = n
        for _ in range(n):
            f = r.u()
            if f > 2:
                raise Bad('data flags')
            if f != 1:
                m = r.u() if f == 2 else 0
                if m >= len(self.mems):
                    raise Bad('memory index')
                self.constexpr(r, I32)
            r.take(r.u())

    def run(self):
        r = self.r
        if r.take(4) != b'\0asm' or r.take(4) != b'\1\0\0\0':
            raise Bad('magic')
        order = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 13: 6, 6: 7, 7: 8, 8: 9, 9: 10, 12: 11, 10: 12, 11: 13}
        last = 0
        self.ncode = self.ndata = None
        while r.p < r.e:
            i = r.u8()
            s = r.sub(r.u())
            if i == 0:
                n = s.name()
                if n == b'dylink.0' or n.startswith(b'dylink'):
                    self.notes.add('dylink')
                continue
            if i not in order:
                raise Bad('section id')
            if order[i] <= last:
                raise Bad('section order')
            last = order[i]
            getattr(self, f's{i}')(s)
            s.end()
        if (self.ncode or 0) != len(self.funcs) - self.nimpf:
            raise Bad('function and code count')
        if self.datacount is not None and self.datacount != (self.ndata or 0):
            raise Bad('data count')

    # function bodies

    def body(self, r, ft):
        locs = list(ft[0])
        total = 0
        for _ in range(r.u()):
            n = r.u()
            t = self.valtype(r)
            total += n
            if total >= 1 << 32:
                raise Bad('too many locals')
            if total > 50000:
                self.notes.add('many locals')
                n = 0
            locs += [t] * n
        F(self, r, locs, ft).run()
        r.end()


class F:
    def __init__(self, v, r, locs, ft):
        self.v, self.r, self.locs, self.ft = v, r, locs, ft
        self.st = []
        self.cf = []   # [opcode, start types, end types, height, unreachable]

    def pop(self, want=None):
        h = self.cf[-1]
        if len(self.st) == h[3]:
            if h[4]:
                return want or UNK
            raise Bad('stack underflow')
        t = self.st.pop()
        if want and t != want and t != UNK and want != UNK:
            raise Bad('type mismatch')
        return want if t == UNK and want else t

    def pops(self, ts):
        got = [self.pop(t) for t in reversed(ts)]
        got.reverse()
        return got

    def push(self, ts):
        self.st.extend(ts)

    def ctrl(self, op, s, e):
        self.cf.append([op, s, e, len(self.st), False])
        self.push(s)

    def popctrl(self):
        c = self.cf[-1]
        self.pops(c[2])
        if len(self.st) != c[3]:
            raise Bad('values left')
        self.cf.pop()
        return c

    def dead(self):
        c = self.cf[-1]
        del self.st[c[3]:]
        c[4] = True

    def label(self, i=None):
        i = self.r.u() if i is None else i
        if i >= len(self.cf):
            raise Bad('label')
        c = self.cf[-1 - i]
        return c[1] if c[0] == 'loop' else c[2]

    def bt(self):
        r = self.r
        x = r.b[r.p] if r.p < r.e else None
        if x is None:
            raise Bad('eof')
        if x == 0x40:
            r.p += 1
            return (), ()
        if x in TV:
            r.p += 1
            return (), (TV[x],)
        n = r.s(33)
        if n < 0:
            self.v.notes.add('long blocktype') if x & 0x80 else None
            raise Bad('blocktype')
        if n >= len(self.v.types):
            raise Bad('type index')
        return self.v.types[n]

    def memidx(self, i):
        if i >= len(self.v.mems):
            raise Bad('memory index')

    def memarg(self, nat, exact):
        a = self.r.u()
        m = 0
        if a >= 0x80:
            raise Bad('memarg flags')
        if a & 0x40:
            m = self.r.u()
            a &= 0x3f
        self.r.u()
        self.memidx(m)
        if a > nat or exact and a != nat:
            raise Bad('alignment')

    def idx(self, lst, what):
        i = self.r.u()
        if i >= len(lst):
            raise Bad(what)
        return lst[i]

    def call(self, ft, tail):
        self.pops(ft[0])
        if tail:
            if ft[1] != self.ft[1]:
                raise Bad('tail call type')
            self.dead()
        else:
            self.push(ft[1])

    def run(self):
        v, r = self.v, self.r
        self.ctrl('func', (), self.ft[1])
        oc = v.opcount
        while True:
            o = r.u8()
            k = (o, None)
            if o in (0xfc, 0xfd, 0xfe):
                k = (o, r.u())
            oc[k] = oc.get(k, 0) + 1
            s = SIMPLE.get(k)
            if s:
                if s[2] is not None and r.u8() >= s[2]:
                    raise Bad('lane')
                self.pops(s[0])
                self.push(s[1])
                continue
            s = MEM.get(k)
            if s:
                self.memarg(s[2], s[3])
                if s[4] is not None and r.u8() >= s[4]:
                    raise Bad('lane')
                self.pops(s[0])
                self.push(s[1])
                continue
            if o == 0x0b:
                c = self.popctrl()
                if c[0] == 'if' and tuple(c[1]) != tuple(c[2]):
                    raise Bad('if without else')
                if not self.cf:
                    return
                self.push(c[2])
            elif o == 0x00:
                self.dead()
            elif o == 0x01:
                pass
            elif o in (0x02, 0x03, 0x04):
                p, q = self.bt()
                if o == 4:
                    self.pop(I32)
                self.pops(p)
                self.ctrl({2: 'block', 3: 'loop', 4: 'if'}[o], p, q)
            elif o == 0x05:
                if self.cf[-1][0] != 'if':
                    raise Bad('else')
                c = self.popctrl()
                self.ctrl('else', c[1], c[2])
            elif o == 0x08:
                p = self.idx(v.tags, 'tag index')
                self.pops(p)
                self.dead()
            elif o == 0x0a:
                self.pop(EXNREF)
                self.dead()
            elif o == 0x0c:
                self.pops(self.label())
                self.dead()
            elif o == 0x0d:
                l = self.label()
                self.pop(I32)
                self.pops(l)
                self.push(l)
            elif o == 0x0e:
                ls = [r.u() for _ in range(r.count())]
                d = r.u()
                self.pop(I32)
                dt = self.label(d)
                for x in ls:
                    lt = self.label(x)
                    if len(lt) != len(dt):
                        raise Bad('br_table arity')
                    self.push(self.pops(lt))
                self.pops(dt)
                self.dead()
            elif o == 0x0f:
                self.pops(self.ft[1])
                self.dead()
            elif o in (0x10, 0x12):
                t = self.idx(v.funcs, 'function index')
                self.call(v.types[t], o == 0x12)
            elif o in (0x11, 0x13):
                t = self.idx(v.types, 'type index')
                tab = self.idx(v.tables, 'table index')
                if tab != FUNCREF:
                    raise Bad('table type')
                self.pop(I32)
                self.call(t, o == 0x13)
            elif o == 0x1a:
                self.pop()
            elif o == 0x1b:
                self.pop(I32)
                a = self.pop()
                b = self.pop()
                if a in REFS or b in REFS:
                    raise Bad('select ref')
                if a != b and UNK not in (a, b):
                    raise Bad('select')
                self.push([b if a == UNK else a])
            elif o == 0x1c:
                n = r.u()
                if n != 1:
                    raise Bad('select vector')
                t = v.valtype(r)
                self.pop(I32)
                self.pop(t)
                self.pop(t)
                self.push([t])
            elif o == 0x1f:
                p, q = self.bt()
                self.pops(p)
                for _ in range(r.count()):
                    k = r.u8()
                    if k > 3:
                        raise Bad('catch kind')
                    ts = []
                    if k < 2:
                        ts += self.idx(v.tags, 'tag index')
                    if k & 1:
                        ts.append(EXNREF)
                    if tuple(self.label()) != tuple(ts):
                        raise Bad('catch type')
                self.ctrl('try', p, q)
            elif o == 0x20:
                self.push([self.idx(self.locs, 'local index')])
            elif o == 0x21:
                self.pop(self.idx(self.locs, 'local index'))
            elif o == 0x22:
                t = self.idx(self.locs, 'local index')
                self.pop(t)
                self.push([t])
            elif o == 0x23:
                self.push([self.idx(v.globs, 'global index')[0]])
            elif o == 0x24:
                t, m = self.idx(v.globs, 'global index')
                if not m:
                    raise Bad('immutable global')
                self.pop(t)
            elif o == 0x25:
                t = self.idx(v.tables, 'table index')
                self.pop(I32)
                self.push([t])
            elif o == 0x26:
                t = self.idx(v.tables, 'table index')
                self.pop(t)
                self.pop(I32)
            elif o == 0x3f:
                self.memidx(r.u())
                self.push([I32])
            elif o == 0x40:
                self.memidx(r.u())
                self.pop(I32)
                self.push([I32])
            elif o == 0x41:
                r.s(32)
                self.push([I32])
            elif o == 0x42:
                r.s(64)
                self.push([I64])
            elif o == 0x43:
                r.take(4)
                self.push([F32])
            elif o == 0x44:
                r.take(8)
                self.push([F64])
            elif o == 0xd0:
                self.push([v.reftype(r)])
            elif o == 0xd1:
                t = self.pop()
                if t != UNK and t not in REFS:
                    raise Bad('ref.is_null')
                self.push([I32])
            elif o == 0xd2:
                i = r.u()
                if i >= len(v.funcs):
                    raise Bad('function index')
                if i not in v.declared:
                    raise Bad('undeclared function reference')
                self.push([FUNCREF])
            elif o == 0xfc:
                self.fc(k[1])
            elif k == (0xfd, 12):
                r.take(16)
                self.push([V128])
            elif k == (0xfd, 13):
                if any(x >= 32 for x in r.take(16)):
                    raise Bad('lane')
                self.pops([V128, V128])
                self.push([V128])
            elif k == (0xfe, 3):
                if r.u8() != 0:
                    raise Bad('fence')
            else:
                raise Bad('opcode %x %s' % (o, k[1]))

    def fc(self, n):
        v, r = self.v, self.r
        if n == 8:
            d = r.u()
            self.memidx(r.u())
            if v.datacount is None or d >= v.datacount:
                raise Bad('data index')
            self.pops([I32] * 3)
        elif n == 9:
            d = r.u()
            if v.datacount is None or d >= v.datacount:
                raise Bad('data index')
        elif n == 10:
            self.memidx(r.u())
            self.memidx(r.u())
            self.pops([I32] * 3)
        elif n == 11:
            self.memidx(r.u())
            self.pops([I32] * 3)
        elif n == 12:
            e = self.idx(v.nelem_t, 'elem index')
            t = self.idx(v.tables, 'table index')
            if e != t:
                raise Bad('table.init type')
            self.pops([I32] * 3)
        elif n == 13:
            self.idx(v.nelem_t, 'elem index')
        elif n == 14:
            a = self.idx(v.tables, 'table index')
            b = self.idx(v.tables, 'table index')
            if a != b:
                raise Bad('table.copy type')
            self.pops([I32] * 3)
        elif n == 15:
            t = self.idx(v.tables, 'table index')
            self.pop(I32)
            self.pop(t)
            self.push([I32])
        elif n == 16:
            self.idx(v.tables, 'table index')
            self.push([I32])
        elif n == 17:
            t = self.idx(v.tables, 'table index')
            self.pop(I32)
            self.pop(t)
            self.pop(I32)
        else:
            raise Bad('opcode fc %d' % n)


def validate(b):
    v = V(b)
    try:
        v.run()
        return True, '', v.notes
    except Bad as e:
        return False, str(e), v.notes


def stats(b):
    v = V(b)
    try:
        v.run()
        return True, v.opcount
    except Bad:
        return False, v.opcount
