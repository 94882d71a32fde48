"""Random, type-correct, terminating WebAssembly programs.

Programs keep an i64 accumulator ("hash" global) into which intermediate
values are mixed, so that one exported value summarises a run.  Loops and
calls burn fuel, and running out executes `unreachable`.  NaN results of
float arithmetic are canonicalised in the program itself, so that the
reference and toywasm must agree on every bit."""
from . import wasm as W
from .ops import rnd
from .wasm import (DROP, ELSE, END, EXNREF, EXTERNREF, F32, F64, FUNCREF, I32, I64, RETURN, SELECT, UNREACHABLE, V128, br,
                   br_if, call, fc, gget, gset, i32c, i64c, leb_u, lget, lset, ltee, memarg)

CANON = {F32: 0x7fc00000, F64: 0x7ff8000000000000}
NUM = (I32, I64, F32, F64)
CELLS = {I32: 1, F32: 1, I64: 2, F64: 2, V128: 4, FUNCREF: 2, EXTERNREF: 2}

DEFAULT = dict(
    funcs=(3, 7), locals=(0, 10), body=(4, 22), depth=4, results=3, params=4, fuel=250, runs=4,
    simd=True, refs=True, mem=True, table=True, eh=True, tail=True, multimem=True, bulk=True, grow=True, atomics=False,
    exn_locals=True,
    trap=0.02,           # how readily trapping things are generated
    w=dict(push=18, scalar=26, simd=7, local=16, glob=6, mix=8, drop=3, select=4, store=7, load=7, block=9, loop=4, if_=7,
           br=2.0, br_if=8, br_table=3, ret=1, call=6, calli=4, tailcall=1.0, unreachable=0.3, throw=1.0, try_=3,
           memop=3, tableop=3, ref=3, nop=1, atomic=0),
)


def opts(**kw):
    o = dict(DEFAULT)
    w = dict(DEFAULT['w'])
    w.update(kw.pop('w', {}))
    o.update(kw)
    o['w'] = w
    if not o['simd']:
        w['simd'] = 0
    if not o['refs']:
        w['ref'] = w['tableop'] = 0
    if not o['mem']:
        w['store'] = w['load'] = w['memop'] = 0
    if not o['eh']:
        w['throw'] = w['try_'] = 0
    if not o['tail']:
        w['tailcall'] = 0
    return o


class Prog:
    def __init__(self, r, **kw):
        self.r = r
        self.o = opts(**kw)
        self.m = W.Module()
        self.vts = [I32, I32, I64, I64, F32, F64] + ([V128, V128] if self.o['simd'] else []) + \
            ([FUNCREF, EXTERNREF] if self.o['refs'] else [])
        self.feat = set()
        self.build()

    def vt(self):
        return self.r.choice(self.vts)

    def vtl(self, n):
        return [self.vt() for _ in range(self.r.randint(0, n))]

    def imports(self):
        pass

    def build(self):
        r, m, o = self.r, self.m, self.o
        self.imports()
        # fuel, hash, user globals
        self.g_fuel = m.global_(I32, True, i32c(0))
        self.g_hash = m.global_(I64, True, i64c(0x9e3779b97f4a7c15))
        m.export('hash', 3, self.g_hash)
        self.globals = []  # (idx, type, mut)
        for _ in range(r.randint(2, 7)):
            t = self.vt()
            if t == FUNCREF:
                init = b'\xd0\x70'
            else:
                init = W.const(t, rnd(r, t) if t not in (EXTERNREF,) else 0)
            mut = r.random() < 0.8
            self.globals.append((m.global_(t, mut, init), t, mut))
        # memories
        self.mems = []
        nm = r.choice([1, 1, 1, 2, 3]) if o['multimem'] else 1
        if o['mem']:
            for i in range(nm):
                mn = r.choice([1, 1, 1, 2, 0 if i else 1])
                mx = r.choice([None, mn, mn + 1, mn + 3])
                self.mems.append((m.memory(mn, mx), mn))
        # tags: payload limited to what an exception can hold
        self.tags = []
        if o['eh']:
            for _ in range(r.randint(1, 4)):
                ps, cells = [], 0
                for _ in range(r.randint(0, 4)):
                    t = r.choice([x for x in self.vts if x != FUNCREF] or [I32])
                    if cells + CELLS[t] > 4:
                        break
                    cells += CELLS[t]
                    ps.append(t)
                self.tags.append((m.tag(ps), ps))
        # function signatures first
        self.fns = []
        nf = r.randint(*o['funcs'])
        sigs = []
        for k in range(nf):
            if sigs and r.random() < 0.35:
                s = r.choice(sigs)
            else:
                s = (self.vtl(o['params']), self.vtl(o['results']))
            sigs.append(s)
        for p, q in sigs:
            i = m.func(p, q)
            self.fns.append((i, list(p), list(q)))
        # tables
        self.tables = []  # (idx, type, size)
        if o['table']:
            n = r.randint(nf, nf + 4)
            mx = r.choice([None, n, n + 5])
            self.tables.append((m.table(FUNCREF, n, mx), FUNCREF, n))
            if r.random() < 0.3 and o['refs']:
                self.tables.append((m.table(FUNCREF, 3, 8), FUNCREF, 3))
            if o['refs']:
                self.tables.append((m.table(EXTERNREF, 4, 9), EXTERNREF, 4))
            ent = [r.choice(self.fns)[0] for _ in range(n - r.randint(0, 2))]
            self.tent = ent
            m.elems.append(b'\0' + i32c(0) + END + W.vec(leb_u(x) for x in ent))
        self.nelem = len(m.elems)
        self.elems = []  # passive segments: (idx, len)
        if o['table'] and o['refs']:
            for _ in range(r.randint(0, 2)):
                ent = [r.choice(self.fns)[0] for _ in range(r.randint(0, 5))]
                if r.random() < 0.5:
                    m.elems.append(b'\1\0' + W.vec(leb_u(x) for x in ent))
                else:
                    m.elems.append(b'\5\x70' + W.vec((b'\xd2' + leb_u(x) if r.random() < 0.8 else b'\xd0\x70') + END for x in ent))
                self.elems.append((len(m.elems) - 1, len(ent)))
            m.elems.append(b'\3\0' + W.vec(leb_u(f[0]) for f in self.fns))
        # data
        self.datas = []
        if self.mems:
            for i, mn in self.mems:
                if mn:
                    d = r.randbytes(r.randint(0, 300))
                    off = r.randrange(0, 1000)
                    if i == 0:
                        m.datas.append(b'\0' + i32c(off) + END + leb_u(len(d)) + d)
                    else:
                        m.datas.append(b'\2' + leb_u(i) + i32c(off) + END + leb_u(len(d)) + d)
            if o['bulk']:
                for _ in range(r.randint(0, 2)):
                    d = r.randbytes(r.randint(0, 60))
                    m.datas.append(b'\1' + leb_u(len(d)) + d)
                    self.datas.append((len(m.datas) - 1, len(d)))
            m.datacount = len(m.datas)
        for i, p, q in self.fns:
            ls, body = FuncGen(self, p, q).gen()
            m.set_body(i, ls, body)
        # wrappers
        self.runs = []
        for k in range(o['runs']):
            f = self.fns[k % len(self.fns)] if k < len(self.fns) else r.choice(self.fns)
            self.runs.append(self.wrapper(k, f))
        for k, (i, mn) in enumerate(self.mems):
            self.sumfn(i)
        m.export('nop', 0, m.func([], [], [], b''))
        self.extra()

    def extra(self):
        pass

    def mixcode(self, t, scratch=None):
        """Consumes a value of type t."""
        to = {I32: b'\xad', I64: b'', F32: b'\xbc\xad', F64: b'\xbd', FUNCREF: b'\xd1\xad', EXTERNREF: b'\xd1\xad',
              EXNREF: b'\xd1\xad'}
        h = self.g_hash
        step = gget(h) + i64c(0x2545f4914f6cdd1d) + b'\x7e' + b'\x85' + i64c(17) + b'\x89' + gset(h)
        if t == V128:
            return lset(scratch) + lget(scratch) + W.fd(29) + b'\0' + step + lget(scratch) + W.fd(29) + b'\1' + step
        return to[t] + step

    def wrapper(self, k, f):
        """rK(i32, i64) -> i64: calls f with arguments derived from its own."""
        r = self.r
        i, p, q = f
        body = i32c(self.o['fuel']) + gset(self.g_fuel)
        for t in p:
            z = r.random()
            if t == I32:
                body += lget(0) + (i32c(r.getrandbits(32)) + b'\x6a' if z < 0.5 else b'')
            elif t == I64:
                body += lget(1) + (i64c(r.getrandbits(64)) + b'\x7c' if z < 0.5 else b'')
            elif t == F32:
                body += lget(0) + b'\xb2'
            elif t == F64:
                body += lget(1) + b'\xb9'
            elif t == V128:
                body += lget(1) + W.fd(18) + lget(0) + W.fd(28) + b'\2'
            elif t == FUNCREF:
                body += (b'\xd2' + leb_u(r.choice(self.fns)[0])) if z < 0.7 and self.o['refs'] and self.o['table'] else b'\xd0\x70'
            elif t == EXTERNREF:
                body += lget(2)
        body += call(i)
        for t in reversed(q):
            body += self.mixcode(t, 3)
        body += gget(self.g_hash)
        nm = f'r{k}'
        self.m.efunc(nm, [I32, I64, EXTERNREF], [I64], [V128] if self.o['simd'] else [], body)
        return nm

    def sumfn(self, i):
        """sumI(lo, hi) -> i64: checksum of bytes [lo, min(hi, size)), 8 at a time."""
        # locals: 0 lo, 1 hi, 2 h
        body = b''
        # hi = min(hi, memory size in bytes); sizes here are < 65536 pages
        body += b'\x3f' + leb_u(i) + i32c(16) + b'\x74' + ltee(3) + lget(1) + lget(3) + lget(1) + b'\x49' + SELECT + lset(1)
        body += b'\x02\x40\x03\x40'
        body += lget(0) + i32c(8) + b'\x6a' + lget(1) + b'\x4b' + br_if(1)
        body += lget(0) + b'\x29' + memarg(0, 0, i) + lget(2) + b'\x85' + i64c(0x100000001b3) + b'\x7e' + i64c(23) + b'\x89' + lset(2)
        body += lget(0) + i32c(8) + b'\x6a' + lset(0) + br(0)
        body += END + END
        body += lget(2) + b'\x3f' + leb_u(i) + b'\xad' + b'\x7c'
        self.m.efunc(f'sum{i}', [I32, I32], [I64], [I64, I32], body)

    def steps(self, diff, nruns=None, r=None, mod='m', full_sum=0.1):
        r = r or self.r
        s = [diff.load(mod, self.m.encode2())]
        for k in range(nruns or len(self.runs) * 2):
            rn = self.runs[k % len(self.runs)]
            s.append(diff.invoke(mod, rn, [(I32, rnd(r, I32)), (I64, rnd(r, I64)),
                                           (EXTERNREF, r.choice(['null', 1, 2, 77]))], [I64]))
            if r.random() < 0.4:
                s.append(diff.global_(mod, 'hash', I64))
        s.append(diff.global_(mod, 'hash', I64))
        for i, mn in self.mems:
            full = r.random() < full_sum
            s.append(diff.invoke(mod, f'sum{i}', [(I32, 0), (I32, 1 << 30 if full else 4096)], [I64]))
        return s


class Label:
    __slots__ = ('types',)

    def __init__(self, types):
        self.types = list(types)


class FuncGen:
    def __init__(self, P, params, results):
        self.P = P
        self.r = P.r
        self.o = P.o
        self.params = list(params)
        self.results = list(results)
        r = self.r
        n = r.randint(*self.o['locals'])
        if r.random() < 0.04:
            n += r.randint(20, 60)
        self.locals = list(params)
        decl = []
        for _ in range(n):
            t = P.vt()
            k = r.choice([1, 1, 1, 2, 3])
            decl += [t] * k
        if self.o['eh'] and self.o['exn_locals'] and r.random() < 0.3:
            decl.append(EXNREF)
        self.locals += decl
        # scratch locals for canonicalisation and mixing, scattered
        self.scratch = {}
        for t in (F32, F64) + ((V128,) if self.o['simd'] else ()):
            self.scratch[t] = len(self.locals)
            self.locals.append(t)
            decl.append(t)
        self.decl = decl
        self.user = [i for i in range(len(self.locals)) if i not in self.scratch.values()]
        self.out = bytearray()
        self.labels = []      # innermost last
        self.st = []
        self.budget = r.randint(*self.o['body'])
        w = self.o['w']
        self.acts = [k for k in w if w[k] > 0]
        self.wts = [w[k] for k in self.acts]

    def e(self, b):
        self.out += b

    def burn(self):
        g = self.P.g_fuel
        self.e(gget(g) + b'\x45\x04\x40' + UNREACHABLE + END + gget(g) + i32c(1) + b'\x6b' + gset(g))

    def gen(self):
        self.burn()
        self.labels = [Label(self.results)]
        self.body(self.results, self.o['depth'])
        return self.decl, bytes(self.out)

    # ------------------------------------------------ producing values
    def push(self, t, depth=2):
        """Emit code pushing one value of type t."""
        r = self.r
        k = r.random()
        cands = [i for i in self.user if self.locals[i] == t]
        if k < 0.4 and cands:
            self.e(lget(r.choice(cands)))
        elif k < 0.5:
            gs = [g for g, gt, mut in self.P.globals if gt == t]
            if gs:
                self.e(gget(r.choice(gs)))
            else:
                self.const(t)
        elif k < 0.62 and depth > 0 and t in NUM:
            # small expression
            cs = [d for d in W.SCALAR.values() if d[2] == (t,) and 't' not in d[3]]
            b, p, q, fl = r.choice(cs)
            for x in p:
                self.push(x, depth - 1)
            self.st[len(self.st) - len(p):] = []
            self.e(b)
            self.canon(t, fl)
        elif k < 0.7 and self.P.mems and t in NUM + (V128,) and self.o['mem']:
            self.load(t)
            return
        else:
            self.const(t)
        self.st.append(t)

    def const(self, t):
        r = self.r
        if t == FUNCREF:
            if r.random() < 0.6 and self.o['refs'] and self.o['table']:
                self.e(b'\xd2' + leb_u(r.choice(self.P.fns)[0]))
            else:
                self.e(b'\xd0\x70')
        elif t in (EXTERNREF, EXNREF):
            self.e(W.const(t, 0))
        else:
            self.e(W.const(t, rnd(r, t)))

    def canon(self, t, fl):
        if 'n' in fl and t in (F32, F64):
            s = self.scratch[t]
            eq = b'\x5b' if t == F32 else b'\x61'
            self.e(ltee(s) + W.const(t, CANON[t]) + lget(s) + lget(s) + eq + SELECT)
        elif t == V128 and ('f' in fl or 'd' in fl):
            s = self.scratch[V128]
            if 'f' in fl:
                cv = sum(CANON[F32] << (32 * i) for i in range(4))
                eq = W.SIMD['f32x4.eq'][0]
            else:
                cv = sum(CANON[F64] << (64 * i) for i in range(2))
                eq = W.SIMD['f64x2.eq'][0]
            self.e(ltee(s) + W.v128c(cv) + lget(s) + lget(s) + eq + W.SIMD['v128.bitselect'][0])

    def need(self, types):
        """Make types the top of the stack, reusing what is there if it fits."""
        types = list(types)
        n = len(types)
        if n and self.r.random() < 0.6:
            # longest suffix of the stack which is a prefix of types
            for k in range(min(n, len(self.st)), 0, -1):
                if self.st[-k:] == types[:k]:
                    for t in types[k:]:
                        self.push(t)
                    return
        for t in types:
            self.push(t)

    def pop(self, n):
        if n:
            del self.st[-n:]

    # ------------------------------------------------ blocks
    def bt(self, params, results):
        if not params and not results:
            return b'\x40'
        if not params and len(results) == 1 and self.r.random() < 0.7:
            return bytes([W.VT[results[0]]])
        return W.leb_s(self.P.m.type(params, results))

    def body(self, results, depth):
        """Generate instructions until the stack holds exactly results."""
        n = self.r.randint(1, max(1, self.budget))
        if depth < self.o['depth']:
            n = self.r.randint(0, 7)
        dead = False
        for _ in range(n):
            dead = self.act(depth)
            if dead:
                break
        r = self.r
        if dead:
            # after an unconditional branch the stack is polymorphic
            self.st = []
            if r.random() < 0.5:
                self.dead_code(results, depth)
            return
        if self.st == list(results):
            return
        if len(results) <= len(self.st) and (not results or self.st[-len(results):] == list(results)) and r.random() < 0.6:
            self.e(br(0) if self.labels[-1].types == list(results) else b'')
            if self.labels[-1].types == list(results):
                return
        while self.st:
            t = self.st.pop()
            if r.random() < 0.3 and t not in (EXNREF,):
                self.e(self.P.mixcode(t, self.scratch.get(V128)))
            else:
                self.e(DROP)
        for t in results:
            self.push(t)

    def dead_code(self, results, depth):
        """Type-correct code that never runs; its stack starts polymorphic."""
        r = self.r
        self.P.feat.add('dead')
        for _ in range(r.randint(1, 4)):
            k = r.randrange(7)
            if k == 2:
                if self.act(min(depth, 1)):
                    self.st = []
                continue
            # drop what is known to be there; below is the polymorphic part
            self.e(DROP * len(self.st))
            self.st = []
            if k == 0:
                b, p, q, fl = r.choice(list(W.SCALAR.values()))
                have = r.randint(0, len(p))
                # the operands nearest to the top are real, the rest come
                # from the polymorphic part
                self.e(DROP * r.randint(0, 2))
                for t in p[len(p) - have:]:
                    self.push(t, 0)
                self.e(b)
                self.st = [q[0]]
            elif k == 1:
                self.e(SELECT + DROP)
            elif k == 3:
                self.e(b'\x02\x40' + UNREACHABLE + END)
            elif k == 4:
                self.e(br(r.randrange(len(self.labels))))
            elif k == 5:
                l = r.randrange(len(self.labels))
                ts = self.lab(l)
                keep = r.randint(0, len(ts))
                for t in ts[len(ts) - keep:]:
                    self.push(t, 0)
                self.e(i32c(1) + br_if(l))
                self.st = list(ts)
            else:
                self.e(DROP)
        # leave a correct (possibly partial) suffix of results
        self.e(DROP * len(self.st))
        self.st = []
        self.e(RETURN if r.random() < 0.3 else UNREACHABLE)
        keep = r.randint(0, len(results))
        for t in results[len(results) - keep:]:
            self.push(t, 0)

    def nested(self, params, results, label, gen):
        """params are on top of the stack; run gen inside a fresh frame."""
        outer = self.st[:len(self.st) - len(params)]
        self.st = list(params)
        self.labels.append(Label(label))
        gen()
        self.labels.pop()
        self.st = outer + list(results)

    def pick_params(self):
        k = self.r.choice([0, 0, 0, 1, 2, 3])
        k = min(k, len(self.st))
        ps = self.st[len(self.st) - k:] if k else []
        if EXNREF in ps:
            return []
        return ps

    # ------------------------------------------------ one action
    def act(self, depth):
        """Returns True when the rest of the block is dead."""
        r = self.r
        a = r.choices(self.acts, self.wts)[0]
        return getattr(self, 'a_' + a)(depth)

    def a_nop(self, d):
        self.e(b'\x01')

    def a_push(self, d):
        self.push(self.P.vt())

    def a_scalar(self, d):
        r = self.r
        while True:
            b, p, q, fl = r.choice(list(W.SCALAR.values()))
            if 't' in fl and r.random() > self.o['trap'] * 5:
                continue
            break
        self.need(p)
        self.pop(len(p))
        self.e(b)
        self.canon(q[0], fl)
        self.st.append(q[0])

    def a_simd(self, d):
        r = self.r
        if r.random() < 0.1:
            self.need([V128, V128])
            self.pop(2)
            self.e(W.SHUFFLE + bytes(r.randrange(32) for _ in range(16)))
            self.st.append(V128)
            return
        b, p, q, fl, lanes = r.choice(list(W.SIMD.values()))
        self.need(p)
        self.pop(len(p))
        self.e(b + (bytes([r.randrange(lanes)]) if lanes else b''))
        self.canon(q[0], fl)
        self.st.append(q[0])

    def a_local(self, d):
        r = self.r
        i = r.choice(self.user) if self.user else None
        if i is None:
            return
        t = self.locals[i]
        self.need([t])
        if r.random() < 0.4:
            self.e(ltee(i))
        else:
            self.e(lset(i))
            self.pop(1)

    def a_glob(self, d):
        r = self.r
        g, t, mut = r.choice(self.P.globals)
        if mut and r.random() < 0.5:
            self.need([t])
            self.e(gset(g))
            self.pop(1)
        else:
            self.e(gget(g))
            self.st.append(t)

    def a_mix(self, d):
        if not self.st:
            self.push(self.P.vt())
        t = self.st.pop()
        self.e(self.P.mixcode(t, self.scratch.get(V128)))

    def a_drop(self, d):
        if self.st:
            self.e(DROP)
            self.pop(1)

    def a_select(self, d):
        r = self.r
        t = self.P.vt()
        self.need([t, t, I32])
        if t in (FUNCREF, EXTERNREF) or r.random() < 0.3:
            self.e(b'\x1c\x01' + bytes([W.VT[t]]))
        else:
            self.e(SELECT)
        self.pop(3)
        self.st.append(t)

    # memory
    def mem(self):
        return self.r.choice(self.P.mems)[0]

    def addr(self):
        """Push an address, mostly within the first page."""
        r = self.r
        k = r.random()
        if k < self.o['trap']:
            self.push(I32)
        elif k < 0.5:
            self.push(I32, 1)
            self.e(i32c(r.choice([0x3f, 0xff, 0x3ff, 0xfff, 0x7fff])) + b'\x71')
        else:
            self.e(i32c(r.choice([0, 1, 7, r.randrange(0, 2000), r.randrange(0, 60000)])))
            self.st.append(I32)

    def off(self):
        r = self.r
        k = r.random()
        if k < self.o['trap'] / 3:
            return r.choice([0xffffffff, 0xfffffff0, 65536, 65535, 0x80000000])
        return r.choice([0, 0, 1, 3, 8, r.randrange(0, 600)])

    def load(self, t=None):
        r = self.r
        if t is None:
            t = r.choice(NUM + ((V128,) if self.o['simd'] else ()))
        if t == V128:
            b, _, al, w = r.choice(list(W.VLOADS.values()))
        else:
            b, _, al, w = r.choice([x for x in W.LOADS.values() if x[1] == t])
        self.addr()
        self.e(b + memarg(r.randint(0, al), self.off(), self.mem()))
        self.pop(1)
        self.st.append(t)

    def a_load(self, d):
        r = self.r
        if self.o['simd'] and r.random() < 0.1:
            b, w = r.choice(list(W.VLANELOADS.values()))
            self.addr()
            self.push(V128)
            self.e(b + memarg(r.randint(0, w.bit_length() - 1), self.off(), self.mem()) + bytes([r.randrange(16 // w)]))
            self.pop(2)
            self.st.append(V128)
            return
        self.load()

    def a_store(self, d):
        r = self.r
        if self.o['simd'] and r.random() < 0.2:
            self.addr()
            self.push(V128)
            if r.random() < 0.5:
                self.e(W.VSTORES['v128.store'][0] + memarg(r.randint(0, 4), self.off(), self.mem()))
            else:
                b, w = r.choice(list(W.VLANESTORES.values()))
                self.e(b + memarg(r.randint(0, w.bit_length() - 1), self.off(), self.mem()) + bytes([r.randrange(16 // w)]))
            self.pop(2)
            return
        b, t, al, w = r.choice(list(W.STORES.values()))
        self.addr()
        self.push(t)
        self.e(b + memarg(r.randint(0, al), self.off(), self.mem()))
        self.pop(2)

    def small(self, n):
        """Push a small i32 length."""
        r = self.r
        if r.random() < self.o['trap']:
            self.push(I32)
        elif r.random() < 0.3:
            self.push(I32, 1)
            self.e(i32c(n) + b'\x71')
        else:
            self.e(i32c(r.randint(0, n)))
            self.st.append(I32)

    def a_memop(self, d):
        r = self.r
        k = r.randrange(6)
        if not self.o['bulk'] and k >= 2:
            k = 0
        m = self.mem()
        if k == 0:
            self.e(b'\x3f' + leb_u(m))
            self.st.append(I32)
        elif k == 1:
            if not self.o['grow']:
                return
            self.e(i32c(r.choice([0, 0, 1, 1, 2, 65536, 0xffffffff])) + b'\x40' + leb_u(m))
            self.st.append(I32)
        elif k == 2:
            self.addr()
            self.push(I32)
            self.small(200)
            self.e(fc(11) + leb_u(m))
            self.pop(3)
        elif k == 3:
            m2 = self.mem()
            self.addr()
            self.addr()
            self.small(300)
            self.e(fc(10) + leb_u(m) + leb_u(m2))
            self.pop(3)
        elif self.P.datas:
            s, n = r.choice(self.P.datas)
            if k == 4:
                self.addr()
                self.small(max(1, n // 4))
                self.small(max(1, n // 2))
                self.e(fc(8) + leb_u(s) + leb_u(m))
                self.pop(3)
            elif r.random() < 0.3:
                self.e(fc(9) + leb_u(s))

    def tidx(self, size):
        r = self.r
        if r.random() < self.o['trap'] * 2:
            self.push(I32)
            return
        if r.random() < 0.4:
            self.push(I32, 1)
            self.e(i32c(max(1, size)) + b'\x70')  # rem_u
        else:
            self.e(i32c(r.randrange(0, max(1, size))))
            self.st.append(I32)

    def a_tableop(self, d):
        if not self.P.tables:
            return
        r = self.r
        ti, tt, n = r.choice(self.P.tables)
        k = r.randrange(9)
        if k == 0:
            self.tidx(n)
            self.e(b'\x25' + leb_u(ti))
            self.pop(1)
            self.st.append(tt)
        elif k == 1:
            self.tidx(n)
            self.push(tt)
            self.e(b'\x26' + leb_u(ti))
            self.pop(2)
        elif k == 2:
            self.e(fc(16) + leb_u(ti))
            self.st.append(I32)
        elif k == 3:
            self.push(tt)
            self.e(i32c(r.choice([0, 1, 1, 2, 100, 0xffffffff])) + fc(15) + leb_u(ti))
            self.pop(1)
            self.st.append(I32)
        elif k == 4:
            self.tidx(n)
            self.push(tt)
            self.small(1)
            self.e(fc(17) + leb_u(ti))
            self.pop(3)
        elif k in (5, 6):
            same = [x for x in self.P.tables if x[1] == tt]
            t2 = r.choice(same)
            self.tidx(max(1, n // 2))
            self.tidx(max(1, t2[2] // 2))
            self.small(2)
            self.e(fc(14) + leb_u(ti) + leb_u(t2[0]))
            self.pop(3)
        elif self.P.elems and tt == FUNCREF:
            s, ln = r.choice(self.P.elems)
            if k == 7:
                self.tidx(max(1, n // 2))
                self.small(1)
                self.small(max(0, min(3, ln - 1)) if ln else 0)
                self.e(fc(12) + leb_u(s) + leb_u(ti))
                self.pop(3)
            elif r.random() < 0.3:
                self.e(fc(13) + leb_u(s))

    def a_ref(self, d):
        r = self.r
        t = r.choice([FUNCREF, EXTERNREF])
        self.push(t)
        if r.random() < 0.6:
            self.e(b'\xd1')
            self.pop(1)
            self.st.append(I32)

    def a_atomic(self, d):
        r = self.r
        k = r.random()
        m = self.mem()

        def addr(w):
            self.e(i32c(r.randrange(0, 4000) * w))
            self.st.append(I32)
        if k < 0.5:
            b, t, w, _ = r.choice(list(W.ARMW.values()))
            addr(w)
            self.push(t)
            self.e(b + memarg(w.bit_length() - 1, w * r.randrange(4), m))
            self.pop(2)
            self.st.append(t)
        elif k < 0.65:
            b, t, w = r.choice(list(W.ACMPXCHG.values()))
            addr(w)
            self.push(t)
            self.push(t)
            self.e(b + memarg(w.bit_length() - 1, 0, m))
            self.pop(3)
            self.st.append(t)
        elif k < 0.8:
            b, t, w = r.choice(list(W.ALOAD.values()))
            addr(w)
            self.e(b + memarg(w.bit_length() - 1, 0, m))
            self.pop(1)
            self.st.append(t)
        elif k < 0.95:
            b, t, w = r.choice(list(W.ASTORE.values()))
            addr(w)
            self.push(t)
            self.e(b + memarg(w.bit_length() - 1, 0, m))
            self.pop(2)
        else:
            self.e(W.fe(3) + b'\0')

    # control
    def a_block(self, d):
        if d <= 0:
            return self.a_push(d)
        ps = self.pick_params()
        rs = self.P.vtl(self.o['results'])
        self.e(b'\x02' + self.bt(ps, rs))
        self.nested(ps, rs, rs, lambda: self.body(rs, d - 1))
        self.e(END)

    def a_loop(self, d):
        if d <= 0:
            return self.a_push(d)
        ps = self.pick_params()
        rs = self.P.vtl(self.o['results'])
        self.e(b'\x03' + self.bt(ps, rs))

        def g():
            self.burn()
            self.body(rs, d - 1)
        self.nested(ps, rs, ps, g)
        self.e(END)

    def a_if_(self, d):
        if d <= 0:
            return self.a_push(d)
        r = self.r
        ps = self.pick_params()
        noelse = r.random() < 0.25
        rs = list(ps) if noelse else self.P.vtl(self.o['results'])
        self.push(I32)
        self.pop(1)
        self.e(b'\x04' + self.bt(ps, rs))
        outer = list(self.st)
        self.nested(ps, rs, rs, lambda: self.body(rs, d - 1))
        if not noelse:
            self.e(ELSE)
            self.st = outer
            self.nested(ps, rs, rs, lambda: self.body(rs, d - 1))
        self.e(END)

    def pick_label(self):
        return self.r.randrange(len(self.labels))

    def lab(self, k):
        return self.labels[len(self.labels) - 1 - k].types

    def has_exn(self, ts):
        return EXNREF in ts

    def a_br(self, d):
        k = self.pick_label()
        ts = self.lab(k)
        self.need(ts)
        self.e(br(k))
        return True

    def a_br_if(self, d):
        k = self.pick_label()
        ts = self.lab(k)
        self.need(ts)
        self.push(I32)
        if self.r.random() < 0.3:
            self.e(i32c(self.r.choice([1, 3])) + b'\x71')
        self.e(br_if(k))
        self.pop(1)

    def a_br_table(self, d):
        r = self.r
        k = self.pick_label()
        ts = self.lab(k)
        same = [i for i in range(len(self.labels)) if self.lab(i) == ts]
        n = r.choice([0, 1, 2, 3, 5, r.randint(0, 40)])
        tgt = [r.choice(same) for _ in range(n)]
        self.need(ts)
        self.push(I32)
        if r.random() < 0.6:
            self.e(i32c(r.choice([1, 3, 7])) + b'\x71')
        self.e(b'\x0e' + W.vec(leb_u(x) for x in tgt) + leb_u(k))
        return True

    def a_ret(self, d):
        self.need(self.results)
        self.e(RETURN)
        return True

    def a_unreachable(self, d):
        self.e(UNREACHABLE)
        return True

    def a_call(self, d):
        i, p, q = self.r.choice(self.P.fns)
        self.need(p)
        self.pop(len(p))
        self.e(call(i))
        self.st += q

    def calli(self, opc, f):
        """f decides the type; the entry may differ at run time."""
        r = self.r
        i, p, q = f
        self.need(p)
        tabs = [t for t in self.P.tables if t[1] == FUNCREF]
        ti = tabs[0] if r.random() < 0.9 else r.choice(tabs)
        good = [k for k, x in enumerate(self.P.tent) if x == i]
        if ti[0] == tabs[0][0] and good and r.random() > self.o['trap'] * 2:
            self.e(i32c(r.choice(good)))
        else:
            self.push(I32)
            self.e(i32c(15) + b'\x71')
            self.pop(1)
        self.e(opc + leb_u(self.P.m.type(p, q)) + leb_u(ti[0]))
        self.pop(len(p))

    def a_calli(self, d):
        if not self.P.tables:
            return
        f = self.r.choice(self.P.fns)
        self.calli(b'\x11', f)
        self.st += f[2]

    def a_tailcall(self, d):
        r = self.r
        cs = [f for f in self.P.fns if f[2] == self.results]
        if not cs:
            return
        f = r.choice(cs)
        if r.random() < 0.4 and self.P.tables:
            self.calli(b'\x13', f)
        else:
            self.need(f[1])
            self.e(b'\x12' + leb_u(f[0]))
        return True

    # exceptions
    def a_throw(self, d):
        if not self.P.tags:
            return
        t, ps = self.r.choice(self.P.tags)
        self.need(ps)
        self.e(b'\x08' + leb_u(t))
        return True

    def a_try_(self, d):
        """blocks receiving each clause, then try_table inside."""
        if d <= 0 or not self.P.tags:
            return self.a_push(d)
        r = self.r
        clauses = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            k = r.choice([0, 0, 0, 1, 1, 2, 3])
            if k < 2:
                t, ps = r.choice(self.P.tags)
                ts = list(ps) + ([EXNREF] if k == 1 else [])
            else:
                t, ts = None, ([EXNREF] if k == 3 else [])
            clauses.append((k, t, ts))
        # handler blocks, outermost first; the innermost block is for clause 0
        # result of the whole construct: rs
        rs = self.P.vtl(2)
        self.e(b'\x02' + self.bt([], rs))
        self.labels.append(Label(rs))
        outer0 = self.st
        self.st = []
        for k, t, ts in reversed(clauses):
            self.e(b'\x02' + self.bt([], ts))
            self.labels.append(Label(ts))
        body_rs = self.P.vtl(2)
        # clause targets, relative to outside the try_table
        enc = []
        for i, (k, t, ts) in enumerate(clauses):
            tgt = i
            alt = [j for j in range(len(self.labels)) if self.lab(j) == ts]
            if r.random() < 0.15:
                tgt = r.choice(alt)
            enc.append(bytes([k]) + (leb_u(t) if t is not None else b'') + leb_u(tgt))
        if enc:
            bt = self.bt([], body_rs)
            if len(bt) > 1:
                body_rs = body_rs[:1]
                bt = self.bt([], body_rs)
                if len(bt) > 1:
                    bt = bytes([W.VT[body_rs[0]]]) if body_rs else b'\x40'
            if bt[0] < 64 and r.random() < 0.2:
                bt = W.TRYP + bt
            self.e(b'\x1f' + bt + W.vec(enc))
        else:
            self.e(W.TRY0[0] + self.bt([], body_rs) + W.TRY0[1])
        save = self.st
        self.st = []
        self.labels.append(Label(body_rs))
        self.body(body_rs, d - 1)
        self.labels.pop()
        self.e(END)
        self.st = list(body_rs)
        # normal completion: leave with rs
        for _ in range(len(self.st)):
            self.a_mix(d) if self.st[-1] != EXNREF else (self.e(DROP), self.pop(1))
        n = len(clauses)
        for t in rs:
            self.push(t, 1)
        self.e(br(n))
        self.st = []
        for i, (k, t, ts) in enumerate(clauses):
            self.labels.pop()
            self.e(END)
            self.st = list(ts)
            self.e(i64c(1000 + i) + self.P.mixcode(I64))
            # handler: consume payload
            while self.st:
                x = self.st.pop()
                if x == EXNREF:
                    z = r.random()
                    loc = [q for q in self.user if self.locals[q] == EXNREF]
                    if z < 0.3:
                        self.e(b'\x0a')  # throw_ref
                        break
                    if z < 0.5 and loc:
                        self.e(lset(r.choice(loc)))
                    else:
                        self.e(DROP)
                else:
                    self.e(self.P.mixcode(x, self.scratch.get(V128)))
            else:
                loc = [q for q in self.user if self.locals[q] == EXNREF]
                if loc and r.random() < 0.1:
                    self.e(lget(r.choice(loc)) + b'\x0a')
                else:
                    for t2 in rs:
                        self.push(t2, 1)
                    if n - 1 - i > 0 or r.random() < 0.5:
                        self.e(br(n - 1 - i))
            self.st = []
        self.labels.pop()
        self.e(END)
        self.st = outer0 + list(rs)


def bytes_len(p):
    return len(p.m.encode())
