"""C05: tables, references, globals, segments and constant expressions -
random histories over two linked modules against V8, plus random programs."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, diff, progcheck  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check  # noqa: E402
from vp.ops import rnd, isnan32, isnan64  # noqa: E402
from vp.wasm import (END, EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, fc, gget, gset, i32c, i64c, leb_u, lget, lset,  # noqa: E402
                     memarg)

M32 = 0xffffffff
NUMREF = [I32, I64, F32, F64, EXTERNREF]


def nonan(r, t):
    while True:
        v = rnd(r, t)
        if not (t == F32 and isnan32(v) or t == F64 and isnan64(v)):
            return v


class Lib:
    """A module with functions, tables and globals; remembers what exists."""

    def __init__(self, r, name, imports=None):
        self.r, self.name = r, name
        self.m = m = W.Module()
        self.funcs = []    # (idx, ftype key)
        self.tables = []   # (idx, reftype, approx size)
        self.globals = []  # (idx, type, mut, imported)
        self.steps = []
        self.nf = 0
        if imports is not None:
            for k, (i, sig) in enumerate(imports.funcs):
                if r.random() < 0.6:
                    self.funcs.append((m.import_func('A', f'fn{k}', *sig), sig))
            for k, (i, t, n, lim) in enumerate(imports.tables):
                if r.random() < 0.7:
                    j = m.import_('A', f'tab{k}', 1, bytes([W.VT[t]]) + lim)
                    self.tables.append((j, t, n, lim))
            for k, (i, t, mut, imp) in enumerate(imports.globals):
                if r.random() < 0.7 and t != V128:
                    j = m.import_('A', f'glob{k}', 3, bytes([W.VT[t], int(mut)]))
                    self.globals.append((j, t, mut, True))
        # functions: distinct results
        for k in range(r.randint(2, 6)):
            sig = r.choice([((), (I32,)), ((), (I32,)), ((I32,), (I32,)), ((), (I64,)), ((I32, I64), (I32,)), ((), ())])
            body = {(I32,): i32c(r.getrandbits(31)), (I64,): i64c(r.getrandbits(60)), (): b''}[sig[1]]
            if sig[0]:
                body = lget(0) + i32c(r.getrandbits(20)) + b'\x6a'
            ti = None
            if r.random() < 0.3:    # a structurally equal type with another index
                m.types.append((tuple(sig[0]), tuple(sig[1])))
                ti = len(m.types) - 1
            i = m.func(list(sig[0]), list(sig[1]), [], body, typeidx=ti)
            self.funcs.append((i, sig))
            m.export(f'fn{k}', 0, i)
        for k in range(r.randint(1, 4)):
            t = r.choice([FUNCREF, FUNCREF, EXTERNREF])
            n = r.choice([0, 1, 4, 10, 30])
            mx = r.choice([None, n, n + 1, n + 6])
            lim = W.limits(n, mx)
            i = m.table(t, n, mx)
            m.export(f'tab{k}', 1, i)
            self.tables.append((i, t, n, lim))
        for k in range(r.randint(2, 6)):
            t = r.choice([I32, I64, F32, F64, V128, EXTERNREF, FUNCREF])
            mut = r.random() < 0.6
            i = m.global_(t, mut, self.constexpr(t))
            m.export(f'glob{k}', 3, i)
            self.globals.append((i, t, mut, False))
        self.segs()

    def constexpr(self, t, depth=2):
        r = self.r
        imm = [g for g in self.globals if g[1] == t and not g[2] and g[3]]
        if imm and r.random() < 0.4:
            return gget(r.choice(imm)[0])
        if t in (I32, I64) and depth and r.random() < 0.4:
            op = r.choice([b'\x6a', b'\x6b', b'\x6c'] if t == I32 else [b'\x7c', b'\x7d', b'\x7e'])
            return self.constexpr(t, depth - 1) + self.constexpr(t, depth - 1) + op
        if t == FUNCREF:
            if self.funcs and r.random() < 0.6:
                return b'\xd2' + leb_u(r.choice(self.funcs)[0])
            return b'\xd0\x70'
        if t == EXTERNREF:
            return b'\xd0\x6f'
        return W.const(t, rnd(r, t))

    def fexprs(self, n):
        return W.vec(self.constexpr(FUNCREF) + END for _ in range(n))

    def idxs(self, n):
        return W.vec(leb_u(self.r.choice(self.funcs)[0]) for _ in range(n))

    def segs(self):
        r, m = self.r, self.m
        self.elems = []   # (idx, type, len)
        ft = [t for t in self.tables if t[1] == FUNCREF]
        et = [t for t in self.tables if t[1] == EXTERNREF]
        for _ in range(r.randint(0, 7)):
            k = r.randrange(8)
            n = r.choice([0, 1, 3, 8])
            active = k in (0, 2, 4, 6)
            if active:
                if not ft:
                    continue
                t = r.choice(ft)
                if k in (0, 4) and not (self.tables[0][1] == FUNCREF):
                    continue
                if k in (0, 4):
                    t = self.tables[0]
                n = min(n, t[2])
                if r.random() < 0.03:
                    n += 1
                off = r.randint(0, max(0, t[2] - n))
                a = r.randint(0, off)
                oe = i32c(off) if r.random() < 0.6 else i32c(a) + i32c(off - a) + b'\x6a'
                oe += END
            if k == 0:
                e = b'\0' + oe + self.idxs(n)
            elif k == 1:
                e = b'\1\0' + self.idxs(n)
            elif k == 2:
                e = b'\2' + leb_u(t[0]) + oe + b'\0' + self.idxs(n)
            elif k == 3:
                e = b'\3\0' + self.idxs(n)
            elif k == 4:
                e = b'\4' + oe + self.fexprs(n)
            elif k == 5:
                e = b'\5\x70' + self.fexprs(n)
            elif k == 6:
                e = b'\6' + leb_u(t[0]) + oe + b'\x70' + self.fexprs(n)
            else:
                e = b'\7\x70' + self.fexprs(n)
            m.elems.append(e)
            self.elems.append((len(m.elems) - 1, FUNCREF, n))
        if et and r.random() < 0.6:
            n = r.choice([0, 2, 5])
            m.elems.append(b'\5\x6f' + W.vec(self.constexpr(EXTERNREF) + END for _ in range(n)))
            self.elems.append((len(m.elems) - 1, EXTERNREF, n))
            t = r.choice(et)
            n = min(t[2], 2)
            m.elems.append(b'\6' + leb_u(t[0]) + i32c(0) + END + b'\x6f' + W.vec(b'\xd0\x6f' + END for _ in range(n)))
            self.elems.append((len(m.elems) - 1, EXTERNREF, n))
        m.elems.append(b'\3\0' + W.vec(leb_u(f[0]) for f in self.funcs))
        self.elems.append((len(m.elems) - 1, FUNCREF, len(self.funcs)))

    # ------------------------------------------------------- histories
    def emit(self, params, results, body, args, locals_=()):
        fn = f'{self.name}x{self.nf}'
        self.nf += 1
        self.m.efunc(fn, list(params), list(results), list(locals_), body)
        return diff.invoke(self.name, fn, args, list(results))

    def observers(self):
        m = self.m
        for i, t, n, _ in self.tables:
            m.efunc(f'size{i}', [], [I32], [], fc(16) + leb_u(i))
            m.efunc(f'get{i}', [I32], [t], [], lget(0) + b'\x25' + leb_u(i))
            if t == FUNCREF:
                m.efunc(f'call{i}', [I32], [I32], [], lget(0) + b'\x11' + leb_u(m.type([], [I32])) + leb_u(i))
                m.efunc(f'call1{i}', [I32], [I32], [], i32c(5) + lget(0) + b'\x11' + leb_u(m.type([I32], [I32])) + leb_u(i))
                m.efunc(f'call2{i}', [I32], [I64], [], lget(0) + b'\x11' + leb_u(m.type([], [I64])) + leb_u(i))
                m.efunc(f'call3{i}', [I32], [], [], lget(0) + b'\x11' + leb_u(m.type([], [])) + leb_u(i))
        for i, t, mut, imp in self.globals:
            if t == V128:
                m.efunc(f'gg{i}', [], [I64, I64], [], gget(i) + W.fd(29) + b'\0' + gget(i) + W.fd(29) + b'\1')
            else:
                m.efunc(f'gg{i}', [], [t], [], gget(i))

    def observe(self, full=False):
        r = self.r
        out = []
        for i, t, n, _ in self.tables:
            out.append(diff.invoke(self.name, f'size{i}', [], [I32]))
            for k in (range(0, n + 8) if full else [r.randrange(0, n + 3) for _ in range(2)]):
                out.append(diff.invoke(self.name, f'get{i}', [(I32, k)], [t]))
                if t == FUNCREF:
                    out.append(diff.invoke(self.name, f'call{i}', [(I32, k)], [I32]))
                    if full and k < 6:
                        out.append(diff.invoke(self.name, f'call1{i}', [(I32, k)], [I32]))
                        out.append(diff.invoke(self.name, f'call2{i}', [(I32, k)], [I64]))
                        out.append(diff.invoke(self.name, f'call3{i}', [(I32, k)], []))
        if full:
            for i, t, mut, imp in self.globals:
                out.append(diff.invoke(self.name, f'gg{i}', [], [I64, I64] if t == V128 else [t]))
        return out

    def idx(self, n):
        r = self.r
        return r.choice([0, n - 1, n, n + 1, r.randrange(0, n + 2), r.randrange(0, n + 2), M32, 0x80000000, r.getrandbits(32)]) & M32

    def refval(self, t):
        """(code, args) producing a reference; externrefs come as argument."""
        r = self.r
        if t == FUNCREF:
            return (b'\xd2' + leb_u(r.choice(self.funcs)[0]) if r.random() < 0.8 else b'\xd0\x70'), None
        return lget(0), (EXTERNREF, r.choice(['null', r.randrange(1, 1000)]))

    def op(self):
        r = self.r
        z = r.randrange(11)
        ti, t, n, _ = r.choice(self.tables)
        if z == 0:
            code, arg = self.refval(t)
            i = self.idx(n)
            return self.emit([EXTERNREF] if arg else [], [], i32c(i) + code + b'\x26' + leb_u(ti), [arg] if arg else [])
        if z == 1:
            code, arg = self.refval(t)
            d = r.choice([0, 1, 2, 3, 7, M32, 0x7fffffff, M32 - n])
            return self.emit([EXTERNREF] if arg else [], [I32], code + i32c(d) + fc(15) + leb_u(ti), [arg] if arg else [])
        if z == 2:
            code, arg = self.refval(t)
            i, c = self.idx(n), r.choice([0, 1, 2, n, n + 1, M32])
            return self.emit([EXTERNREF] if arg else [], [], i32c(i) + code + i32c(c) + fc(17) + leb_u(ti), [arg] if arg else [])
        if z in (3, 4):
            t2 = r.choice([x for x in self.tables if x[1] == t])
            a, b = self.idx(n), self.idx(t2[2])
            c = r.choice([0, 1, 2, 3, n // 2, n, n + 1, M32])
            if r.random() < 0.6:
                a, b = r.randrange(0, n + 1), r.randrange(0, t2[2] + 1)
                c = r.randint(0, max(0, min(n - a, t2[2] - b)))
            return self.emit([], [], i32c(a) + i32c(b) + i32c(c) + fc(14) + leb_u(ti) + leb_u(t2[0]), [])
        if z in (5, 6):
            es = [e for e in self.elems if e[1] == t]
            if not es:
                return None
            e = r.choice(es)
            a, b = self.idx(n), self.idx(e[2])
            c = r.choice([0, 1, 2, e[2], e[2] + 1, M32])
            if r.random() < 0.6:
                a, b = r.randrange(0, n + 1), r.randrange(0, e[2] + 1)
                c = r.randint(0, max(0, min(n - a, e[2] - b)))
            return self.emit([], [], i32c(a) + i32c(b) + i32c(c) + fc(12) + leb_u(e[0]) + leb_u(ti), [])
        if z == 7:
            if not self.elems or r.random() < 0.6:
                return None
            return self.emit([], [], fc(13) + leb_u(r.choice(self.elems)[0]), [])
        if z in (8, 9):
            gs = [g for g in self.globals if g[2]]
            if not gs:
                return None
            i, t, mut, imp = r.choice(gs)
            if t == FUNCREF:
                return self.emit([], [I32], self.refval(t)[0] + gset(i) + gget(i) + b'\xd1', [])
            if t == V128:
                return self.emit([], [], W.const(t, rnd(r, t)) + gset(i), [])
            v = r.choice(['null', r.randrange(1, 99)]) if t == EXTERNREF else nonan(r, t)
            return self.emit([t], [t], gget(i) + lget(0) + gset(i), [(t, v)])
        # reference instructions and typed select
        if t == FUNCREF:
            return self.emit([I32], [I32], self.refval(t)[0] + self.refval(t)[0] + lget(0) + b'\x1c\x01\x70' + b'\xd1',
                             [(I32, r.randrange(2))])
        return self.emit([EXTERNREF, I32], [EXTERNREF], lget(0) + b'\xd0\x6f' + lget(1) + b'\x1c\x01\x6f',
                         [(EXTERNREF, r.choice(['null', 5])), (I32, r.randrange(2))])


def case(r, i):
    A = Lib(r, 'a')
    B = Lib(r, 'b', A)
    C = Lib(r, 'c', A) if r.random() < 0.3 else None
    libs = [A, B] + ([C] if C else [])
    hist = []
    for _ in range(r.randint(10, 35)):
        L = r.choice(libs)
        s = L.op()
        if s is None:
            continue
        hist.append(s)
        if r.random() < 0.6:
            hist += r.choice(libs).observe()
    for L in libs:
        hist += L.observe(full=True)
        L.observers()
    out = [diff.load('a', A.m.encode()), diff.register('a', 'A'), diff.load('b', B.m.encode())]
    if C:
        out.append(diff.load('c', C.m.encode()))
    return out + hist


TW = dict(tableop=22, ref=10, calli=14, glob=14, call=4, scalar=8, simd=2, store=1, load=1, memop=0.5, mix=12, block=6, loop=5,
          throw=0.3, try_=0.5)
KWS = [dict(w=TW), dict(w=TW, trap=0.005), dict(w=TW, funcs=(6, 12), body=(4, 14))]


def cmp(a, b):
    # An exported function printed by identity: only nullness is comparable
    if a == b or diff.same(a, b):
        return True
    # instantiation with an out-of-bounds active segment is a trap here and
    # a RuntimeError there; both are 'trap'
    return False


def main(c):
    build.build_many(['asan', 'rel'])
    c.rule = 'distinct (module size, reference outcome)'
    B = 10000
    n = c.scale(1500, 40000)
    for lo in range(0, n, B):
        cases = progcheck.pgen('checks.c05', 'case', f'C05:{c.seed}:{lo}', min(B, n - lo))
        progcheck.run(c, cases, [('rel', [], len(cases)), ('asan', [], c.scale(400, 5000))], label=f'hist{lo}', cmp=cmp)
        c.sample(dict(case=diff.show(cases[0])[:6]), limit=1)
    n = c.scale(2500, 40000)
    for lo in range(0, n, B):
        cases = progcheck.pgen('vp.progcheck', 'prog_case', f'C05p:{c.seed}:{lo}', min(B, n - lo), kws=KWS)
        progcheck.run(c, cases, [('rel', [], len(cases)), ('asan', [], c.scale(400, 3000))], label=f'prog{lo}')


if __name__ == '__main__':
    run_check('C05', main)
