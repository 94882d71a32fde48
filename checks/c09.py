"""C09: instantiation and linking.  Chains of modules importing each other's
exports, with declared types near and off the actual ones; the linking verdict
and then the shared state are compared with V8 (page sizes: with the rule)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, diff, progcheck  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check  # noqa: E402
from vp.wasm import END, EXTERNREF, F32, F64, FUNCREF, I32, I64, UNREACHABLE, V128, i32c, leb_u, lget, vec  # noqa: E402

NUM = [I32, I64, F32, F64]
GT = NUM + [FUNCREF, EXTERNREF]
FTS = [((), ()), ((I32,), (I32,)), ((I32,), (I64,)), ((I64,), (I32,)), ((), (I32,)), ((I32, I32), (I32,)), ((), (I32, I64)), ((I32, I64), ()),
       ((F64,), (F32,))]


def cst(r, t):
    if t in (FUNCREF, EXTERNREF):
        return b'\xd0' + bytes([W.VT[t]])
    return W.const(t, r.getrandbits(5))


class Lib:
    """kinds: f (params, results), t (type, min, max), m (min, max, shared),
    g (type, mut), x (params); self.E: export name -> (kind, type)."""

    def __init__(self, r, nm, srcs):
        self.r, self.nm = r, nm
        self.m = W.Module()
        self.E, self.steps = {}, []
        self.fs, self.ts, self.ms, self.gs, self.xs = [], [], [], [], []
        m = self.m
        if srcs:
            for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
                s = r.choice(srcs)
                en = r.choice(list(s.E))
                self.imp(s.nm.upper() if r.random() < 0.998 else 'ZZ', en if r.random() < 0.995 else en + 'x', *s.E[en])
        for _ in range(r.randint(0, 3)):
            ps, rs = r.choice(FTS)
            body = b''.join(W.const(t, r.getrandbits(6)) for t in rs)
            self.fs.append((m.func(ps, rs, [], body), ps, rs))
        for _ in range(r.choice([0, 1, 1, 2])):
            t = r.choice([FUNCREF, FUNCREF, EXTERNREF])
            mn = r.randint(0, 6)
            mx = r.choice([None, mn, mn + 2, mn + 5])
            self.ts.append((m.table(t, mn, mx), t, mn, mx))
        for _ in range(r.choice([0, 1, 1, 2])):
            mn = r.choice([0, 1, 1, 2])
            mx = r.choice([None, mn, mn + 1, mn + 3])
            sh = r.random() < 0.2
            if sh and mx is None:
                mx = mn + 1
            self.ms.append((m.memory(mn, mx, shared=sh), mn, mx, sh))
        for _ in range(r.randint(0, 3)):
            t, mut = r.choice(GT), r.random() < 0.6
            src = [g for g in self.gs if g[1] == t and not g[2] and g[0] < m.nimp[3]]
            self.gs.append((m.global_(t, mut, W.gget(r.choice(src)[0]) if src and r.random() < 0.6 else cst(r, t)), t, mut))
        for _ in range(r.choice([0, 0, 1, 2])):
            ps = r.choice([(), (I32,), (I64,), (I32, F32)])
            self.xs.append((m.tag(ps), ps))
        self.accessors()
        self.segments()
        for i, ps, rs in self.fs:
            self.exp('f', i, (ps, rs))
        for i, t, mn, mx in self.ts:
            self.exp('t', i, (t, mn, mx))
        for i, mn, mx, sh in self.ms:
            self.exp('m', i, (mn, mx, sh))
        for i, t, mut in self.gs:
            self.exp('g', i, (t, mut))
        for i, ps in self.xs:
            self.exp('x', i, (ps,))

    def exp(self, k, i, ty):
        for _ in range(self.r.choice([0, 1, 1, 1, 2])):
            nm = f'{k}{len(self.E)}'
            self.m.export(nm, 'ftmgx'.index(k), i)
            self.E[nm] = (k, ty)

    def imp(self, mod, nm, k, ty):
        """Import with the type as known, sometimes changed."""
        r, m = self.r, self.m
        off = r.random() < 0.05
        if off and r.random() < 0.15:
            k = r.choice('ftmgx')
            ty = dict(f=((), ()), t=(FUNCREF, 0, None), m=(0, None, False), g=(I32, False), x=((),))[k]
        kind = 'ftmgx'.index(k)
        if k == 'f':
            ps, rs = ty if not off else r.choice(FTS)
            self.fs.append((m.import_func(mod, nm, ps, rs), ps, rs))
        elif k == 'g':
            t, mut = ty
            if off:
                t, mut = r.choice([(t, not mut), (r.choice(GT), mut)])
            self.gs.append((m.import_(mod, nm, kind, bytes([W.VT[t], mut])), t, mut))
        elif k == 'x':
            ps = ty[0] if not off else r.choice([(), (I32,), (I64,), (I32, F32)])
            self.xs.append((m.import_(mod, nm, kind, leb_u(m.type(ps, []))), ps))
        elif k == 't':
            t, mn, mx = ty
            if off and r.random() < 0.3:
                t = EXTERNREF if t == FUNCREF else FUNCREF
            mn, mx = self.lim(mn, mx, off)
            self.ts.append((m.import_(mod, nm, kind, bytes([W.VT[t]]) + W.limits(mn, mx)), t, mn, mx))
        else:
            mn, mx, sh = ty
            if off and r.random() < 0.3:
                sh = not sh
            mn, mx = self.lim(mn, mx, off)
            if sh and mx is None:
                mx = mn + 3
            self.ms.append((m.import_(mod, nm, kind, W.limits(mn, mx, sh)), mn, mx, sh))

    def lim(self, mn, mx, off):
        """Looser limits match; with off, anything close."""
        r = self.r
        if off:
            mn = max(0, mn + r.choice([-1, 0, 1, 2]))
            mx = r.choice([None, None if mx is None else max(mn, mx - 1), mn, mn + 1, mx])
        else:
            mn = r.choice([mn, mn, mn // 2, 0])
            if mx is not None:
                mx = r.choice([mx, mx, mx + 1, None])
        if mx is not None and mx < mn:
            mx = mn
        return mn, mx

    def acc(self, nm, ps, rs, body, args=None):
        self.m.efunc(nm, ps, rs, [], body)
        self.steps.append((nm, ps, rs, args))

    def accessors(self):
        r = self.r
        for k, (i, ps, rs) in enumerate(self.fs):
            self.acc(f'cf{k}', ps, rs, b''.join(lget(j) for j in range(len(ps))) + W.call(i))
        for i, mn, mx, sh in self.ms:
            ma = W.memarg(0, 0, i)
            mem = leb_u(i)
            self.acc(f'ml{i}', [I32], [I32], lget(0) + b'\x2d' + ma, lambda r: [r.choice([0, 1, 2, 3, 8, 9, 65535, 65536, 131071, 131072])])
            self.acc(f'ms{i}', [I32, I32], [], lget(0) + lget(1) + b'\x3a' + ma, lambda r: [r.choice([0, 1, 2, 3, 8, 65535, 65536]), r.getrandbits(8)])
            self.acc(f'mz{i}', [], [I32], b'\x3f' + mem)
            self.acc(f'mg{i}', [I32], [I32], lget(0) + b'\x40' + mem, lambda r: [r.choice([0, 0, 1, 1, 2])])
        for i, t, mn, mx in self.ts:
            ti = leb_u(i)
            self.acc(f'tz{i}', [], [I32], b'\xfc\x10' + ti)
            self.acc(f'tn{i}', [I32], [I32], lget(0) + b'\x25' + ti + b'\xd1', lambda r: [r.randint(0, 8)])
            self.acc(f'tg{i}', [I32], [I32], b'\xd0' + bytes([W.VT[t]]) + lget(0) + b'\xfc\x0f' + ti, lambda r: [r.choice([0, 1, 1, 2])])
            if t == EXTERNREF:
                self.acc(f'ts{i}', [I32, EXTERNREF], [], lget(0) + lget(1) + b'\x26' + ti, lambda r: [r.randint(0, 8), r.randint(0, 99)])
                self.acc(f'tt{i}', [I32], [EXTERNREF], lget(0) + b'\x25' + ti, lambda r: [r.randint(0, 8)])
            else:
                for ps, rs in FTS[:6]:
                    self.acc(f'ti{i}_{len(self.steps)}', list(ps) + [I32], rs, b''.join(lget(j) for j in range(len(ps) + 1)) + b'\x11' + leb_u(self.m.type(ps, rs)) + ti,
                             lambda r, n=len(ps): [r.getrandbits(4) for _ in range(n)] + [r.randint(0, 8)])
                if self.fs:
                    f = r.choice(self.fs)[0]
                    self.declare = getattr(self, 'declare', []) + [f]
                    self.acc(f'ts{i}', [I32], [], lget(0) + b'\xd2' + leb_u(f) + b'\x26' + ti, lambda r: [r.randint(0, 8)])
        for i, t, mut in self.gs:
            if t == FUNCREF:
                self.acc(f'gg{i}', [], [I32], W.gget(i) + b'\xd1')
                if mut and self.fs:
                    f = r.choice(self.fs)[0]
                    self.declare = getattr(self, 'declare', []) + [f]
                    self.acc(f'gs{i}', [], [], b'\xd2' + leb_u(f) + W.gset(i))
            else:
                self.acc(f'gg{i}', [], [t], W.gget(i))
                if mut:
                    self.acc(f'gs{i}', [t], [], lget(0) + W.gset(i))

    def segments(self):
        r, m = self.r, self.m
        for _ in range(r.choice([0, 1, 2, 3])):
            ft = [x for x in self.ts if x[1] == FUNCREF]
            if ft and r.random() < 0.5 and self.fs:
                t = r.choice(ft)
                fs = [r.choice(self.fs)[0] for _ in range(r.randint(0, min(3, t[2])) if r.random() < .95 else 3)]
                off = max(0, min(r.randint(0, 3), t[2] - len(fs))) if r.random() < 0.95 else 9
                m.elems.append(self.elem(t, off, fs))
            elif ft and r.random() < 0.3 and self.fs:
                m.elems.append(r.choice([b'\1\0', b'\3\0']) + vec(leb_u(r.choice(self.fs)[0]) for _ in range(r.randint(0, 3))))
            elif r.random() < 0.2:
                d = r.randbytes(r.randint(0, 4))
                m.datas.append(b'\1' + leb_u(len(d)) + d)
            elif self.ms:
                x = r.choice(self.ms)
                d = bytes(r.getrandbits(8) for _ in range(r.randint(0, 6) if x[1] or r.random() < .05 else 0))
                off = (r.choice([0, 1, 2, 8]) if x[1] else 0) if r.random() < 0.95 else r.choice([65534, 65536, 131072, 0xffffffff])
                m.datas.append((b'\0' if x[0] == 0 else b'\2' + leb_u(x[0])) + self.off(off) + END + leb_u(len(d)) + d)
        for f in getattr(self, 'declare', []):
            m.elems.append(b'\3\0' + vec([leb_u(f)]))
        ft = [x for x in self.ts if x[1] == FUNCREF]
        if ft:
            for k in r.sample(range(len(m.elems)), min(3, len(m.elems))):
                t = r.choice(ft)[0]
                self.acc(f'ei{k}', [I32, I32, I32], [], lget(0) + lget(1) + lget(2) + b'\xfc\x0c' + leb_u(k) + leb_u(t),
                         lambda r: [r.randint(0, 4), r.randint(0, 1), r.randint(0, 2)])
                if r.random() < 0.4:
                    self.acc(f'ed{k}', [], [], b'\xfc\x0d' + leb_u(k))
        if self.ms and r.random() < 0.7:
            for k in r.sample(range(len(m.datas)), min(2, len(m.datas))):
                m.datacount = len(m.datas)
                i = r.choice(self.ms)[0]
                self.acc(f'di{k}', [I32, I32, I32], [], lget(0) + lget(1) + lget(2) + b'\xfc\x08' + leb_u(k) + leb_u(i),
                         lambda r: [r.choice([0, 2, 8, 65535, 65536]), r.randint(0, 1), r.randint(0, 2)])
                if r.random() < 0.4:
                    self.acc(f'dd{k}', [], [], b'\xfc\x09' + leb_u(k))
        if r.random() < 0.35:
            b = b''
            for _ in range(r.randint(1, 4)):
                k = r.random()
                if k < 0.4 and self.ms:
                    x = r.choice(self.ms)
                    b += i32c(r.choice([0, 1, 2, 3, 65535])) + i32c(r.getrandbits(8)) + b'\x3a' + W.memarg(0, 0, x[0])
                elif k < 0.7 and [g for g in self.gs if g[2] and g[1] in NUM]:
                    g = r.choice([g for g in self.gs if g[2] and g[1] in NUM])
                    b += W.const(g[1], r.getrandbits(8)) + W.gset(g[0])
                elif k < 0.8 and self.ms:
                    b += i32c(1) + b'\x40' + leb_u(r.choice(self.ms)[0]) + b'\x1a'
            if r.random() < 0.1:
                b += UNREACHABLE
            m.start = m.func([], [], [], b)

    def elem(self, t, off, fs):
        r, e = self.r, self.off(off) + END
        ex = vec(b'\xd2' + leb_u(f) + END if r.random() < 0.8 else b'\xd0\x70' + END for f in fs)
        ix = vec(leb_u(f) for f in fs)
        c = [b'\2' + leb_u(t[0]) + e + b'\0' + ix, b'\6' + leb_u(t[0]) + e + b'\x70' + ex]
        if t[0] == 0:
            c += [b'\0' + e + ix, b'\4' + e + ex]
        return r.choice(c)

    def off(self, v):
        gs = [g for g in self.gs if g[1] == I32 and not g[2] and g[0] < self.m.nimp[3]]
        if gs and self.r.random() < 0.1:
            return W.gget(self.r.choice(gs)[0])
        return i32c(v)

    def call(self):
        if not self.steps:
            return None
        nm, ps, rs, args = self.r.choice(self.steps)
        vals = args(self.r) if args else [self.r.getrandbits(5) if t in NUM else 'null' for t in ps]
        return diff.invoke(self.nm, nm, list(zip(ps, vals)), rs)


def case(r, i):
    libs, out = [], []
    for k in range(r.randint(2, 5)):
        L = Lib(r, 'abcdef'[k], [x for x in libs if x.E])
        out.append(diff.load(L.nm, L.m.encode()))
        if L.E:
            out.append(diff.register(L.nm, L.nm.upper()))
        libs.append(L)
        for _ in range(r.randint(0, 8)):
            s = r.choice(libs).call()
            if s:
                out.append(s)
    for _ in range(25):
        s = r.choice(libs).call()
        if s:
            out.append(s)
    return out


def drop_missing(cases, ref):
    """A module which does not instantiate is not registered by the script."""
    out = []
    for c, o in zip(cases, ref):
        bad = {s['mod'] for s, x in zip(c, o) if s['op'] == 'load' and x != 'ok'}
        out.append([s for s in c if s['op'] == 'load' or s['mod'] not in bad])
    return out


def pages(c):
    """Memories match only with the same page size, sharedness and limits in
    pages of that size."""
    cases, want = [], []
    mems = [(mn, mx, sh, pl) for pl in (0, 16, None) for mn in (0, 1, 3) for mx in (None, 3, 5) for sh in (False, True)
            if not (sh and mx is None)]
    for a in mems:
        A = W.Module()
        A.export('m', 2, A.memory(a[0], a[1], shared=a[2], pagelog=a[3]))
        for b in mems:
            B = W.Module()
            B.import_('A', 'm', 2, W.limits(b[0], b[1], b[2], b[3]))
            B.efunc('s', [], [I32], [], b'\x3f\0')
            cases.append([diff.load('a', A.encode()), diff.register('a', 'A'), diff.load('b', B.encode()), diff.invoke('b', 's', [], [I32])])
            pa, pb = (16 if a[3] is None else a[3]), (16 if b[3] is None else b[3])
            ok = pa == pb and a[2] == b[2] and a[0] >= b[0] and (b[1] is None or (a[1] is not None and a[1] <= b[1]))
            want.append(['ok', 'ok', 'ok' if ok else 'unlinkable:', f'ok:{a[0]}:i32' if ok else 'nomod'])
    for cfg in ('rel', 'asan'):
        tw = diff.run_toywasm(build.cli(cfg), cases)
        nb = diff.compare(c, cases, tw, want, f'pages:{cfg}')
        c.evaluations += len(cases)
        c.log(f'memory types {cfg}: {len(cases)} pairs, {nb} differ')
    c.coverage['memory_type_pairs'] = len(cases)


def main(c):
    build.build_many(['asan', 'rel'])
    c.rule = 'distinct (module size, outcome) of calls after linking'
    pages(c)
    n = c.scale(12000, 120000)
    B = 10000
    for lo in range(0, n, B):
        cases = progcheck.pgen('checks.c09', 'case', f'C09:{c.seed}:{lo}', min(B, n - lo))
        r0 = diff.run_v8(cases)
        cases = drop_missing(cases, r0)
        progcheck.run(c, cases, [('rel', [], len(cases)), ('asan', [], len(cases) // 4)], label=f'link{lo}')
        st = c.coverage.setdefault('instantiations', {})
        for o in r0:
            for x in o:
                k = x.split(':')[0]
                if x.startswith('unlinkable'):
                    k = 'unlinkable: ' + x.split(':')[-1].strip()[:50]
                    st[k] = st.get(k, 0) + 1
        c.sample(dict(case=[(s['op'], s['mod'], s.get('func')) for s in cases[0]][:20]))
        if c.violations:
            return


if __name__ == '__main__':
    run_check('C09', main)
