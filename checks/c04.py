"""C04: memory accesses - an exact byte-array model for every access on
memories of both page sizes, and random memory-heavy programs against V8."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, diff, progcheck  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check  # noqa: E402
from vp.wasm import END, F32, F64, I32, I64, V128, br, br_if, fc, i32c, i64c, leb_u, lget, lset, memarg  # noqa: E402

M32 = 0xffffffff
OOB = 'trap:memory access out of bounds'


class Model:
    """The bytes of one memory."""

    def __init__(self, mn, mx, pagelog):
        self.pl = 16 if pagelog is None else pagelog
        self.d = bytearray(mn << self.pl)
        self.max = mx if mx is not None else (65536 if self.pl == 16 else M32)

    def pages(self):
        return len(self.d) >> self.pl

    def ok(self, ea, n):
        return ea + n <= len(self.d)

    def grow(self, n):
        old = self.pages()
        if old + n > self.max:
            return M32
        self.d += bytes(n << self.pl)
        return old


def sx(v, bits, to):
    if v >> (bits - 1):
        v -= 1 << bits
    return v & ((1 << to) - 1)


def load_val(nm, b):
    """Value of a load named nm of the raw bytes b, as an unsigned int."""
    v = int.from_bytes(b, 'little')
    base, _, rest = nm.partition('.load')
    if base == 'v128':
        if rest == '':
            return v
        if '_splat' in rest:
            n = len(b)
            return int.from_bytes(b * (16 // n), 'little')
        if '_zero' in rest:
            return v
        w, k = {'8x8': (1, 8), '16x4': (2, 4), '32x2': (4, 2)}[rest[:-2]]
        out = b''
        for i in range(k):
            x = int.from_bytes(b[i * w:(i + 1) * w], 'little')
            if rest.endswith('_s'):
                x = sx(x, w * 8, w * 16)
            out += x.to_bytes(w * 2, 'little')
        return int.from_bytes(out, 'little')
    bits = {'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64}[base]
    if rest.endswith('_s'):
        return sx(v, len(b) * 8, bits)
    return v


SUM_INIT = 0xcbf29ce484222325
FNV = 0x100000001b3


def fnv(b, h=SUM_INIT):
    for x in b:
        h = ((h ^ x) * FNV) & 0xffffffffffffffff
    return h


def model_case(r, i):
    """Returns (steps, expected outcomes)."""
    m = W.Module()
    nm = r.choice([1, 1, 2, 3, 5])
    mems = []
    for k in range(nm):
        pl = r.choice([None, None, 0, 0, 16])
        if pl == 0:
            mn = r.choice([0, 1, 7, 16, 100, 4096, 4097, 70000])
            mx = r.choice([None, mn, mn + 1, mn + 300, mn + 70000])
        else:
            mn = r.choice([0, 1, 1, 2, 3, 4, 5])
            mx = r.choice([None, mn, mn + 1, mn + 3])
        m.memory(mn, mx, False, pl)
        mems.append(Model(mn, mx, pl))
    # active data, in bounds
    for k, mo in enumerate(mems):
        for _ in range(r.randint(0, 2)):
            n = r.randint(0, min(64, len(mo.d)))
            off = r.choice([0, len(mo.d) - n, r.randint(0, len(mo.d) - n)])
            d = r.randbytes(n)
            m.datas.append((b'\0' if k == 0 and r.random() < 0.5 else b'\2' + leb_u(k)) + i32c(off) + END + leb_u(n) + d)
            mo.d[off:off + n] = d
    segs = []
    for _ in range(r.randint(1, 3)):
        d = r.randbytes(r.choice([0, 1, 20, 200]))
        segs.append([len(m.datas), d])
        m.datas.append(b'\1' + leb_u(len(d)) + d)
    m.datacount = len(m.datas)

    def sum_fn(k):
        b = b'\x42' + W.leb_s(SUM_INIT - (1 << 64)) + lset(2) + b'\x02\x40\x03\x40' + lget(0) + lget(1) + b'\x4f' + br_if(1)
        b += lget(2) + lget(0) + b'\x31' + memarg(0, 0, k) + b'\x85' + i64c(FNV) + b'\x7e' + lset(2)
        b += lget(0) + i32c(1) + b'\x6a' + lset(0) + br(0) + END + END + lget(2)
        m.efunc(f'sum{k}', [I32, I32], [I64], [I64], b)
    for k in range(nm):
        sum_fn(k)
    steps, exp, extra = [], [], []
    nf = [0]

    def emit(params, results, body, args, outcome, locals_=()):
        fn = f'f{nf[0]}'
        nf[0] += 1
        m.efunc(fn, params, results, list(locals_), body)
        steps.append(diff.invoke('m', fn, args, results))
        exp.append(outcome)

    def pick_ea(mo, w):
        """(address, offset) with interesting effective addresses."""
        n = len(mo.d)
        ea = r.choice([0, 1, n - w, n - w - 1, n - w + 1, n - 1, n, n + 1, r.randrange(0, max(1, n)), r.randrange(0, max(1, n)),
                       r.randrange(0, min(max(1, n), 300)), M32, M32 - w + 1, M32 - w + 2, 1 << 32, (1 << 32) + r.randint(0, 100),
                       r.getrandbits(32), r.randint(0, 2 * M32)])
        ea = max(0, ea)
        off = r.choice([0, 0, 0, min(ea, r.choice([1, 4, 127, 128, 255, 65535, 65536])), ea, ea // 2, M32])
        off = min(off, M32)
        a = ea - off
        if a < 0:
            off, a = 0, ea
        if a > M32:
            off = min(M32, off + a - M32)
            a = M32
        return a, off

    def touch(k, ea, w):
        mo = mems[k]
        lo = max(0, min(ea, len(mo.d)) - 20)
        hi = min(len(mo.d), lo + w + 60)
        steps.append(diff.invoke('m', f'sum{k}', [(I32, lo), (I32, hi)], [I64]))
        exp.append(f'ok:{fnv(mo.d[lo:hi])}:i64')

    def lohi(v):
        return f'{v & (1 << 64) - 1}:i64, {v >> 64}:i64'
    for _ in range(r.randint(15, 40)):
        k = r.randrange(nm)
        mo = mems[k]
        z = r.random()
        if z < 0.35:
            nmn, (op, t, al, w) = r.choice(list(W.LOADS.items()) + list(W.VLOADS.items()))
            a, off = pick_ea(mo, w)
            body = lget(0) + op + memarg(r.randint(0, al), off, k)
            ok = mo.ok(a + off, w)
            v = load_val(nmn, bytes(mo.d[a + off:a + off + w])) if ok else None
            if t == V128:
                emit([I32], [I64, I64], body + lset(1) + lget(1) + W.fd(29) + b'\0' + lget(1) +
                     W.fd(29) + b'\1', [(I32, a)], 'ok:' + lohi(v) if ok else OOB, [V128])
            else:
                if t == F32:
                    body += b'\xbc'
                    t = I32
                if t == F64:
                    body += b'\xbd'
                    t = I64
                emit([I32], [t], body, [(I32, a)], f'ok:{v}:{t}' if ok else OOB)
        elif z < 0.40:
            nmn, (op, w) = r.choice(list(W.VLANELOADS.items()))
            a, off = pick_ea(mo, w)
            lane = r.randrange(16 // w)
            v0 = r.getrandbits(128)
            body = lget(0) + W.v128c(v0) + op + memarg(r.randint(0, w.bit_length() - 1), off, k) + bytes([lane])
            ok = mo.ok(a + off, w)
            b = bytearray(v0.to_bytes(16, 'little'))
            if ok:
                b[lane * w:(lane + 1) * w] = mo.d[a + off:a + off + w]
            emit([I32], [I64, I64], body + lset(1) + lget(1) + W.fd(29) + b'\0' + lget(1) + W.fd(29) + b'\1', [(I32, a)],
                 'ok:' + lohi(int.from_bytes(b, 'little')) if ok else OOB, [V128])
        elif z < 0.65:
            nmn, (op, t, al, w) = r.choice(list(W.STORES.items()) + list(W.VSTORES.items()))
            a, off = pick_ea(mo, w)
            bits = {I32: 32, F32: 32, I64: 64, F64: 64, V128: 128}[t]
            v = r.getrandbits(bits)
            if r.random() < 0.5:
                body = lget(0) + W.const(t, v)
            else:   # through a local of the value's type
                body = W.const(t, v) + lset(1) + lget(0) + lget(1)
            ok = mo.ok(a + off, w)
            emit([I32], [], body + op + memarg(r.randint(0, al), off, k), [(I32, a)], 'ok:' if ok else OOB, [t])
            if ok:
                mo.d[a + off:a + off + w] = (v & ((1 << (8 * w)) - 1)).to_bytes(w, 'little')
            touch(k, a + off, w)
        elif z < 0.70:
            nmn, (op, w) = r.choice(list(W.VLANESTORES.items()))
            a, off = pick_ea(mo, w)
            lane = r.randrange(16 // w)
            v = r.getrandbits(128)
            ok = mo.ok(a + off, w)
            emit([I32], [], lget(0) + W.v128c(v) + op + memarg(r.randint(0, w.bit_length() - 1), off, k) + bytes([lane]),
                 [(I32, a)], 'ok:' if ok else OOB)
            if ok:
                mo.d[a + off:a + off + w] = v.to_bytes(16, 'little')[lane * w:(lane + 1) * w]
            touch(k, a + off, w)
        elif z < 0.76:
            n = len(mo.d)
            c = r.choice([0, 1, 3, 64, 300, n, M32])
            a = r.choice([0, n, n + 1, max(0, n - c), max(0, n - c + 1), r.randrange(0, n + 1), M32])
            v = r.getrandbits(32)
            ok = a + c <= n
            emit([I32, I32, I32], [], lget(0) + lget(1) + lget(2) + fc(11) + leb_u(k), [(I32, a), (I32, v), (I32, c)],
                 'ok:' if ok else OOB)
            if ok:
                mo.d[a:a + c] = bytes([v & 255]) * c
            touch(k, a, min(c, 400))
            touch(k, a + c, 8)
        elif z < 0.84:
            k2 = r.randrange(nm) if r.random() < 0.5 else k
            m2 = mems[k2]
            n, n2 = len(mo.d), len(m2.d)
            c = r.choice([0, 1, 3, 64, 300, min(n, n2), M32])
            a = min(M32, max(0, r.choice([0, n, n + 1, n - c, n - c + 1, r.randrange(0, n + 1)])))
            b = min(M32, max(0, r.choice([0, n2, n2 + 1, n2 - c, n2 - c + 1, r.randrange(0, n2 + 1)])))
            if k == k2 and r.random() < 0.6 and n > 400:
                a = r.randrange(0, n - 350)
                b = max(0, min(n - 300, a + r.randint(-100, 100)))
                c = r.choice([1, 50, 300])
            ok = a + c <= n and b + c <= n2
            emit([I32, I32, I32], [], lget(0) + lget(1) + lget(2) + fc(10) + leb_u(k) + leb_u(k2),
                 [(I32, a), (I32, b), (I32, c)], 'ok:' if ok else OOB)
            if ok:
                mo.d[a:a + c] = bytes(m2.d[b:b + c])
            touch(k, a, min(c, 400))
            touch(k, a + c, 8)
            touch(k2, b, 8)
        elif z < 0.90:
            s = r.choice(segs)
            n, sn = len(mo.d), len(s[1])
            c = r.choice([0, 1, sn, sn + 1, sn // 2, M32])
            b = r.choice([0, 0, 1, sn, sn + 1, max(0, sn - c), M32])
            a = max(0, r.choice([0, n, n + 1, n - c, n - c + 1, r.randrange(0, n + 1), M32]))
            a = min(a, M32)
            ok = a + c <= n and b + c <= sn
            emit([I32, I32, I32], [], lget(0) + lget(1) + lget(2) + fc(8) + leb_u(s[0]) + leb_u(k),
                 [(I32, a), (I32, b), (I32, c)], 'ok:' if ok else OOB)
            if ok:
                mo.d[a:a + c] = s[1][b:b + c]
            touch(k, a, min(c, 400))
        elif z < 0.92:
            s = r.choice(segs)
            emit([], [], fc(9) + leb_u(s[0]), [], 'ok:')
            s[1] = b''
        elif z < 0.95:
            emit([], [I32], b'\x3f' + leb_u(k), [], f'ok:{mo.pages()}:i32')
        else:
            n = r.choice([0, 1, 5, 100, 65536, 0x80000000, M32] if mo.pl == 0 else [0, 1, 1, 2, 3, 65536, 65537, M32, 0x7fffffff])
            if (1 << 21) < (mo.pages() + n) << mo.pl and mo.pages() + n <= mo.max:
                n = 1   # would really allocate gigabytes
            emit([], [I32], i32c(n) + b'\x40' + leb_u(k), [], f'ok:{mo.grow(n)}:i32')
            emit([], [I32], b'\x3f' + leb_u(k), [], f'ok:{mo.pages()}:i32')
    for k in range(nm):
        n = len(mems[k].d)
        if n <= 8192 or r.random() < 0.1:
            steps.append(diff.invoke('m', f'sum{k}', [(I32, 0), (I32, n)], [I64]))
            exp.append(f'ok:{fnv(mems[k].d)}:i64')
    return [diff.load('m', m.encode())] + steps, ['ok'] + exp


def high_case(r):
    """A memory larger than 2 GiB: addresses with the top bit set."""
    m = W.Module()
    m.memory(1, 40000)
    m.efunc('grow', [I32], [I32], [], lget(0) + b'\x40\0')
    m.efunc('st', [I32, I64], [], [], lget(0) + lget(1) + b'\x37' + memarg(0, 0))
    m.efunc('ld', [I32], [I64], [], lget(0) + b'\x29' + memarg(0, 0))
    m.efunc('ldo', [I32], [I64], [], lget(0) + b'\x29' + memarg(0, 0x80000000))
    m.efunc('sto', [I32, I64], [], [], lget(0) + lget(1) + b'\x37' + memarg(0, 0x7fffff00))
    m.efunc('fill', [I32, I32, I32], [], [], lget(0) + lget(1) + lget(2) + fc(11) + b'\0')
    m.efunc('copy', [I32, I32, I32], [], [], lget(0) + lget(1) + lget(2) + fc(10) + b'\0\0')
    s = [diff.load('m', m.encode()), diff.invoke('m', 'grow', [(I32, 32999)], [I32])]
    end = 33000 << 16
    A = [0x7ffffff8, 0x7ffffffc, 0x80000000, 0x80000100, end - 8, end - 7, end, 0xfffffff8, 0x80, 0]
    for a in A:
        s.append(diff.invoke('m', 'st', [(I32, a), (I64, r.getrandbits(64))], []))
    for a in A:
        s.append(diff.invoke('m', 'ld', [(I32, a)], [I64]))
    for a in (0, 0x100, end - 0x80000000 - 8, end - 0x80000000 - 7, 0x80000000, M32):
        s.append(diff.invoke('m', 'ldo', [(I32, a)], [I64]))
        s.append(diff.invoke('m', 'sto', [(I32, a), (I64, r.getrandbits(64))], []))
        s.append(diff.invoke('m', 'ld', [(I32, (a + 0x7fffff00) & M32)], [I64]))
    s.append(diff.invoke('m', 'fill', [(I32, 0x7ffffff0), (I32, 0x5a), (I32, 40)], []))
    s.append(diff.invoke('m', 'copy', [(I32, 0x80000400), (I32, 0x7ffffff4), (I32, 50)], []))
    s.append(diff.invoke('m', 'copy', [(I32, end - 10), (I32, 0), (I32, 11)], []))
    for a in (0x7fffffe8, 0x7ffffff0, 0x80000010, 0x80000018, 0x80000400, 0x80000428, end - 16):
        s.append(diff.invoke('m', 'ld', [(I32, a)], [I64]))
    s.append(diff.invoke('m', 'grow', [(I32, 7001)], [I32]))
    return s


MW = dict(store=22, load=22, memop=14, scalar=12, simd=5, block=5, loop=6, if_=5, br=1, br_if=5, br_table=1, call=4, calli=2,
          tailcall=0.5, throw=0.2, try_=0.3, tableop=0.3, ref=0.3, mix=12, local=8)
KWS = [dict(w=MW), dict(w=MW, simd=False, trap=0.06), dict(w={**MW, 'loop': 10}, fuel=600), dict(w=MW, trap=0.005)]


def model_cmp(a, b):
    return diff.same(a, b)


def main(c):
    build.build_many(['asan', 'rel'])
    c.rule = 'distinct (module size, expected outcome)'
    n = c.scale(2400, 30000)
    B = 10000
    for lo in range(0, n, B):
        g = progcheck.pgen('checks.c04', 'model_case', f'C04m:{c.seed}:{lo}', min(B, n - lo))
        cases, ref = [x[0] for x in g], [x[1] for x in g]
        progcheck.run(c, cases, [('rel', [], len(cases)), ('asan', [], c.scale(900, 4000))], label=f'model{lo}', ref=ref)
        c.sample(dict(case=diff.show(cases[0])[:3], expected=ref[0][:3]), limit=1)
    n = c.scale(2500, 40000)
    for lo in range(0, n, B):
        cases = progcheck.pgen('vp.progcheck', 'prog_case', f'C04p:{c.seed}:{lo}', min(B, n - lo), kws=KWS,
                               steps_kw=dict(full_sum=0.08))
        progcheck.run(c, cases, [('rel', [], len(cases)), ('asan', [], c.scale(300, 2000))], label=f'prog{lo}')
    cases = [high_case(c.sub_rng('high'))]
    progcheck.run(c, cases, [('rel', [], 1)], label='high')


if __name__ == '__main__':
    run_check('C04', main)
