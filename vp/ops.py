"""Per-instruction workloads: edge and random operands through many routes,
results returned as raw bits, compared with the reference slot by slot."""
import struct

from . import wasm as W
from .wasm import I32, I64, F32, F64, V128


def f32b(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def f64b(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


E_I32 = sorted({0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000,
                0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xffffff80, 0xffff8000, 0x55555555,
                0xaaaaaaaa, 0x00ff00ff, 0x12345678, 0xdeadbeef, 0x40000000, 0x01000000, 0x01000001, 0xc0000000})
E_I64 = sorted(set(E_I32) | {0x100000000, 0xffffffff00000000, 0x7fffffffffffffff, 0x8000000000000000,
                             0x8000000000000001, 0xffffffffffffffff, 0xfffffffffffffffe, 0x5555555555555555,
                             0xaaaaaaaaaaaaaaaa, 0x0123456789abcdef, 0xfedcba9876543210, 0x8000000080000000,
                             0xffffffff80000000, 0x20000000000001, 0x1fffffffffffff, 0x40000000000000, 0xffffffffffffff80,
                             0x7fffff4000000001, 0x8000004000000001, 0x7ffffffffffffbff, 0x7ffffffffffffc00})
_f = [0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.5, 4.0, 6.28, 1e10, 1e-10, 8388607.5, 8388608.0, 16777215.0, 16777216.0,
      2147483520.0, 2147483648.0, 4294967040.0, 4294967296.0, 9223371487098961920.0, 9223372036854775808.0,
      18446742974197923840.0, 18446744073709551616.0, 127.0, 128.0, 255.0, 256.0, 32767.0, 32768.0, 65535.0, 65536.0]
E_F32 = []
for x in _f:
    E_F32 += [f32b(x), f32b(-x)]
for b in (0x00000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0x7f800000, 0x3f7fffff, 0x3f800001, 0x4effffff, 0x4f000001,
          0x3effffff, 0x3f000001):
    E_F32 += [b, b | 0x80000000]
E_F32_NAN = [0x7fc00000, 0xffc00000, 0x7f800001, 0x7fa00000, 0xff812345, 0x7fffffff, 0x7fc00001]
_d = _f + [2147483647.0, 2147483647.5, 2147483648.5, 2147483649.0, 4294967295.0, 4294967295.5, 4294967295.9999,
           9223372036854774784.0, 18446744073709549568.0, 4503599627370495.5, 4503599627370496.0, 9007199254740991.0,
           9007199254740992.0, 3.4028234663852886e38, 3.4028235677973366e38, 1.401298464324817e-45, 7.006492321624085e-46,
           1.1754943508222875e-38, 0.9999999999999999, 1e300, 1e-300, 0.3]
E_F64 = []
for x in _d:
    E_F64 += [f64b(x), f64b(-x)]
for b in (1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x7ff0000000000000, 0x3fefffffffffffff,
          0x3ff0000000000001, 0x41dfffffffffffff, 0x41efffffffffffff, 0x43dfffffffffffff, 0x43efffffffffffff,
          0x47efffffe0000000, 0x47efffffefffffff, 0x47effffff0000000, 0x36a0000000000000, 0x3690000000000000,
          0x3690000000000001, 0x380fffffffffffff, 0x3ff0000010000000, 0x3ff0000030000000, 0x3ff0000010000001):
    E_F64 += [b, b | 1 << 63]
E_F64_NAN = [0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0x7ff4000000000000, 0xfff123456789abcd,
             0x7fffffffffffffff, 0x7ff8000000000001]
E_F32 = sorted(set(E_F32)) + E_F32_NAN
E_F64 = sorted(set(E_F64)) + E_F64_NAN
EDGE = {I32: E_I32, I64: E_I64, F32: E_F32, F64: E_F64}


def isnan32(b):
    return (b & 0x7f800000) == 0x7f800000 and b & 0x7fffff != 0


def isnan64(b):
    return (b >> 52) & 0x7ff == 0x7ff and b & ((1 << 52) - 1) != 0


def canon32(b):
    return b & 0x7fffffff == 0x7fc00000


def canon64(b):
    return b & 0x7fffffffffffffff == 0x7ff8000000000000


def isnan(t, b):
    return (t == F32 and isnan32(b)) or (t == F64 and isnan64(b))


def iscanon(t, b):
    return canon32(b) if t == F32 else canon64(b)


def rnd(r, t):
    k = r.random()
    if t == V128:
        m = r.random()
        if m < 0.2:
            return r.getrandbits(128)
        lane = r.choice([(8, E_I32), (16, E_I32), (32, E_I32), (64, E_I64), (32, E_F32), (64, E_F64)])
        n = 128 // lane[0]
        v = 0
        if m < 0.3:
            x = r.choice(lane[1]) & ((1 << lane[0]) - 1)
            for i in range(n):
                v |= x << (i * lane[0])
            return v
        for i in range(n):
            x = r.choice(lane[1]) if r.random() < 0.75 else r.getrandbits(64)
            v |= (x & ((1 << lane[0]) - 1)) << (i * lane[0])
        return v
    if k < 0.55:
        return r.choice(EDGE[t])
    bits = 32 if t in (I32, F32) else 64
    if t in (F32, F64) and k < 0.8:
        m = r.random()
        if m < 0.4:
            x = r.randint(-1 << 20, 1 << 20) / 2
        elif m < 0.7:
            x = r.uniform(-10, 10)
        else:
            x = r.choice([-1, 1]) * 2.0 ** r.randint(-30, 66) * r.uniform(1, 2)
        return f32b(x) if t == F32 else f64b(x)
    if k < 0.85:
        return r.getrandbits(r.randint(1, bits))
    return r.getrandbits(bits)


class OpModule:
    """Builds a module whose functions evaluate one instruction per slot with
    operands arriving by randomly chosen routes."""

    DATA = 4096

    def __init__(self, rng):
        self.r = rng
        m = self.m = W.Module()
        m.memory(1, 2)
        m.export('mem', 2, 0)
        self.globals = {}
        for t in (I32, I64, F32, F64, V128):
            self.globals[t] = m.global_(t, True, W.const(t, 0))
        self.ident = {}
        for t in (I32, I64, F32, F64, V128):
            self.ident[t] = m.func([t], [t], [], W.lget(0))
        self.addr = 64
        self.n = 0

    def operand(self, t, v, L):
        """Code pushing value v of type t. L: {type: (first local, count)}."""
        r = self.r
        c = W.const(t, v)
        if t in (I32, I64) and r.random() < 0.15:
            # a longer, still legal, encoding of the same constant
            m = 5 if t == I32 else 10
            c = (b'\x41' if t == I32 else b'\x42') + W.leb_s_pad(W.s32(v) if t == I32 else W.s64(v), r.randint(len(c) - 1, m))
        k = r.randrange(11)
        l = L[t][0] + r.randrange(L[t][1])
        if k == 0:
            return c + W.lset(l) + W.lget(l)
        if k == 1:
            return c + W.ltee(l)
        if k == 2:
            g = self.globals[t]
            return c + W.gset(g) + W.gget(g)
        if k == 3:
            a = r.randrange(64, 60000)
            st, ld, al = {I32: ('i32.store', 'i32.load', 2), I64: ('i64.store', 'i64.load', 3),
                          F32: ('f32.store', 'f32.load', 2), F64: ('f64.store', 'f64.load', 3),
                          V128: ('v128.store', 'v128.load', 4)}[t]
            s = (W.STORES if t != V128 else W.VSTORES)[st][0]
            ld = (W.LOADS if t != V128 else W.VLOADS)[ld][0]
            off = r.randrange(0, 64)
            return W.i32c(a) + c + s + W.memarg(r.randint(0, al), off) + W.i32c(a + off) + ld + W.memarg(r.randint(0, al), 0)
        if k == 4:
            return c + W.call(self.ident[t])
        if k == 5:
            other = W.const(t, rnd(r, t))
            if r.random() < 0.5:
                return c + other + W.i32c(r.randint(1, 1 << 31)) + W.SELECT
            return other + c + W.i32c(0) + W.SELECT
        if k == 6:
            return b'\x02' + bytes([W.VT[t]]) + c + (W.br(0) if r.random() < 0.5 else b'') + W.END
        if k == 7:
            # something below it on the stack is dropped by the branch
            t2 = r.choice([I32, I64, F64, V128])
            return b'\x02' + bytes([W.VT[t]]) + W.const(t2, rnd(r, t2)) + c + W.br(0) + W.END
        if k == 8:
            return W.i32c(r.randint(0, 1)) + b'\x04' + bytes([W.VT[t]]) + c + W.ELSE + c + W.END
        return c

    @staticmethod
    def locals_():
        ts = [I32, V128, I64, F32, F64]
        L, decl, n = {}, [], 0
        for t in ts:
            L[t] = (n, 2)
            decl += [t, t]
            n += 2
        return L, decl

    def tobits(self, t):
        return {I32: b'\xad', I64: b'', F32: b'\xbc\xad', F64: b'\xbd'}[t]

    def result_code(self, t, L, spare):
        """Turns the value of type t on the stack into i64 slots; returns
        (code, nslots)."""
        if t == V128:
            v = L[V128][0]
            return (W.lset(v) + W.lget(v) + W.fd(29) + b'\0' + W.lget(v) + W.fd(29) + b'\1', 2)
        return self.tobits(t), 1

    def add_func(self, evals):
        """evals: list of (opcode bytes, param types, values, result types, kinds)
        -> exported name, slot metadata."""
        L, decl = self.locals_()
        body = b''
        meta = []
        for code, ptypes, vals, rtypes, mk in evals:
            for t, v in zip(ptypes, vals):
                body += self.operand(t, v, L)
            body += code
            assert len(rtypes) == 1
            c, n = self.result_code(rtypes[0], L, None)
            body += c
            meta += mk
        nm = f'f{self.n}'
        self.n += 1
        self.m.efunc(nm, [], [I64] * len(meta), decl, body)
        return nm, meta

    def add_param_func(self, code, ptypes, rtypes):
        """The operands come in as raw bits."""
        frm = {I32: b'\xa7', I64: b'', F32: b'\xa7\xbe', F64: b'\xbf'}
        body = b''
        for i, t in enumerate(ptypes):
            body += W.lget(i) + frm[t]
        body += code + self.tobits(rtypes[0])
        nm = f'f{self.n}'
        self.n += 1
        self.m.efunc(nm, [I64] * len(ptypes), [I64], [], body)
        return nm


def slot_kind(rt, flags, ptypes, vals):
    """Metadata of the i64 slots of one result: 'x' exact or NaN classes."""
    canon = not any(isnan(t, v) and not iscanon(t, v) for t, v in zip(ptypes, vals))
    if 'n' in flags:
        return [(rt, canon)]
    if rt == V128:
        if 'f' in flags:
            return [('f32x2', False)] * 2
        if 'd' in flags:
            return [('f64', False)] * 2
        return ['x', 'x']
    return ['x']


def slot_ok(kind, got, want):
    if got == want:
        return True
    if kind == 'x':
        return False
    t, canon = kind
    if t == F32:
        return isnan32(got) and isnan32(want) and bool(got & 0x400000) and (not canon or canon32(got))
    if t == F64:
        return isnan64(got) and isnan64(want) and bool(got >> 51 & 1) and (not canon or canon64(got))
    if t == 'f32x2':
        return all(a == b or (isnan32(a) and isnan32(b) and bool(a & 0x400000))
                   for a, b in ((got & 0xffffffff, want & 0xffffffff), (got >> 32, want >> 32)))
    return False


def slot_nan_checked(kind, got):
    """A NaN result equal to the reference is still subject to the class rule."""
    if kind == 'x':
        return True
    t, canon = kind
    if t == F32 and isnan32(got):
        return bool(got & 0x400000) and (not canon or canon32(got))
    if t == F64 and isnan64(got):
        return bool(got >> 51 & 1) and (not canon or canon64(got))
    return True


def values(outcome):
    """'ok:1:i64, 2:i64' -> [1, 2] or None."""
    if not outcome.startswith('ok:'):
        return None
    s = outcome[3:]
    if not s:
        return []
    return [int(x.rsplit(':', 1)[0]) for x in s.split(', ')]
