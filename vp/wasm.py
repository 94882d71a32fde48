"""Minimal WebAssembly binary encoder and instruction tables."""
import re
import struct

I32, I64, F32, F64, V128 = 'i32', 'i64', 'f32', 'f64', 'v128'
FUNCREF, EXTERNREF, EXNREF = 'funcref', 'externref', 'exnref'
VT = {I32: 0x7f, I64: 0x7e, F32: 0x7d, F64: 0x7c, V128: 0x7b,
      FUNCREF: 0x70, EXTERNREF: 0x6f, EXNREF: 0x69}


def leb_u(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def leb_s(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if (n == 0 and not b & 0x40) or (n == -1 and b & 0x40):
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


def leb_s_pad(n, total):
    """Signed LEB128 padded to total bytes."""
    out = bytearray()
    for i in range(total):
        b = n & 0x7f
        n >>= 7
        out.append(b | (0x80 if i < total - 1 else 0))
    return bytes(out)


def leb_u_pad(n, total):
    return leb_s_pad(n, total)


def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def vec(items):
    items = list(items)
    return leb_u(len(items)) + b''.join(items)


def name(s):
    if isinstance(s, str):
        s = s.encode()
    return leb_u(len(s)) + s


def i32c(v):
    return b'\x41' + leb_s(s32(v))


def i64c(v):
    return b'\x42' + leb_s(s64(v))


def f32c(bits):
    return b'\x43' + struct.pack('<I', bits & 0xffffffff)


def f64c(bits):
    return b'\x44' + struct.pack('<Q', bits & (1 << 64) - 1)


def v128c(bits):
    return b'\xfd\x0c' + (bits & (1 << 128) - 1).to_bytes(16, 'little')


def const(t, v):
    if t == I32:
        return i32c(v)
    if t == I64:
        return i64c(v)
    if t == F32:
        return f32c(v)
    if t == F64:
        return f64c(v)
    if t == V128:
        return v128c(v)
    if t in (FUNCREF, EXTERNREF, EXNREF):
        return b'\xd0' + bytes([VT[t]])
    raise ValueError(t)


def op(n):
    return bytes([n])


def fc(n):
    return b'\xfc' + leb_u(n)


def fd(n):
    return b'\xfd' + leb_u(n)


def fe(n):
    return b'\xfe' + leb_u(n)


def lget(i):
    return b'\x20' + leb_u(i)


def lset(i):
    return b'\x21' + leb_u(i)


def ltee(i):
    return b'\x22' + leb_u(i)


def gget(i):
    return b'\x23' + leb_u(i)


def gset(i):
    return b'\x24' + leb_u(i)


def call(i):
    return b'\x10' + leb_u(i)


def br(i):
    return b'\x0c' + leb_u(i)


def br_if(i):
    return b'\x0d' + leb_u(i)


def memarg(align, offset, mem=0):
    if mem:
        return leb_u(align | 0x40) + leb_u(mem) + leb_u(offset)
    return leb_u(align) + leb_u(offset)


END = b'\x0b'
ELSE = b'\x05'
DROP = b'\x1a'
UNREACHABLE = b'\x00'
RETURN = b'\x0f'
SELECT = b'\x1b'


def limits(mn, mx=None, shared=False, pagelog=None):
    fl = (1 if mx is not None else 0) | (2 if shared else 0) | (8 if pagelog is not None else 0)
    r = bytes([fl]) + leb_u(mn)
    if mx is not None:
        r += leb_u(mx)
    if pagelog is not None:
        r += leb_u(pagelog)
    return r


def functype(params, results):
    return b'\x60' + vec(bytes([VT[t]]) for t in params) + vec(bytes([VT[t]]) for t in results)


class Module:
    """Collects definitions; indices are assigned with imports first, so add
    imports before definitions."""

    def __init__(self):
        self.types = []
        self.imports = []   # (mod, name, kind, payload)
        self.funcs = []     # (typeidx, locals list, body)
        self.tables = []    # bytes
        self.mems = []
        self.tags = []
        self.globals = []   # bytes
        self.exports = []   # (name, kind, idx)
        self.start = None
        self.elems = []     # bytes
        self.datas = []     # bytes
        self.datacount = None
        self.customs = []   # (position, name, payload) position 'pre'/'post'
        self.nimp = {0: 0, 1: 0, 2: 0, 3: 0, 4: 0}

    def type(self, params, results, fresh=False):
        k = (tuple(params), tuple(results))
        if not fresh and k in self.types:
            return self.types.index(k)
        self.types.append(k)
        return len(self.types) - 1

    def import_(self, mod, nm, kind, payload):
        self.imports.append((mod, nm, kind, payload))
        i = self.nimp[kind]
        self.nimp[kind] += 1
        return i

    def import_func(self, mod, nm, params, results):
        return self.import_(mod, nm, 0, leb_u(self.type(params, results)))

    def func(self, params, results, locals_=(), body=b'', typeidx=None):
        t = self.type(params, results) if typeidx is None else typeidx
        self.funcs.append([t, list(locals_), body])
        return self.nimp[0] + len(self.funcs) - 1

    def set_body(self, idx, locals_, body):
        f = self.funcs[idx - self.nimp[0]]
        f[1] = list(locals_)
        f[2] = body

    def table(self, t, mn, mx=None):
        self.tables.append(bytes([VT[t]]) + limits(mn, mx))
        return self.nimp[1] + len(self.tables) - 1

    def memory(self, mn, mx=None, shared=False, pagelog=None):
        self.mems.append(limits(mn, mx, shared, pagelog))
        return self.nimp[2] + len(self.mems) - 1

    def global_(self, t, mut, init):
        self.globals.append(bytes([VT[t], 1 if mut else 0]) + init + END)
        return self.nimp[3] + len(self.globals) - 1

    def tag(self, params):
        self.tags.append(b'\0' + leb_u(self.type(params, [])))
        return self.nimp[4] + len(self.tags) - 1

    def export(self, nm, kind, idx):
        self.exports.append((nm, kind, idx))

    def efunc(self, nm, *a, **k):
        i = self.func(*a, **k)
        self.export(nm, 0, i)
        return i

    @staticmethod
    def sec(i, payload):
        return bytes([i]) + leb_u(len(payload)) + payload

    @staticmethod
    def enc_locals(ls):
        groups = []
        for t in ls:
            if groups and groups[-1][0] == t:
                groups[-1][1] += 1
            else:
                groups.append([t, 1])
        return vec(leb_u(n) + bytes([VT[t]]) for t, n in groups)

    def sections(self):
        S = []
        if self.types:
            S.append((1, vec(functype(p, r) for p, r in self.types)))
        if self.imports:
            S.append((2, vec(name(m) + name(n) + bytes([k]) + (b'\0' if k == 4 else b'') + pl
                             for m, n, k, pl in self.imports)))
        if self.funcs:
            S.append((3, vec(leb_u(f[0]) for f in self.funcs)))
        if self.tables:
            S.append((4, vec(self.tables)))
        if self.mems:
            S.append((5, vec(self.mems)))
        if self.tags:
            S.append((13, vec(self.tags)))
        if self.globals:
            S.append((6, vec(self.globals)))
        if self.exports:
            S.append((7, vec(name(n) + bytes([k]) + leb_u(i) for n, k, i in self.exports)))
        if self.start is not None:
            S.append((8, leb_u(self.start)))
        if self.elems:
            S.append((9, vec(self.elems)))
        if self.datacount is not None:
            S.append((12, leb_u(self.datacount)))
        if self.funcs:
            S.append((10, vec(self.code(f) for f in self.funcs)))
        if self.datas:
            S.append((11, vec(self.datas)))
        return S

    def code(self, f):
        b = f[2]
        if b'\xf5try' in b:
            b = b.replace(TRY0[0], self.try0[0]).replace(TRY0[1], self.try0[1])
            b = re.sub(TRYP + b'(.)', lambda m: m.group(1) if self.try0[0] == b'\x02' else bytes([m.group(1)[0] | 0x80, 0]), b, flags=re.S)
        b = self.enc_locals(f[1]) + b + END
        return leb_u(len(b)) + b

    def encode(self, try0=(b'\x1f', b'\0')):
        """try0: how to write a try_table without clauses, which is the same
        as a block (the reference engine mishandles the former)."""
        self.try0 = try0
        out = b'\0asm\1\0\0\0'
        for pos, n, pl in self.customs:
            if pos == 'pre':
                out += self.sec(0, name(n) + pl)
        for i, pl in self.sections():
            out += self.sec(i, pl)
        for pos, n, pl in self.customs:
            if pos == 'post':
                out += self.sec(0, name(n) + pl)
        return out

    def encode2(self):
        """(encoding, encoding for the reference or None)"""
        b = self.encode()
        return b, self.encode((b'\x02', b'')) if any(b'\xf5try' in f[2] for f in self.funcs) else None


# start and end of the head of a try_table without clauses, see Module.encode
TRY0 = (b'\xf5try0\xf5', b'\xf5tryE\xf5')
# before the type index (< 64) of a try_table: write it in two bytes, but not
# for the reference engine, which mishandles that too
TRYP = b'\xf5tryP\xf5'

# ---------------------------------------------------------------- opcodes
# name -> (bytes, params, results, flags); flags: 'n' result may be an
# arithmetic NaN, 't' may trap
SCALAR = {}


def _d(n, b, p, r, fl=''):
    SCALAR[n] = (b, tuple(p), tuple(r), fl)


for pre, t, base in (('i32', I32, 0x45), ('i64', I64, 0x50)):
    _d(pre + '.eqz', op(base), [t], [I32])
    for k, nm in enumerate('eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u'.split()):
        _d(f'{pre}.{nm}', op(base + 1 + k), [t, t], [I32])
for pre, t, base in (('f32', F32, 0x5b), ('f64', F64, 0x61)):
    for k, nm in enumerate('eq ne lt gt le ge'.split()):
        _d(f'{pre}.{nm}', op(base + k), [t, t], [I32])
for pre, t, base in (('i32', I32, 0x67), ('i64', I64, 0x79)):
    for k, nm in enumerate('clz ctz popcnt'.split()):
        _d(f'{pre}.{nm}', op(base + k), [t], [t])
    for k, nm in enumerate('add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr'.split()):
        _d(f'{pre}.{nm}', op(base + 3 + k), [t, t], [t], 't' if nm[:3] in ('div', 'rem') else '')
for pre, t, base in (('f32', F32, 0x8b), ('f64', F64, 0x99)):
    for k, nm in enumerate('abs neg ceil floor trunc nearest sqrt'.split()):
        _d(f'{pre}.{nm}', op(base + k), [t], [t], '' if k < 2 else 'n')
    for k, nm in enumerate('add sub mul div min max copysign'.split()):
        _d(f'{pre}.{nm}', op(base + 7 + k), [t, t], [t], '' if nm == 'copysign' else 'n')
_d('i32.wrap_i64', op(0xa7), [I64], [I32])
for k, (nm, p, r) in enumerate((('i32.trunc_f32_s', F32, I32), ('i32.trunc_f32_u', F32, I32),
                                ('i32.trunc_f64_s', F64, I32), ('i32.trunc_f64_u', F64, I32))):
    _d(nm, op(0xa8 + k), [p], [r], 't')
_d('i64.extend_i32_s', op(0xac), [I32], [I64])
_d('i64.extend_i32_u', op(0xad), [I32], [I64])
for k, (nm, p, r) in enumerate((('i64.trunc_f32_s', F32, I64), ('i64.trunc_f32_u', F32, I64),
                                ('i64.trunc_f64_s', F64, I64), ('i64.trunc_f64_u', F64, I64))):
    _d(nm, op(0xae + k), [p], [r], 't')
for k, (r, p) in enumerate(((F32, I32), (F32, I32), (F32, I64), (F32, I64))):
    _d(f'f32.convert_{p}_{"su"[k & 1]}', op(0xb2 + k), [p], [r])
_d('f32.demote_f64', op(0xb6), [F64], [F32], 'n')
for k, (r, p) in enumerate(((F64, I32), (F64, I32), (F64, I64), (F64, I64))):
    _d(f'f64.convert_{p}_{"su"[k & 1]}', op(0xb7 + k), [p], [r])
_d('f64.promote_f32', op(0xbb), [F32], [F64], 'n')
_d('i32.reinterpret_f32', op(0xbc), [F32], [I32])
_d('i64.reinterpret_f64', op(0xbd), [F64], [I64])
_d('f32.reinterpret_i32', op(0xbe), [I32], [F32])
_d('f64.reinterpret_i64', op(0xbf), [I64], [F64])
_d('i32.extend8_s', op(0xc0), [I32], [I32])
_d('i32.extend16_s', op(0xc1), [I32], [I32])
_d('i64.extend8_s', op(0xc2), [I64], [I64])
_d('i64.extend16_s', op(0xc3), [I64], [I64])
_d('i64.extend32_s', op(0xc4), [I64], [I64])
for k, (r, p, s) in enumerate(((I32, F32, 's'), (I32, F32, 'u'), (I32, F64, 's'), (I32, F64, 'u'),
                               (I64, F32, 's'), (I64, F32, 'u'), (I64, F64, 's'), (I64, F64, 'u'))):
    _d(f'{r}.trunc_sat_{p}_{s}', fc(k), [p], [r])

# loads/stores: name -> (opcode bytes, value type, natural align log2, width)
LOADS = {}
STORES = {}
for k, (nm, t, w) in enumerate((('i32.load', I32, 4), ('i64.load', I64, 8), ('f32.load', F32, 4), ('f64.load', F64, 8),
                                ('i32.load8_s', I32, 1), ('i32.load8_u', I32, 1), ('i32.load16_s', I32, 2),
                                ('i32.load16_u', I32, 2), ('i64.load8_s', I64, 1), ('i64.load8_u', I64, 1),
                                ('i64.load16_s', I64, 2), ('i64.load16_u', I64, 2), ('i64.load32_s', I64, 4),
                                ('i64.load32_u', I64, 4))):
    LOADS[nm] = (op(0x28 + k), t, w.bit_length() - 1, w)
for k, (nm, t, w) in enumerate((('i32.store', I32, 4), ('i64.store', I64, 8), ('f32.store', F32, 4), ('f64.store', F64, 8),
                                ('i32.store8', I32, 1), ('i32.store16', I32, 2), ('i64.store8', I64, 1),
                                ('i64.store16', I64, 2), ('i64.store32', I64, 4))):
    STORES[nm] = (op(0x36 + k), t, w.bit_length() - 1, w)
VLOADS = {}
for k, (nm, w) in enumerate((('v128.load', 16), ('v128.load8x8_s', 8), ('v128.load8x8_u', 8), ('v128.load16x4_s', 8),
                             ('v128.load16x4_u', 8), ('v128.load32x2_s', 8), ('v128.load32x2_u', 8),
                             ('v128.load8_splat', 1), ('v128.load16_splat', 2), ('v128.load32_splat', 4),
                             ('v128.load64_splat', 8))):
    VLOADS[nm] = (fd(k), V128, w.bit_length() - 1, w)
VLOADS['v128.load32_zero'] = (fd(92), V128, 2, 4)
VLOADS['v128.load64_zero'] = (fd(93), V128, 3, 8)
VSTORES = {'v128.store': (fd(11), V128, 4, 16)}
# lane loads/stores: (opcode, width)
VLANELOADS = {f'v128.load{8 << k}_lane': (fd(84 + k), 1 << k) for k in range(4)}
VLANESTORES = {f'v128.store{8 << k}_lane': (fd(88 + k), 1 << k) for k in range(4)}

# SIMD: name -> (bytes, params, results, flags, nlanes_imm)
# flags 'f'/'d': result lanes are f32/f64 arithmetic NaN candidates
SIMD = {}


def _v(n, num, p, r, fl='', imm=None):
    SIMD[n] = (fd(num), tuple(p), tuple(r), fl, imm)


V = V128
_v('i8x16.swizzle', 14, [V, V], [V])
for k, (sh, t) in enumerate((('i8x16', I32), ('i16x8', I32), ('i32x4', I32), ('i64x2', I64), ('f32x4', F32), ('f64x2', F64))):
    _v(sh + '.splat', 15 + k, [t], [V])
_n = 21
for nm, p, r, lanes in (('i8x16.extract_lane_s', [V], [I32], 16), ('i8x16.extract_lane_u', [V], [I32], 16),
                        ('i8x16.replace_lane', [V, I32], [V], 16), ('i16x8.extract_lane_s', [V], [I32], 8),
                        ('i16x8.extract_lane_u', [V], [I32], 8), ('i16x8.replace_lane', [V, I32], [V], 8),
                        ('i32x4.extract_lane', [V], [I32], 4), ('i32x4.replace_lane', [V, I32], [V], 4),
                        ('i64x2.extract_lane', [V], [I64], 2), ('i64x2.replace_lane', [V, I64], [V], 2),
                        ('f32x4.extract_lane', [V], [F32], 4), ('f32x4.replace_lane', [V, F32], [V], 4),
                        ('f64x2.extract_lane', [V], [F64], 2), ('f64x2.replace_lane', [V, F64], [V], 2)):
    _v(nm, _n, p, r, '', lanes)
    _n += 1
_n = 35
for sh in ('i8x16', 'i16x8', 'i32x4'):
    for c in 'eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u'.split():
        _v(f'{sh}.{c}', _n, [V, V], [V])
        _n += 1
for sh in ('f32x4', 'f64x2'):
    for c in 'eq ne lt gt le ge'.split():
        _v(f'{sh}.{c}', _n, [V, V], [V])
        _n += 1
for nm, num in (('v128.not', 77),):
    _v(nm, num, [V], [V])
for nm, num in (('v128.and', 78), ('v128.andnot', 79), ('v128.or', 80), ('v128.xor', 81)):
    _v(nm, num, [V, V], [V])
_v('v128.bitselect', 82, [V, V, V], [V])
_v('v128.any_true', 83, [V], [I32])
_v('f32x4.demote_f64x2_zero', 94, [V], [V], 'f')
_v('f64x2.promote_low_f32x4', 95, [V], [V], 'd')


def _u(n, num, fl=''):
    _v(n, num, [V], [V], fl)


def _b(n, num, fl=''):
    _v(n, num, [V, V], [V], fl)


def _s(n, num):
    _v(n, num, [V, I32], [V])


def _t(n, num):
    _v(n, num, [V], [I32])


_u('i8x16.abs', 96); _u('i8x16.neg', 97); _u('i8x16.popcnt', 98); _t('i8x16.all_true', 99); _t('i8x16.bitmask', 100)
_b('i8x16.narrow_i16x8_s', 101); _b('i8x16.narrow_i16x8_u', 102)
_u('f32x4.ceil', 103, 'f'); _u('f32x4.floor', 104, 'f'); _u('f32x4.trunc', 105, 'f'); _u('f32x4.nearest', 106, 'f')
_s('i8x16.shl', 107); _s('i8x16.shr_s', 108); _s('i8x16.shr_u', 109)
_b('i8x16.add', 110); _b('i8x16.add_sat_s', 111); _b('i8x16.add_sat_u', 112)
_b('i8x16.sub', 113); _b('i8x16.sub_sat_s', 114); _b('i8x16.sub_sat_u', 115)
_u('f64x2.ceil', 116, 'd'); _u('f64x2.floor', 117, 'd')
_b('i8x16.min_s', 118); _b('i8x16.min_u', 119); _b('i8x16.max_s', 120); _b('i8x16.max_u', 121)
_u('f64x2.trunc', 122, 'd'); _b('i8x16.avgr_u', 123)
_u('i16x8.extadd_pairwise_i8x16_s', 124); _u('i16x8.extadd_pairwise_i8x16_u', 125)
_u('i32x4.extadd_pairwise_i16x8_s', 126); _u('i32x4.extadd_pairwise_i16x8_u', 127)
_u('i16x8.abs', 128); _u('i16x8.neg', 129); _b('i16x8.q15mulr_sat_s', 130); _t('i16x8.all_true', 131); _t('i16x8.bitmask', 132)
_b('i16x8.narrow_i32x4_s', 133); _b('i16x8.narrow_i32x4_u', 134)
_u('i16x8.extend_low_i8x16_s', 135); _u('i16x8.extend_high_i8x16_s', 136)
_u('i16x8.extend_low_i8x16_u', 137); _u('i16x8.extend_high_i8x16_u', 138)
_s('i16x8.shl', 139); _s('i16x8.shr_s', 140); _s('i16x8.shr_u', 141)
_b('i16x8.add', 142); _b('i16x8.add_sat_s', 143); _b('i16x8.add_sat_u', 144)
_b('i16x8.sub', 145); _b('i16x8.sub_sat_s', 146); _b('i16x8.sub_sat_u', 147)
_u('f64x2.nearest', 148, 'd'); _b('i16x8.mul', 149)
_b('i16x8.min_s', 150); _b('i16x8.min_u', 151); _b('i16x8.max_s', 152); _b('i16x8.max_u', 153); _b('i16x8.avgr_u', 155)
_b('i16x8.extmul_low_i8x16_s', 156); _b('i16x8.extmul_high_i8x16_s', 157)
_b('i16x8.extmul_low_i8x16_u', 158); _b('i16x8.extmul_high_i8x16_u', 159)
_u('i32x4.abs', 160); _u('i32x4.neg', 161); _t('i32x4.all_true', 163); _t('i32x4.bitmask', 164)
_u('i32x4.extend_low_i16x8_s', 167); _u('i32x4.extend_high_i16x8_s', 168)
_u('i32x4.extend_low_i16x8_u', 169); _u('i32x4.extend_high_i16x8_u', 170)
_s('i32x4.shl', 171); _s('i32x4.shr_s', 172); _s('i32x4.shr_u', 173)
_b('i32x4.add', 174); _b('i32x4.sub', 177); _b('i32x4.mul', 181)
_b('i32x4.min_s', 182); _b('i32x4.min_u', 183); _b('i32x4.max_s', 184); _b('i32x4.max_u', 185); _b('i32x4.dot_i16x8_s', 186)
_b('i32x4.extmul_low_i16x8_s', 188); _b('i32x4.extmul_high_i16x8_s', 189)
_b('i32x4.extmul_low_i16x8_u', 190); _b('i32x4.extmul_high_i16x8_u', 191)
_u('i64x2.abs', 192); _u('i64x2.neg', 193); _t('i64x2.all_true', 195); _t('i64x2.bitmask', 196)
_u('i64x2.extend_low_i32x4_s', 199); _u('i64x2.extend_high_i32x4_s', 200)
_u('i64x2.extend_low_i32x4_u', 201); _u('i64x2.extend_high_i32x4_u', 202)
_s('i64x2.shl', 203); _s('i64x2.shr_s', 204); _s('i64x2.shr_u', 205)
_b('i64x2.add', 206); _b('i64x2.sub', 209); _b('i64x2.mul', 213)
for k, c in enumerate('eq ne lt_s gt_s le_s ge_s'.split()):
    _b(f'i64x2.{c}', 214 + k)
_b('i64x2.extmul_low_i32x4_s', 220); _b('i64x2.extmul_high_i32x4_s', 221)
_b('i64x2.extmul_low_i32x4_u', 222); _b('i64x2.extmul_high_i32x4_u', 223)
for pre, base, fl in (('f32x4', 224, 'f'), ('f64x2', 236, 'd')):
    _u(pre + '.abs', base); _u(pre + '.neg', base + 1); _u(pre + '.sqrt', base + 3, fl)
    for k, nm in enumerate('add sub mul div min max'.split()):
        _b(f'{pre}.{nm}', base + 4 + k, fl)
    _b(pre + '.pmin', base + 10); _b(pre + '.pmax', base + 11)
_u('i32x4.trunc_sat_f32x4_s', 248); _u('i32x4.trunc_sat_f32x4_u', 249)
_u('f32x4.convert_i32x4_s', 250); _u('f32x4.convert_i32x4_u', 251)
_u('i32x4.trunc_sat_f64x2_s_zero', 252); _u('i32x4.trunc_sat_f64x2_u_zero', 253)
_u('f64x2.convert_low_i32x4_s', 254); _u('f64x2.convert_low_i32x4_u', 255)
SHUFFLE = fd(13)

# atomics: name -> (opcode, type, width)
ARMW = {}
_base = 0x1e
for nm in 'add sub and or xor xchg'.split():
    for k, (t, w, sfx) in enumerate(((I32, 4, 'i32.atomic.rmw'), (I64, 8, 'i64.atomic.rmw'), (I32, 1, 'i32.atomic.rmw8'),
                                     (I32, 2, 'i32.atomic.rmw16'), (I64, 1, 'i64.atomic.rmw8'), (I64, 2, 'i64.atomic.rmw16'),
                                     (I64, 4, 'i64.atomic.rmw32'))):
        ARMW[f'{sfx}.{nm}'] = (fe(_base + k), t, w, nm)
    _base += 7
ACMPXCHG = {}
for k, (t, w, sfx) in enumerate(((I32, 4, 'i32.atomic.rmw'), (I64, 8, 'i64.atomic.rmw'), (I32, 1, 'i32.atomic.rmw8'),
                                 (I32, 2, 'i32.atomic.rmw16'), (I64, 1, 'i64.atomic.rmw8'), (I64, 2, 'i64.atomic.rmw16'),
                                 (I64, 4, 'i64.atomic.rmw32'))):
    ACMPXCHG[f'{sfx}.cmpxchg'] = (fe(0x48 + k), t, w)
ALOAD = {}
ASTORE = {}
for k, (nm, t, w) in enumerate((('i32.atomic.load', I32, 4), ('i64.atomic.load', I64, 8), ('i32.atomic.load8_u', I32, 1),
                                ('i32.atomic.load16_u', I32, 2), ('i64.atomic.load8_u', I64, 1),
                                ('i64.atomic.load16_u', I64, 2), ('i64.atomic.load32_u', I64, 4))):
    ALOAD[nm] = (fe(0x10 + k), t, w)
    ASTORE[nm.replace('load', 'store').replace('_u', '')] = (fe(0x17 + k), t, w)
