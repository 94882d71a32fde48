"""Atomic instructions, and random single-thread sequences of them."""
from . import diff
from . import wasm as W
from .wasm import I32, I64, lget

# name -> (opcode, type, width, params after the address, has result)
OPS = {}
_F = [('i32', I32, 4, ''), ('i64', I64, 8, ''), ('i32', I32, 1, '8'), ('i32', I32, 2, '16'), ('i64', I64, 1, '8'), ('i64', I64, 2, '16'), ('i64', I64, 4, '32')]
for _k, (_p, _t, _w, _s) in enumerate(_F):
    OPS[f'{_p}.atomic.load{_s}'] = (W.fe(0x10 + _k), _t, _w, 0, True)
    OPS[f'{_p}.atomic.store{_s}'] = (W.fe(0x17 + _k), _t, _w, 1, False)
    for _j, _o in enumerate('add sub and or xor xchg cmpxchg'.split()):
        OPS[f'{_p}.atomic.rmw{_s}.{_o}'] = (W.fe(0x1e + 7 * _j + _k), _t, _w, 2 if _o == 'cmpxchg' else 1, True)


def val(r, w):
    k = r.random()
    if k < 0.3:
        return r.choice([0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, (1 << 63), (1 << 64) - 1])
    if k < 0.6:
        return r.getrandbits(8 * w)
    return r.getrandbits(64)


def narrow_cmpxchg(op, t, w, ma):
    """The specification compares the zero-extended value with the whole of
    the expected operand (as its test suite checks); V8 and wabt drop the
    upper bits.  For them: a plain load when it has any."""
    ld = next(v[0] for n, v in OPS.items() if '.load' in n and v[1] == t and v[2] == w)
    if t == I32:
        cond = lget(1) + W.i32c(~((1 << 8 * w) - 1)) + b'\x71'
    else:
        cond = lget(1) + W.i64c(~((1 << 8 * w) - 1)) + b'\x83\x50\x45'
    return cond + b'\x04' + bytes([W.VT[t]]) + lget(0) + ld + ma + b'\x05' + lget(0) + lget(1) + lget(2) + op + ma + b'\x0b'


def case(r, i):
    shared = r.random() < 0.6
    mems = r.randint(1, 2)
    m = W.Module()
    for k in range(mems):
        m.memory(1, 2, shared=shared or k == 1 and r.random() < 0.5)
    fs, patches = [], []
    names = r.sample(list(OPS), 24)
    for nm in names:
        op, t, w, n, res = OPS[nm]
        off = r.choice([0, 0, w, 8, 3 * w, 1 if w > 1 else 0, 65528, 65536, 0xfffffff8])
        mem = r.randrange(mems)
        b = b''.join(lget(k) for k in range(n + 1)) + op + W.memarg(w.bit_length() - 1, off, mem)
        # the same operation on constants or through a fence now and then
        if r.random() < 0.1:
            b = W.fe(3) + b'\0' + b
        f = m.efunc(nm, [I32] + [t] * n, [t] if res else [], [], b)
        if n == 2 and w < (4 if t == I32 else 8):
            patches.append((f, narrow_cmpxchg(op, t, w, W.memarg(w.bit_length() - 1, off, mem))))
        fs.append((nm, t, w, n, res, off))
    for k in range(mems):
        m.efunc(f'd{k}', [I32], [I64, I64], [], lget(0) + b'\x29' + W.memarg(0, 0, k) + lget(0) + b'\x29' + W.memarg(0, 8, k))
        m.efunc(f's{k}', [I32, I64], [], [], lget(0) + lget(1) + b'\x37' + W.memarg(0, 0, k))
        m.efunc(f'g{k}', [I32], [I32], [], lget(0) + b'\x40' + W.leb_u(k))
        m.efunc(f'n{k}', [I32, I32], [I32], [], lget(0) + lget(1) + W.fe(0) + W.memarg(2, r.choice([0, 4, 2]), k))
    m.datas.append(b'\0' + W.i32c(0) + W.END + W.vec([bytes([r.getrandbits(8)]) for _ in range(64)]))
    b = m.encode()
    for f, body in patches:
        m.set_body(f, [], body)
    st = [diff.load('m', b, m.encode())]
    last = {}
    for _ in range(40):
        nm, t, w, n, res, off = r.choice(fs)
        a = r.choice([0, 1, 2, 3, 4, 6, 8, 12, 16, 24, 65528, 65532, 65534, 65535, 65536, 131064, 131072, 0xfffffff8, 0xffffffff])
        if r.random() < 0.6:
            a = r.randrange(0, 32, w)
        if (a + off) % w and a + off + w > 65536:
            # misaligned and out of bounds: either trap is right
            a = (a - (a + off) % w) & 0xffffffff
            if (a + off) % w:
                continue
        args = [(I32, a)] + [(t, val(r, w) & (0xffffffff if t == I32 else (1 << 64) - 1)) for _ in range(n)]
        if n == 2 and r.random() < 0.5:
            # a value which is likely there: write it first
            e = r.getrandbits(8 * w)
            if a < 32 and off < 32:
                st.append(diff.invoke('m', 's0', [(I32, a + off), (I64, e)], []))
            args[1] = (t, e)
        st.append(diff.invoke('m', nm, args, [t] if res else []))
        k = r.random()
        if k < 0.4:
            st.append(diff.invoke('m', f'd{r.randrange(mems)}', [(I32, r.choice([0, 8, 16, 24, 65520]))], [I64, I64]))
        elif k < 0.43:
            st.append(diff.invoke('m', f'g{r.randrange(mems)}', [(I32, 1)], [I32]))
        elif k < 0.46:
            st.append(diff.invoke('m', f'n{r.randrange(mems)}', [(I32, r.choice([0, 4, 8, 5])), (I32, 3)], [I32]))
    for k in range(mems):
        st += [diff.invoke('m', f'd{k}', [(I32, a)], [I64, I64]) for a in (0, 16, 32, 65520)]
    return st
