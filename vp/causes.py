"""Every cause of a trap on its own, with the name the specification gives it."""
import struct

from . import diff
from . import wasm as W
from .wasm import END, FUNCREF, I32, I64, leb_u, lget, vec

OVF, NAN, DIV0 = 'integer overflow', 'invalid conversion to integer', 'integer divide by zero'
MEM, TAB = 'out of bounds memory access', 'out of bounds table access'


def _fb(x, t):
    return struct.unpack('<I', struct.pack('<f', x))[0] if t == W.F32 else struct.unpack('<Q', struct.pack('<d', x))[0]


def _trunc():
    for o, ft, bits, sg in [(0xa8, W.F32, 32, 1), (0xa9, W.F32, 32, 0), (0xaa, W.F64, 32, 1), (0xab, W.F64, 32, 0),
                            (0xae, W.F32, 64, 1), (0xaf, W.F32, 64, 0), (0xb0, W.F64, 64, 1), (0xb1, W.F64, 64, 0)]:
        f32 = ft == W.F32
        rt = I32 if bits == 32 else I64
        vs = [(x, NAN) for x in ((0x7fc00000, 0xffc00000, 0x7f800001, 0xffffffff, 0x7fa00000) if f32 else
                                 (0x7ff8 << 48, 0xfff8 << 48, (0x7ff << 52) + 1, (1 << 64) - 1, 0x7ff4 << 48))]
        vs += [(_fb(x, ft), OVF) for x in (float('inf'), -float('inf'), 3e38, -3e38, 2.0 ** (bits - sg), 2.0 ** bits, -2.0 ** bits)]
        if not sg:
            vs += [(_fb(-1.0, ft), OVF), (_fb(-2.0 ** 31, ft), OVF)]
        else:
            vs.append((_fb(-2.0 ** (bits - 1) * 1.001, ft), OVF))
        for v, w in vs:
            yield [ft], [rt], lget(0) + bytes([o]), [v], w


def numeric():
    """[(params, results, body, args, cause)]"""
    out = list(_trunc())
    for t, c, ops in ((I32, 1 << 31, (0x6d, 0x6e, 0x6f, 0x70)), (I64, 1 << 63, (0x7f, 0x80, 0x81, 0x82))):
        for o in ops:
            for a in (0, 1, c, 2 * c - 1, 7):
                out.append(([t, t], [t], lget(0) + lget(1) + bytes([o]), [a, 0], DIV0))
        out.append(([t, t], [t], lget(0) + lget(1) + bytes([ops[0]]), [c, 2 * c - 1], OVF))
    return out


def other(m):
    """The same for memories, tables, calls; completes m."""
    v = m.type([], [])
    w = m.type([I32], [])
    m.memory(1, 2)
    m.memory(1, 1, shared=True)
    m.table(FUNCREF, 4, 8)
    m.table(W.EXTERNREF, 4, 8)
    tag = m.tag([])
    tag1 = m.tag([I64, I32])
    f0 = m.func([], [], [], b'')
    f1 = m.func([I32], [], [], b'')
    # table 0: f0, null, f1, null
    m.elems.append(b'\0' + W.i32c(0) + END + vec([leb_u(f0)]))
    m.elems.append(b'\0' + W.i32c(2) + END + vec([leb_u(f1)]))
    m.elems.append(b'\1\0' + vec([leb_u(f0), leb_u(f1)]))
    m.datas += [b'\1\4abcd', b'\0' + W.i32c(0) + END + b'\1x']
    m.datacount = 2
    out = []

    def a(body, args, cause, ps=None):
        out.append((ps or [I32] * len(args), [], body, args, cause))
    for op in (b'\x11', b'\x13'):
        for x in (4, 5, 8, 0x7fffffff, 0x80000000, 0xffffffff):
            a(lget(0) + op + leb_u(v) + b'\0', [x], 'undefined element')
        for x in (1, 3):
            a(lget(0) + op + leb_u(v) + b'\0', [x], 'uninitialized element')
            a(W.i32c(5) + lget(0) + op + leb_u(w) + b'\0', [x], 'uninitialized element')
        a(lget(0) + op + leb_u(v) + b'\0', [2], 'indirect call type mismatch')
        a(W.i32c(5) + lget(0) + op + leb_u(w) + b'\0', [0], 'indirect call type mismatch')
    null = {0: b'\xd0\x70', 1: b'\xd0\x6f'}
    for t in (0, 1):
        for x in (4, 0x7fffffff, 0x80000000, 0xffffffff):
            a(lget(0) + b'\x25' + leb_u(t) + b'\x1a', [x], TAB)
            a(lget(0) + null[t] + b'\x26' + leb_u(t), [x], TAB)
        for d, n in ((0, 5), (4, 1), (5, 0), (0xffffffff, 1), (0xffffffff, 0xffffffff), (3, 0xffffffff)):
            a(lget(0) + null[t] + lget(1) + b'\xfc\x11' + leb_u(t), [d, n], TAB)
            a(lget(0) + W.i32c(0) + lget(1) + b'\xfc\x0e' + leb_u(t) * 2, [d, n], TAB)
            a(W.i32c(0) + lget(0) + lget(1) + b'\xfc\x0e' + leb_u(t) * 2, [d, n], TAB)
    for s, n in ((0, 3), (2, 1), (3, 0), (0xffffffff, 1), (1, 0xffffffff)):
        a(W.i32c(0) + lget(0) + lget(1) + b'\xfc\x0c\2\0', [s, n], TAB)
    for s, n in ((3, 2), (5, 0), (0xffffffff, 1)):
        a(lget(0) + W.i32c(0) + lget(1) + b'\xfc\x0c\2\0', [s, n], TAB)
    a(W.i32c(0) + lget(0) + lget(1) + b'\xfc\x0c\0\0', [0, 1], TAB)         # an active segment has been dropped
    for s, n in ((0, 5), (4, 1), (5, 0), (0xffffffff, 2), (1, 0xffffffff)):
        a(W.i32c(0) + lget(0) + lget(1) + b'\xfc\x08\0\0', [s, n], MEM)
    a(W.i32c(0) + lget(0) + lget(1) + b'\xfc\x08\1\0', [0, 1], MEM)
    for d, n in ((65535, 2), (65536, 1), (65537, 0), (0xffffffff, 1), (0xffffffff, 0xffffffff), (1, 65536)):
        for mi in (0, 1):
            a(lget(0) + W.i32c(7) + lget(1) + b'\xfc\x0b' + leb_u(mi), [d, n], MEM)
            a(lget(0) + W.i32c(0) + lget(1) + b'\xfc\x0a' + leb_u(mi) * 2, [d, n], MEM)
            a(W.i32c(0) + lget(0) + lget(1) + b'\xfc\x0a' + leb_u(mi) * 2, [d, n], MEM)
    for x in (65536, 65533, 0xffffffff, 0x80000000):
        for mi in (0, 1):
            a(lget(0) + b'\x28' + W.memarg(2, 0, mi) + b'\x1a', [x], MEM)
            a(lget(0) + W.i32c(1) + b'\x36' + W.memarg(2, 0, mi), [x], MEM)
        a(lget(0) + b'\xfd\x00' + W.memarg(4, 0) + b'\x1a', [x], MEM)
        a(lget(0) + b'\x28' + W.memarg(2, 0xffffffff) + b'\x1a', [x], MEM)
    for mi in (0, 1):
        for x in (1, 2, 3, 65529):
            a(lget(0) + b'\xfe\x10' + W.memarg(2, 0, mi) + b'\x1a', [x], 'unaligned atomic')
            a(lget(0) + W.i32c(0) + b'\xfe\x1e' + W.memarg(2, 0, mi) + b'\x1a', [x], 'unaligned atomic')
        for x in (65536, 0xfffffffc, 0x80000000):
            a(lget(0) + b'\xfe\x10' + W.memarg(2, 0, mi) + b'\x1a', [x], MEM)
            a(lget(0) + W.i32c(0) + b'\xfe\x1e' + W.memarg(2, 0, mi) + b'\x1a', [x], MEM)
    a(lget(0) + W.i32c(0) + W.i64c(0) + b'\xfe\x01' + W.memarg(2, 0, 0) + b'\x1a', [8], 'expected shared memory')
    a(lget(0) + W.i32c(0) + W.i64c(0) + b'\xfe\x01' + W.memarg(2, 0, 1) + b'\x1a', [65536], MEM)
    a(lget(0) + W.i32c(0) + W.i64c(0) + b'\xfe\x01' + W.memarg(2, 0, 1) + b'\x1a', [2], 'unaligned atomic')
    a(b'\0', [], 'unreachable executed')
    a(b'\x08' + leb_u(tag), [], 'uncaught exception')
    a(lget(0) + W.i32c(1) + b'\x08' + leb_u(tag1), [9], 'uncaught exception', [I64])
    rec = m.func([], [], [], b'')
    m.set_body(rec, [], W.call(rec))
    a(W.call(rec), [], 'stack overflow')
    return out


def case(m, items):
    steps = []
    for k, (ps, rs, body, args, cause) in enumerate(items):
        m.efunc(f'z{k}', ps, rs, [], body)
        steps.append(diff.invoke('m', f'z{k}', list(zip(ps, args)), rs))
    return [diff.load('m', m.encode())] + steps, ['ok'] + ['trap:' + x[4] for x in items]


def check(c, exe, cfgs, full):
    m = W.Module()
    items = (other(m) if full else []) + numeric()
    for k in range(0, len(items), 60):
        if k:
            m = W.Module()
            if full:
                other(m)
        steps, want = case(m, items[k:k + 60])
        for cfg in cfgs:
            got = diff.run_toywasm(exe(cfg), [steps], opts=['--max-frames', '300'])[0]
            for s, g, w, it in zip(steps[1:], got[1:], want[1:], items[k:]):
                c.evaluations += 1
                c.distinct(('cause', w, it[2]))
                if g != w:
                    c.violation(f'cause:{cfg}:{w[5:].replace(" ", "-")}:{it[2].hex()}', f'{it[2].hex()} with {it[3]}: {g}, want {w}',
                                dict(module=steps[0]['bytes'].hex(), call=s['func'], args=it[3]))
    c.coverage['trap_causes'] = len(items)
