"""C02: control flow, calls, locals - random programs against V8."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, diff, progcheck  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check  # noqa: E402
from vp.ops import rnd  # noqa: E402
from vp.wasm import (ELSE, END, F32, F64, FUNCREF, I32, I64, RETURN, V128, br, br_if, call, gget, gset, i32c, i64c,  # noqa: E402
                     leb_u, lget, lset, ltee)

CF = dict(block=16, loop=8, if_=12, br=4, br_if=14, br_table=7, ret=2, call=8, calli=6, tailcall=3, scalar=12, simd=3,
          push=16, local=18, store=2, load=2, memop=0.5, tableop=0.5, ref=1, throw=0.3, try_=0.6)
KWS = [
    dict(w=CF),
    dict(w=CF, depth=7, body=(10, 40)),
    dict(w=CF, locals=(10, 30), params=9, results=5),
    dict(w=CF, simd=False, refs=False, funcs=(6, 14), body=(3, 12)),
    dict(w={**CF, 'tailcall': 8, 'calli': 12}, funcs=(5, 12)),
    dict(w=CF, vheavy=True, simd=True, body=(20, 60), depth=5),
    dict(),
]
for k in KWS:
    k.pop('vheavy', None)


def br_tables(r):
    """Wide branch tables to blocks at many depths."""
    m = W.Module()
    depth = r.randint(3, 40)
    n = r.choice([0, 1, 2, 127, 128, 129, r.randint(2, 3000)])
    tgt = [r.randrange(depth) for _ in range(n)]
    d = r.randrange(depth)
    body = b'\x02\x40' * depth + lget(0) + b'\x0e' + W.vec(leb_u(x) for x in tgt) + leb_u(d)
    for k in range(depth):
        body += END + i32c(1000 + k) + RETURN if k < depth - 1 else END + i32c(1000 + k)
    m.efunc('f', [I32], [I32], [], body)
    st = [diff.load('m', m.encode())]
    for x in [0, 1, n - 1, n, n + 1, 0xffffffff, 0x80000000] + [r.randrange(n + 2) for _ in range(20)]:
        st.append(diff.invoke('m', 'f', [(I32, x & 0xffffffff)], [I32]))
    return st


def deep_nest(r):
    """Deep nesting with values carried out of every level."""
    m = W.Module()
    d = r.choice([50, 200, 1000])
    kinds = [r.choice(['block', 'loop', 'if', 'ifelse']) for _ in range(d)]
    body = b''
    for k in kinds:
        if k == 'block':
            body += b'\x02\x7f'
        elif k == 'loop':
            body += b'\x03\x7f'
        else:
            body += lget(0) + b'\x04\x7f'
    body += lget(1)
    cut = r.randrange(d)
    body += ltee(1) + lget(1) + i32c(r.choice([1, 3, 7])) + b'\x71\x45' + b'\x04\x7f' + lget(1) + br(cut + 1 if kinds[d - 1 - cut] != 'loop' else d) + \
        ELSE + lget(1) + END + b'\x6a' if kinds[d - 1 - cut] != 'loop' else b''
    for k in reversed(kinds):
        body += i32c(r.randrange(100)) + b'\x6a'
        if k in ('if', 'ifelse'):
            body += ELSE + i32c(r.randrange(1000))
        body += END
    m.efunc('f', [I32, I32], [I32], [], body)
    st = [diff.load('m', m.encode())]
    for _ in range(8):
        st.append(diff.invoke('m', 'f', [(I32, r.choice([0, 1])), (I32, r.randrange(64))], [I32]))
    return st


TS = [I32, I64, F32, F64, V128, FUNCREF]


def locals_case(r):
    """Functions with many locals of mixed types: every local holds its own
    value, and is zero before it is set."""
    m = W.Module()
    np = r.choice([0, 1, 3, 10, 40, 200])
    nl = r.choice([0, 1, 5, 30, 120, 127, 128, 129, 300])
    ps = [r.choice([I32, I64, F32, F64]) for _ in range(np)]
    decl = []
    while len(decl) < nl:
        decl += [r.choice(TS)] * r.choice([1, 1, 2, 5, 64])
    ts = ps + decl
    h = m.global_(I64, True, i64c(0))
    v = len(ts)   # scratch v128
    decl = decl + [V128]

    def mix(t):
        to = {I32: b'\xad', I64: b'', F32: b'\xbc\xad', F64: b'\xbd', FUNCREF: b'\xd1\xad'}
        step = gget(h) + i64c(0x2545f4914f6cdd1d) + b'\x7e\x85' + i64c(17) + b'\x89' + gset(h)
        if t == V128:
            return lset(v) + lget(v) + W.fd(29) + b'\0' + step + lget(v) + W.fd(29) + b'\1' + step
        return to[t] + step
    body = b''
    order = list(range(len(ts)))
    for rep in range(2):
        r.shuffle(order)
        for i in order:
            body += lget(i) + mix(ts[i])
        r.shuffle(order)
        for i in order:
            if ts[i] == FUNCREF:
                body += b'\xd2\x00'
            else:
                body += W.const(ts[i], rnd(r, ts[i]))
            body += lset(i) if r.random() < 0.5 else ltee(i) + mix(ts[i])
    for i in order:
        body += lget(i) + mix(ts[i])
    f = m.func(ps, [I64], decl, body + gget(h))
    m.export('f', 0, f)
    m.elems.append(b'\3\0' + W.vec([leb_u(f)]))
    args = []
    for t in ps:
        x = rnd(r, t)
        if t == F32 and (x & 0x7f800000) == 0x7f800000 or t == F64 and (x >> 52) & 0x7ff == 0x7ff:
            x = 0x40490fdb
        args.append((t, x))
    return [diff.load('m', m.encode()), diff.invoke('m', 'f', args, [I64]), diff.invoke('m', 'f', args, [I64])]


def xmod(r):
    """Two modules of the same layout - statements start at the same byte
    offsets, but branch targets differ - calling each other through a shared
    table while branches are taken."""
    nslot = r.randint(3, 9)
    L = r.choice([37, 41, 46, 50])
    t = W.Module()
    t.table(FUNCREF, 4, 4)
    t.export('t', 1, 0)
    g = t.global_(I32, True, i32c(1))
    t.export('g', 3, g)
    t.efunc('get', [], [I32], [], gget(g))
    mods = []
    pads = [r.choice([0, 0, 1, 2, 3]) for _ in range(nslot)]
    for mi in range(2):
        m = W.Module()
        m.import_('t', 't', 1, b'\x70\x00\x04')
        m.import_('t', 'g', 3, b'\x7f\x01')
        ty = m.type([I32, I32], [])

        def mix():
            return gget(0) + i32c(33) + b'\x6c' + i32c(r.randint(0, 63)) + b'\x6a' + gset(0)

        def bit(k):
            return lget(1) + i32c(k) + b'\x76' + i32c(1) + b'\x71'
        fs = []
        for fi in range(2):
            body = b''
            for k in range(nslot):
                pad = pads[k]
                kind = r.choice(['block', 'if', 'ifelse', 'brt', 'call', 'call', 'nest'])
                if kind == 'block':
                    st = b'\x02\x40' + bit(k) + br_if(0) + b'\x01' * r.randint(0, 5) + mix() + END
                elif kind == 'if':
                    st = bit(k) + b'\x04\x40' + mix() + b'\x01' * r.randint(0, 5) + END
                elif kind == 'ifelse':
                    st = bit(k) + b'\x04\x40' + b'\x01' * r.randint(0, 4) + gget(0) + i32c(5) + b'\x6a' + gset(0) + ELSE + gget(0) + i32c(3) + b'\x6c' + gset(0) + END
                elif kind == 'brt':
                    st = b'\x02\x40\x02\x40' + bit(k) + b'\x0e\x01\x00\x01' + END + mix() + END
                elif kind == 'nest':
                    st = b'\x02\x40\x02\x40' + bit(k) + br_if(r.choice([0, 1])) + b'\x01' * r.randint(0, 4) + END + gget(0) + i32c(9) + b'\x73' + gset(0) + END
                else:
                    st = lget(0) + b'\x04\x40' + lget(0) + i32c(1) + b'\x6b' + lget(1) + i32c(r.randint(1, 3)) + b'\x77' + \
                        i32c(r.choice([2 * (1 - mi), 2 * (1 - mi) + 1, r.randrange(4)])) + b'\x11' + leb_u(ty) + b'\0' + END
                assert len(st) <= L - 4, (kind, len(st))
                body += b'\x01' * pad + st + b'\x01' * (L - pad - len(st))
            fs.append(m.func([I32, I32], [], [], body))
        m.elems.append(b'\0' + i32c(2 * mi) + END + W.vec(leb_u(f) for f in fs))
        m.export('f0', 0, fs[0])
        m.export('f1', 0, fs[1])
        mods.append(m)
    st = [diff.load('t', t.encode()), diff.register('t', 't'), diff.load('a', mods[0].encode()), diff.load('b', mods[1].encode())]
    for _ in range(10):
        st.append(diff.invoke(r.choice('ab'), r.choice(['f0', 'f1']), [(I32, r.randint(0, 4)), (I32, r.getrandbits(32))], []))
        st.append(diff.invoke('t', 'get', [], [I32]))
    return st


def case(r, i):
    k = i % 8
    if k == 0:
        return br_tables(r)
    if k == 1:
        return locals_case(r)
    if k == 2:
        return deep_nest(r)
    if k == 3:
        return xmod(r)
    return progcheck.prog_case(r, i, kws=KWS)


def tail_chain(r, n):
    """A long chain of tail calls, direct and indirect, over functions of
    different shapes."""
    m = W.Module()
    shapes = [[I32, I64], [I32, I64, F64], [V128, I32, I64], [I32, I64, I32, I32, I32, I32], [F32, I32, I64, V128, V128]]
    k = len(shapes)
    fs = [m.func(s, [I64]) for s in shapes]
    tab = m.table(FUNCREF, k, k)
    m.elems.append(b'\0' + i32c(0) + END + W.vec(leb_u(f) for f in fs))
    for i, s in enumerate(shapes):
        ci, hi = s.index(I32), s.index(I64)
        body = lget(ci) + b'\x45\x04\x40' + lget(hi) + RETURN + END
        nl = [r.choice([I32, I64, V128, F64]) for _ in range(r.randint(0, 12))]
        tgt = r.randrange(k)
        for alt in range(2):
            if alt == 0:
                body += lget(ci) + i32c(r.choice([1, 2, 4])) + b'\x71\x04\x40'
            t2 = (tgt + alt + (i if alt else 0)) % k
            for x in shapes[t2]:
                if x == I32:
                    body += lget(ci) + i32c(1) + b'\x6b'
                elif x == I64:
                    body += lget(hi) + i64c(r.getrandbits(63) | 1) + b"\x7e" + lget(ci) + b'\xad\x7c' + i64c(i + 1) + b'\x85'
                else:
                    body += W.const(x, rnd(r, x))
            # the counter may appear several times: keep the first one the live one
            if r.random() < 0.5:
                body += b'\x12' + leb_u(fs[t2])
            else:
                body += i32c(t2) + b'\x13' + leb_u(m.type(shapes[t2], [I64])) + leb_u(tab)
            if alt == 0:
                body += END
        m.set_body(fs[i], nl, body)
    m.efunc('f', [I32], [I64], [], lget(0) + i64c(1) + call(fs[0]))
    # and from inside a deeper frame, repeatedly
    m.efunc('g', [I32], [I64], [I32, I64],
            b'\x03\x40' + lget(2) + lget(0) + i64c(7) + call(fs[0]) + b'\x85' + lset(2) + lget(1) + i32c(1) + b'\x6a' + ltee(1) +
            i32c(5) + b'\x49' + br_if(0) + END + lget(2))
    return [diff.load('m', m.encode()), diff.invoke('m', 'f', [(I32, n)], [I64]), diff.invoke('m', 'g', [(I32, n // 5)], [I64])]


def main(c):
    build.build_many(['asan', 'rel'])
    n = c.scale(6000, 100000)
    na = c.scale(900, 12000)
    c.rule = 'distinct (module size, outcome) of calls which returned or trapped'
    B = 20000
    for lo in range(0, n, B):
        cases = progcheck.pgen('checks.c02', 'case', f'C02:{c.seed}:{lo}', min(B, n - lo))
        progcheck.run(c, cases, [('rel', [], len(cases)), ('asan', [], na * len(cases) // n)], label=f'prog{lo}')
        c.sample(dict(case=diff.show(cases[3])[:3]), limit=2)
    # long chains of tail calls must complete under a small frame limit
    r = c.sub_rng('tail')
    cases = [tail_chain(r, c.scale(200000, 3000000)) for _ in range(8)]
    progcheck.run(c, cases, [('rel', ['--max-frames', '16', '--max-stack-cells', '2000'], 8)], label='tail')
    cases = [tail_chain(r, 20000) for _ in range(8)]
    progcheck.run(c, cases, [('asan', ['--max-frames', '16', '--max-stack-cells', '2000'], 8)], label='tail20k')


if __name__ == '__main__':
    run_check('C02', main)
