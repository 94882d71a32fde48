"""C06: exceptions - random exception-heavy programs and cross-module handler
chains against V8."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, diff, progcheck  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check  # noqa: E402
from vp.ops import rnd  # noqa: E402
from vp.wasm import (DROP, ELSE, END, EXNREF, EXTERNREF, F32, F64, FUNCREF, I32, I64, RETURN, UNREACHABLE, V128, br, call,  # noqa: E402
                     gget, gset, i32c, i64c, leb_u, lget, lset, ltee)

EW = dict(throw=9, try_=22, block=8, loop=5, if_=8, br=2, br_if=6, br_table=2, call=16, calli=8, tailcall=5, ret=1.5, mix=8,
          scalar=10, simd=3, store=1.5, load=1, memop=0.5, tableop=0.5, ref=1, unreachable=0.3, local=8)
KWS = [dict(w=EW), dict(w=EW, depth=6, body=(6, 30)), dict(w=EW, simd=False, refs=False, funcs=(6, 12)),
       dict(w={**EW, 'tailcall': 12}, funcs=(5, 10)), dict(w=EW, trap=0.05)]

CELLS = {I32: 1, F32: 1, I64: 2, F64: 2, V128: 4, EXTERNREF: 2, FUNCREF: 2}


def mix(t, h, v):
    to = {I32: b'\xad', I64: b'', F32: b'\xbc\xad', F64: b'\xbd', EXTERNREF: b'\xd1\xad', FUNCREF: b'\xd1\xad', EXNREF: b'\xd1\xad'}
    step = gget(h) + i64c(0x2545f4914f6cdd1d) + b'\x7e\x85' + i64c(17) + b'\x89' + gset(h)
    if t == V128:
        return lset(v) + lget(v) + W.fd(29) + b'\0' + step + lget(v) + W.fd(29) + b'\1' + step
    return to[t] + step


def payload(r):
    ps, cells = [], 0
    for _ in range(r.randint(0, 4)):
        t = r.choice(list(CELLS))
        if cells + CELLS[t] > 4:
            break
        cells += CELLS[t]
        ps.append(t)
    return ps


def chain(r, i):
    """Two modules sharing some tags.  f0 throws according to its argument;
    each f(k) calls f(k-1) inside a random stack of handlers."""
    A = W.Module()
    tagsA = []
    ps_all = [payload(r) for _ in range(r.randint(1, 3))]
    for k in range(r.randint(1, 4)):
        ps = r.choice(ps_all)
        t = A.tag(ps)
        A.export(f't{k}', 4, t)
        tagsA.append((t, ps))
    mods = [('a', A, tagsA)]
    B = W.Module()
    tagsB = []
    for k, (t, ps) in enumerate(tagsA):
        if r.random() < 0.7:
            tagsB.append((B.import_('A', f't{k}', 4, leb_u(B.type(ps, []))), ps))
    own = [r.choice(ps_all) for _ in range(r.randint(0, 2))]
    depthA, depthB = r.randint(2, 5), r.randint(1, 5)
    fB = B.import_func('A', f'f{depthA - 1}', [I32, I32], [I64])
    gB = B.import_('A', 'h', 3, bytes([W.VT[I64], 1]))
    for ps in own:
        tagsB.append((B.tag(ps), ps))
    hA = A.global_(I64, True, i64c(1))
    A.export('h', 3, hA)

    def throws(m, tags, selector_base):
        """code: (local0 selects)"""
        out = b''
        for k, (t, ps) in enumerate(tags):
            c = b''
            for x in ps:
                c += b'\xd0\x70' if x == FUNCREF else W.const(x, 0 if x == EXTERNREF else rnd(r, x))
            out += lget(0) + i32c(selector_base + k) + b'\x46\x04\x40' + c + b'\x08' + leb_u(t) + END
        return out

    def level(m, tags, callee, h, sig=True):
        """A function body: handlers around a call of callee(local0, local1)."""
        v = 2   # v128 scratch
        ex = 3  # exnref local
        n = r.randint(0, 3)
        body = b''
        cl = []
        for _ in range(n):
            k = r.choice([0, 0, 1, 1, 2, 3])
            if k < 2 and not tags:
                k += 2
            if k < 2:
                t, ps = r.choice(tags)
                cl.append((k, t, list(ps) + ([EXNREF] if k else [])))
            else:
                cl.append((k, None, [EXNREF] if k == 3 else []))
        body += b'\x02\x40'                      # $done
        for k, t, ts in reversed(cl):
            body += b'\x02' + W.leb_s(m.type([], ts))
        body += W.TRY0[0] + b'\x40' + W.TRY0[1] if not cl else b'\x1f\x40' + W.vec(bytes([k]) + (leb_u(t) if t is not None else b'') + leb_u(j) for j, (k, t, ts) in enumerate(cl))
        if r.random() < 0.3:
            body += i32c(r.getrandbits(30)) + mix(I32, h, v)
        if r.random() < 0.3:     # throw here instead, sometimes
            body += throws(m, r.sample(tags, min(len(tags), 2)), r.choice([40, 50, 60]))
        form = r.random()
        if form < 0.25:
            # a handler around the call only, inside
            body += W.TRY0[0] + b'\x40' + W.TRY0[1] + lget(0) + lget(1) + call(callee) + mix(I64, h, v) + END
        else:
            body += lget(0) + lget(1) + call(callee) + mix(I64, h, v)
        body += END + br(n)
        for j, (k, t, ts) in enumerate(cl):
            body += END
            body += i64c(100 + j) + mix(I64, h, v)
            ts = list(ts)
            while ts:
                x = ts.pop()
                if x == EXNREF:
                    body += lset(ex)
                else:
                    body += mix(x, h, v)
            if k in (1, 3):
                z = r.random()
                if z < 0.3:
                    body += lget(ex) + b'\x0a'
                elif z < 0.5:   # rethrow depending on the argument
                    body += lget(1) + b'\x04\x40' + lget(ex) + b'\x0a' + END
                elif z < 0.7:   # rethrow into a fresh handler, twice
                    for _ in range(2):
                        body += b'\x02\x69' + b'\x1f\x40' + W.vec([b'\3' + leb_u(0)]) + lget(ex) + b'\x0a' + END + UNREACHABLE + END + lset(ex)
                    body += i64c(7) + mix(I64, h, v)
            body += br(n - 1 - j)
        body += END
        body += gget(h)
        return [V128, EXNREF], body
    f = A.func([I32, I32], [I64], [], throws(A, tagsA, 0) + lget(0) + i32c(99) + b'\x46\x04\x40' + UNREACHABLE + END + lget(1) +
               i32c(9) + b'\x46\x04\x40' + lget(0) + i32c(20) + b'\x6a' + lget(1) + i32c(0) + b'\x6e' + DROP + DROP + END + gget(hA))
    A.export('f0', 0, f)
    for k in range(1, depthA):
        if r.random() < 0.25:    # leave by a tail call: no handler of this level remains
            ls, body = [], b''
            nt = r.choice([0, 1])
            body = (b'\x02\x40\x1f\x40' + W.vec([b'\2' + leb_u(0)]) + i64c(5) + mix(I64, hA, 2) + END + END) * nt
            if r.random() < 0.5:
                body += b'\x02\x40' + b'\x1f\x40' + W.vec([b'\2' + leb_u(0)]) + lget(0) + lget(1) + b'\x12' + leb_u(f) + END + END + UNREACHABLE
            else:
                body += lget(0) + lget(1) + b'\x12' + leb_u(f)
            ls = [V128]
        else:
            ls, body = level(A, tagsA, f, hA)
        f = A.func([I32, I32], [I64], ls, body)
        A.export(f'f{k}', 0, f)
    g = fB
    for k in range(depthB):
        ls, body = level(B, tagsB, g, gB)
        g = B.func([I32, I32], [I64], ls, body)
        B.export(f'g{k}', 0, g)
    steps = [diff.load('a', A.encode2()), diff.register('a', 'A'), diff.load('b', B.encode2())]
    for _ in range(20):
        sel = r.choice([0, 1, 2, 3, 10, 99, 40, 41, 50, 51, 60])
        arg = r.choice([0, 1, 9])
        if r.random() < 0.7:
            steps.append(diff.invoke('b', f'g{r.randrange(depthB)}', [(I32, sel), (I32, arg)], [I64]))
        else:
            steps.append(diff.invoke('a', f'f{r.randrange(depthA)}', [(I32, sel), (I32, arg)], [I64]))
        if r.random() < 0.5:
            steps.append(diff.global_('a', 'h', I64))
    return steps


def main(c):
    build.build_many(['asan', 'rel'])
    c.rule = 'distinct (module size, reference outcome)'
    B = 10000
    n = c.scale(4000, 60000)
    for lo in range(0, n, B):
        cases = progcheck.pgen('vp.progcheck', 'prog_case', f'C06p:{c.seed}:{lo}', min(B, n - lo), kws=KWS)
        progcheck.run(c, cases, [('rel', [], len(cases)), ('asan', [], c.scale(500, 4000))], label=f'prog{lo}')
        c.sample(dict(case=diff.show(cases[0])[:3]), limit=1)
    n = c.scale(4000, 60000)
    for lo in range(0, n, B):
        cases = progcheck.pgen('checks.c06', 'chain', f'C06c:{c.seed}:{lo}', min(B, n - lo))
        progcheck.run(c, cases, [('rel', [], len(cases)), ('asan', [], c.scale(800, 4000))], label=f'chain{lo}')


if __name__ == '__main__':
    run_check('C06', main)
