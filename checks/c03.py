"""C03: SIMD instructions, every opcode and immediate, bit-exact against V8."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, diff, ops  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check  # noqa: E402
from vp.wasm import I32, I64, V128  # noqa: E402


def gen_eval(r, nm):
    """(description, eval tuple for OpModule.add_func)"""
    if nm in W.SIMD:
        code, p, rt, fl, lanes = W.SIMD[nm]
        v = tuple(ops.rnd(r, t) for t in p)
        if len(p) == 2 and p[0] == p[1] and r.random() < 0.08:
            v = (v[0], v[0])
        if lanes:
            lane = r.randrange(lanes)
            code = code + bytes([lane])
            return (nm, lane, v), (code, p, v, rt, ops.slot_kind(rt[0], fl, p, v))
        return (nm, v), (code, p, v, rt, ops.slot_kind(rt[0], fl, p, v))
    if nm == 'i8x16.shuffle':
        imm = bytes(r.randrange(32) for _ in range(16))
        v = (ops.rnd(r, V128), ops.rnd(r, V128))
        return (nm, imm, v), (W.SHUFFLE + imm, (V128, V128), v, (V128,), ['x', 'x'])
    if nm == 'v128.const':
        v = ops.rnd(r, V128)
        return (nm, v), (W.v128c(v), (), (), (V128,), ['x', 'x'])
    a = r.choice([r.randrange(0, 4096), r.randrange(0, 65536 - 400)])
    off = r.choice([0, 1, r.randrange(0, 300)])
    if nm in W.VLOADS:
        code, t, al, w = W.VLOADS[nm]
        return (nm, a, off), (code + W.memarg(r.randint(0, al), off), (I32,), (a,), (V128,), ['x', 'x'])
    if nm in W.VLANELOADS:
        code, w = W.VLANELOADS[nm]
        lane = r.randrange(16 // w)
        v = ops.rnd(r, V128)
        return (nm, a, off, lane, v), (code + W.memarg(r.randint(0, w.bit_length() - 1), off) + bytes([lane]),
                                       (I32, V128), (a, v), (V128,), ['x', 'x'])
    # stores: store over a known background, read back the neighbourhood
    v = ops.rnd(r, V128)
    bg = r.getrandbits(128)
    ea = r.randrange(64, 60000)
    pre = b''
    for k in (-16, 0, 16):
        pre += W.i32c(ea + k) + W.v128c(bg) + W.VSTORES['v128.store'][0] + W.memarg(0, 0)
    if nm == 'v128.store':
        code = W.VSTORES[nm][0] + W.memarg(r.randint(0, 4), off)
        desc = (nm, v)
    else:
        oc, w = W.VLANESTORES[nm]
        lane = r.randrange(16 // w)
        code = oc + W.memarg(r.randint(0, w.bit_length() - 1), off) + bytes([lane])
        desc = (nm, lane, v)
    # result: both neighbours and the stored area xored after rotation by
    # distinct byte swizzles, so that any misplaced byte shows
    k = r.choice([-16, 0, 0, 16, -5, 3])
    post = W.i32c(ea + k) + W.VLOADS['v128.load'][0] + W.memarg(0, 0)
    return desc, ('store', pre, ea, off, v, code, post)


def make(c, per_op, per_case=120):
    r = c.sub_rng('gen')
    names = list(W.SIMD) + ['i8x16.shuffle', 'v128.const'] + list(W.VLOADS) + list(W.VSTORES) + list(W.VLANELOADS) + list(W.VLANESTORES)
    evs = []
    for nm in names:
        n = per_op
        if nm in W.SIMD and W.SIMD[nm][4]:
            n = per_op * 2
        for _ in range(n):
            e = gen_eval(r, nm)
            evs.append(e)
            c.distinct(e[0])
    r.shuffle(evs)
    cases, metas = [], []
    for i in range(0, len(evs), per_case):
        om = ops.OpModule(r)
        data = r.randbytes(65536 if i % (per_case * 8) == 0 else 5000)
        om.m.datas.append(b'\0' + W.i32c(0) + W.END + W.leb_u(len(data)) + data)
        steps, meta = [], []
        chunk = evs[i:i + per_case]
        for j in range(0, len(chunk), 10):
            L, decl = om.locals_()
            body, mk, what = b'', [], []
            for d, e in chunk[j:j + 10]:
                if e[0] == 'store':
                    _, pre, ea, off, v, code, post = e
                    body += pre + om.operand(I32, ea - off, L) + om.operand(V128, v, L) + code + post
                    kinds = ['x', 'x']
                    rt = V128
                else:
                    code, p, v, rts, kinds = e
                    for t, x in zip(p, v):
                        body += om.operand(t, x, L)
                    body += code
                    rt = rts[0]
                rc, n = om.result_code(rt, L, None)
                body += rc
                mk += kinds
                what += [d] * n
            fn = f'f{om.n}'
            om.n += 1
            om.m.efunc(fn, [], [I64] * len(mk), decl, body)
            steps.append(diff.invoke('m', fn, [], [I64] * len(mk)))
            meta.append((mk, what))
        cases.append([diff.load('m', om.m.encode())] + steps)
        metas.append([None] + meta)
    return cases, metas, names


def judge(c, label, cases, metas, tw, ref):
    seen = {}
    for ci, (case, meta, a, b) in enumerate(zip(cases, metas, tw, ref)):
        if a is None:
            continue
        if isinstance(a[0], dict):
            info = a[0]['crash']
            c.violation(f'{label}:crash:{ci}', f'{info["kind"]}: {info["summary"]}', dict(case=diff.show(case), info=info))
            continue
        for k, (mt, x, y) in enumerate(zip(meta, a, b)):
            if mt is None:
                if not diff.same(x, y):
                    c.violation(f'{label}:load:{ci}', f'{x} vs {y}', dict(case=diff.show(case)))
                continue
            mk, what = mt
            xv, yv = ops.values(x), ops.values(y)
            if xv is None or yv is None:
                if not diff.same(x, y):
                    c.violation(f'{label}:{ci}:{k}', f'{x} vs {y}', dict(case=diff.show(case), step=k))
                continue
            for q, gx, gy, w in zip(mk, xv, yv, what):
                c.evaluations += 1
                if not ops.slot_ok(q, gx, gy):
                    seen.setdefault(w[0], []).append((w, hex(gx), hex(gy), ci, k))
    for nm, l in seen.items():
        w, x, y, ci, k = l[0]
        c.violation(f'{label}:{nm}', f'{w}: toywasm {x} reference {y} ({len(l)} differing)',
                    dict(first=l[:5], case=diff.show([cases[ci][0], cases[ci][k]])))


def main(c):
    c.rule = ('one evaluation of one vector instruction (operands, immediates, address) through a randomly chosen operand '
              'route; distinct = different (instruction, immediates, operands)')
    pf = build.build_many(['asan', 'rel'])
    cases, metas, names = make(c, c.scale(240, 4000))
    c.log(f'{len(cases)} modules')
    ref = diff.run_v8(cases)
    c.log('reference done')
    for cfg in ('rel', 'asan'):
        tw = diff.run_toywasm(pf[cfg] + '/bin/toywasm', cases)
        judge(c, cfg, cases, metas, tw, ref)
        c.log(cfg, 'done')
    c.coverage['opcodes'] = len(names)
    c.sample(dict(eval=repr(metas[0][1][1][0]), results=ref[0][1][:120]))
    c.assumptions = ['V8 is right where it and toywasm agree']


if __name__ == '__main__':
    run_check('C03', main)
