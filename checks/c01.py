"""C01: scalar instructions, every opcode, bit-exact against V8."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, causes, diff, ops  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check  # noqa: E402
from vp.wasm import F32, F64, I64  # noqa: E402

TRAPPING = [n for n, d in W.SCALAR.items() if 't' in d[3]]
PLAIN = [n for n, d in W.SCALAR.items() if 't' not in d[3]]


def pairs(r, ts, n):
    """Edge combinations first (a random sample of the product), then random."""
    seen = set()
    out = []
    for _ in range(n):
        v = tuple(r.choice(ops.EDGE[t]) if r.random() < 0.7 else ops.rnd(r, t) for t in ts)
        if len(ts) == 2 and r.random() < 0.06:
            v = (v[0], v[0])
        if v not in seen:
            seen.add(v)
            out.append(v)
    return out


def make(c, per_op, per_case=96):
    """Returns cases and per-step metadata."""
    r = c.sub_rng('gen')
    evals = []
    for nm in PLAIN:
        code, p, rt, fl = W.SCALAR[nm]
        vs = [(x,) for x in ops.EDGE[p[0]]] if len(p) == 1 else []
        vs += pairs(r, p, per_op)
        for v in vs:
            evals.append((nm, v))
            c.distinct((nm, v))
    r.shuffle(evals)
    cases, metas = [], []
    for i in range(0, len(evals), per_case):
        om = ops.OpModule(r)
        steps, meta = [], []
        chunk = evals[i:i + per_case]
        for j in range(0, len(chunk), 12):
            ev = []
            for nm, v in chunk[j:j + 12]:
                code, p, rt, fl = W.SCALAR[nm]
                ev.append((code, p, v, rt, ops.slot_kind(rt[0], fl, p, v)))
            fn, mk = om.add_func(ev)
            steps.append(diff.invoke('m', fn, [], [I64] * len(mk)))
            meta.append([('slots', mk, chunk[j:j + 12])])
        cases.append([diff.load('m', om.m.encode())] + steps)
        metas.append([None] + [x[0] for x in meta])
    # parameters by value: trapping instructions and a sample of the others
    om = ops.OpModule(r)
    fns = {nm: om.add_param_func(*W.SCALAR[nm][:3]) for nm in W.SCALAR}
    b = om.m.encode()
    steps, meta = [], []
    for nm in W.SCALAR:
        code, p, rt, fl = W.SCALAR[nm]
        if nm in TRAPPING:
            vs = [(x,) for x in ops.EDGE[p[0]]] if len(p) == 1 else \
                [(a, z) for a in (0, 1, 1 << 31, (1 << 31) + 1, 1 << 63, (1 << 63) - 1, (1 << 64) - 1, (1 << 32) - 1, 7)
                 for z in (0, 1, 2, (1 << 32) - 1, (1 << 64) - 1, 1 << 31, 1 << 63)]
            vs += pairs(r, p, per_op * 2)
        else:
            vs = pairs(r, p, max(4, per_op // 8))
        for v in vs:
            if nm in TRAPPING:
                c.distinct((nm, v))
            steps.append(diff.invoke('m', fns[nm], [(I64, x) for x in v], [I64]))
            meta.append(('param', ops.slot_kind(rt[0], fl, p, v), [(nm, v)]))
    order = list(range(len(steps)))
    r.shuffle(order)
    for i in range(0, len(order), 400):
        cases.append([diff.load('m', b)] + [steps[k] for k in order[i:i + 400]])
        metas.append([None] + [meta[k] for k in order[i:i + 400]])
    return cases, metas


def judge(c, label, cases, metas, tw, ref):
    seen = {}
    for ci, (case, meta, a, b) in enumerate(zip(cases, metas, tw, ref)):
        if a is None:
            continue
        if isinstance(a[0], dict):
            info = a[0]['crash']
            c.violation(f'{label}:crash:{ci}', f'{info["kind"]}: {info["summary"]}', dict(case=diff.show(case), info=info))
            continue
        for k, (mt, x, y) in enumerate(zip(meta, a, b)):
            if mt is None:
                if not diff.same(x, y):
                    c.violation(f'{label}:load:{ci}', f'{x} vs {y}', dict(case=diff.show(case)))
                continue
            kind, mk, what = mt
            xv, yv = ops.values(x), ops.values(y)
            if xv is None or yv is None:
                c.coverage['traps_seen'] = c.coverage.get('traps_seen', 0) + 1
                nm, v = what[0]
                good = diff.same(x, y)
                if good and '.trunc_f' in nm:
                    nan = ops.isnan(W.SCALAR[nm][1][0], v[0])
                    good = x == ('trap:invalid conversion to integer' if nan else 'trap:integer overflow')
                if not good:
                    bad = (nm, v)
                    seen.setdefault(nm, []).append((bad, x, y, ci, k))
                c.evaluations += 1
                continue
            for s, (q, gx, gy) in enumerate(zip(mk, xv, yv)):
                c.evaluations += 1
                if not (ops.slot_ok(q, gx, gy) and ops.slot_nan_checked(q, gx)):
                    nm, v = what[s] if kind == 'slots' else what[0]
                    seen.setdefault(nm, []).append(((nm, v), hex(gx), hex(gy), ci, k))
    for nm, l in seen.items():
        (w, x, y, ci, k) = l[0]
        c.violation(f'{label}:{nm}', f'{nm} {[hex(q) for q in w[1]]}: toywasm {x} reference {y} ({len(l)} differing)',
                    dict(first=l[:5], case=diff.show([cases[ci][0], cases[ci][k]])))


def main(c):
    c.rule = ('one evaluation of one scalar instruction on one operand tuple through a randomly chosen operand route; '
              'distinct = different (instruction, operands)')
    per_op = c.scale(1000, 12000)
    pf = build.build_many(['asan', 'rel'])
    cases, metas = make(c, per_op)
    c.log(f'{len(cases)} modules')
    ref = diff.run_v8(cases)
    c.log('reference done')
    n = 0
    for cfg in ('rel', 'asan'):
        tw = diff.run_toywasm(pf[cfg] + '/bin/toywasm', cases)
        judge(c, cfg, cases, metas, tw, ref)
        c.log(cfg, 'done')
    causes.check(c, build.cli, ('rel', 'asan'), False)
    c.coverage['opcodes'] = len(W.SCALAR)
    c.sample(dict(instr=metas[0][1][2][0][0], operands=[hex(x) for x in metas[0][1][2][0][1]], result=ref[0][1][:120]))
    c.sample(dict(step=cases[-1][1], outcome=ref[-1][1]))
    c.assumptions = ['V8 is right where it and toywasm agree']


if __name__ == '__main__':
    run_check('C01', main)
