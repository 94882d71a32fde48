"""C07: a module loads if and only if it is valid."""
import base64
import os
import random
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, diff, loader, modgen, progcheck, progen  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check, scratch_dir, tool_env  # noqa: E402
from vp.validate import MEM, SIMPLE, validate  # noqa: E402
from vp.wasm import END, EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, leb_u, vec  # noqa: E402

ORDER = [1, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11]
ALL = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]


def matrix():
    """Every instruction with operands and results of the right types, and
    with each of them wrong in turn; alignments and lane indices around their
    limits."""
    out = []

    def mod(params, ins, results, pre=b'', post=b'', mems=1):
        m = W.Module()
        if mems:
            m.memory(1, 2, shared=True)
        m.table(FUNCREF, 1)
        m.func([], [], list(results), pre + b''.join(W.const(t, 1) for t in params) + ins +
               b''.join(W.lset(i) for i in reversed(range(len(results)))) + post)
        return m.encode()
    for key in list(SIMPLE) + list(MEM):
        o, n = key
        b = bytes([o]) + (leb_u(n) if n is not None else b'')
        if key in SIMPLE:
            ps, rs, lanes = SIMPLE[key]
            imms = [b''] if lanes is None else [bytes([0]), bytes([lanes - 1]), bytes([lanes])]
        else:
            ps, rs, al, ex, lanes = MEM[key]
            imms = [leb_u(al) + leb_u(0)] + [leb_u(a) + leb_u(3) for a in range(6)] + [leb_u(al | 0x40) + b'\0' + leb_u(0), leb_u(al | 0x40) + b'\1\0']
            if lanes is not None:
                imms = [imms[0] + bytes([x]) for x in (lanes - 1, lanes)] + [x + b'\0' for x in imms]
        for imm in imms:
            out.append(mod(ps, b + imm, rs))
        imm = imms[0]
        if key in MEM:
            out.append(mod(ps, b + imm, rs, mems=0))
        for i in range(len(ps)):
            for t in ALL:
                if t != ps[i]:
                    out.append(mod(ps[:i] + (t,) + ps[i + 1:], b + imm, rs))
        for i in range(len(rs)):
            for t in ALL:
                if t != rs[i]:
                    out.append(mod(ps, b + imm, rs[:i] + (t,) + rs[i + 1:]))
        out.append(mod(ps[1:], b + imm, rs))
        out.append(mod(ps, b + imm, rs, pre=W.i32c(0)))          # a value left over
        out.append(mod((), b + imm, rs, pre=b'\0'))              # after unreachable
        out.append(mod(ps[1:], b + imm, rs, pre=b'\0'))
        for t in ALL:
            out.append(mod((), b'\0' + b + imm, (t,)))
    return out


def utf8_strings():
    """Encodings around every boundary of well-formed UTF-8."""
    out = [b'', b'\0', b'\x7f', b'a\0b']
    for a in (0x80, 0xbf, 0xc0, 0xc1, 0xf5, 0xf8, 0xfc, 0xfe, 0xff):
        out += [bytes([a]), bytes([a, 0x80]), bytes([a, 0xbf, 0x80, 0x80])]
    conts = (0x00, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xff)
    for a in (0xc2, 0xc3, 0xdf):
        out += [bytes([a])] + [bytes([a, x]) for x in conts]
    for a in (0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef):
        out += [bytes([a]), bytes([a, 0x80]), bytes([a, 0xa0])]
        out += [bytes([a, x, y]) for x in conts for y in (0x7f, 0x80, 0xbf, 0xc0)]
    for a in (0xf0, 0xf1, 0xf3, 0xf4):
        out += [bytes([a, 0x90]), bytes([a, 0x90, 0x80])]
        out += [bytes([a, x, y, z]) for x in conts for y in (0x7f, 0x80, 0xbf, 0xc0) for z in (0x7f, 0x80, 0xbf, 0xc0)]
    return out


def leb_forms(bits, signed):
    """All lengths, with every pattern of the bits beyond the width."""
    mx = (bits + 6) // 7
    out = []
    for v in ([0, 1, -1, -64, 63, 64, (1 << bits - 1) - 1, -(1 << bits - 1)] if signed else [0, 1, 127, 128, (1 << bits) - 1]):
        for n in range(1, mx + 2):
            e = W.leb_s_pad(v, n)
            out.append(e)
            if n == mx:
                out += [e[:-1] + bytes([x]) for x in range(256)]
    return list(dict.fromkeys(out))


def edges():
    """Single features around their limits, everything else plain."""
    out = []
    T = vec([W.functype([], []), W.functype([I32], [I32]), W.functype([I32], [])])
    j = modgen.join
    body = [3, vec([b'\0'])], [10, modgen.join_bodies([b'\0\x0b'])]

    def m(*secs):
        out.append(j([[1, T]] + sorted((list(s) for s in secs), key=lambda s: ORDER.index(s[0]))))
    for s in utf8_strings():
        n = W.name(s)
        m(*body, [7, vec([n + b'\0\0'])])
        m([2, vec([n + W.name('x') + b'\0\0'])])
        m([2, vec([W.name('x') + n + b'\0\0'])])
        out.append(j([[1, T], [0, n + b'zz']]))
        m(*body, [7, vec([W.name('ab') + b'\0\0', n + b'\0\0', W.name(s + b'c') + b'\0\0'])])
    # LEBs: counts, indices, sizes, offsets, constants
    for e in leb_forms(32, False):
        out.append(b'\0asm\1\0\0\0' + b'\1' + e)
        out.append(b'\0asm\1\0\0\0' + b'\1' + e + b'\0')
        out.append(b'\0asm\1\0\0\0' + b'\0' + e + b'\1x' + b'\0' * 126)
        m([5, vec([b'\0' + e])])
        m([5, vec([b'\1\1' + e])])
        m([4, vec([b'\x70\0' + e])])
        m([4, vec([b'\x6f\1\1' + e])])
        m([3, vec([e])], body[1])
        m([3, e + b'\0'], body[1])
        m(*body, [8, e])
        m(*body, [7, vec([W.name('x') + b'\0' + e])])
        m([5, vec([b'\0\1'])], *modcode(b'\x41\0\x28\2' + e + b'\x1a'))
        m([5, vec([b'\0\1'])], *modcode(b'\x41\0\x28' + e + b'\0\x1a'))
        m(*modcode(b'\x10' + e))
        m(*modcode(b'\x0c' + e))
        m(*modcode(b'\x41\0\x0e\0' + e))
        m([11, vec([b'\1' + e + b'a' * 127])])
        m([5, vec([b'\0\1'])], [11, vec([b'\1\1x'])], [12, e])
        m([5, vec([b'\0\1'])], [11, vec([e + b'\x41\0\x0b\1x'])])
        m([5, vec([b'\0\1'])], [11, vec([e + b'\0\x41\0\x0b\1x'])])
        m([4, vec([b'\x70\0\1'])], [9, vec([e + b'\x41\0\x0b\0'])])
        m([4, vec([b'\x70\0\1'])], [9, vec([e + b'\0\x41\0\x0b\0\0'])])
        out.append(j([[1, T], body[0], [10, vec([b'\x04\1' + e + b'\x7f\x0b', ])]]))
        m([13, vec([b'\0' + e])])
        m([13, vec([e + b'\2'])])
    for e in leb_forms(32, True):
        m(*modcode(b'\x41' + e + b'\x1a'))
        m([6, vec([b'\x7f\0\x41' + e + b'\x0b'])])
    for e in leb_forms(64, True):
        m(*modcode(b'\x42' + e + b'\x1a'))
        m([6, vec([b'\x7e\0\x42' + e + b'\x0b'])])
    for e in leb_forms(33, True):
        m(*modcode(b'\x02' + e + b'\x0b'))
    # every byte as a type, kind or flag
    for x in range(256):
        b = bytes([x])
        out.append(j([[1, vec([b + b'\0\0'])]]))
        out.append(j([[1, vec([b'\x60\1' + b + b'\0'])]]))
        out.append(j([[1, vec([b'\x60\0\1' + b])]]))
        m([4, vec([b + b'\0\1'])])
        m([4, vec([b'\x70' + b + b'\1\2'])])
        m([4, vec([b'\x70' + b + b'\1'])])
        m([5, vec([b + b'\1\2'])])
        m([5, vec([b + b'\1'])])
        m([6, vec([b'\x7f' + b + b'\x41\0\x0b'])])
        m(*body, [7, vec([W.name('x') + b + b'\0'])])
        for k in (b'\0', b'\x70\0\1', b'\0\1', b'\x7f\0', b'\0\0'):
            m([2, vec([W.name('x') + W.name('y') + b + k])])
        for k in (b'\0', b'\0\0', b'\x70\0', b'\0\x41\0\x0b\0\0', b'\0\x41\0\x0b\x70\0'):
            m(*body, [4, vec([b'\x70\0\1'])], [9, vec([b + k])])
        m([9, vec([b'\1' + b + b'\0'])])
        m([9, vec([b'\5' + b + b'\0'])])
        m([9, vec([b'\5\x70\1\xd0' + b + b'\x0b'])])
        out.append(j([[1, T], [3, vec([b'\0'])], [10, modgen.join_bodies([vec([b'\1' + b]) + b'\x0b'])]]))
        out.append(b'\0asm\1\0\0\0' + b + b'\1\0')
        m(*modcode(b'\x02' + b + b'\x0b'))
        m(*modcode(b'\xd0' + b + b'\x1a'))
        m(*modcode(b'\x1f\x40\1' + b + b'\0\x0b'))
    # sizes
    for mn, mx in [(0, None), (65535, None), (65536, None), (65537, None), (0, 65536), (0, 65537), (65536, 65536), (2, 1), (1, 1), (1, 0), (0, 0),
                   (0, 0xffffffff), (0xffffffff, None), (0xffffffff, 0xffffffff)]:
        for fl in (0, 2):
            lim = bytes([fl | (mx is not None)]) + leb_u(mn) + (leb_u(mx) if mx is not None else b'')
            m([5, vec([lim])])
            m([2, vec([W.name('x') + W.name('y') + b'\2' + lim])])
            if not fl:
                m([4, vec([b'\x70' + lim])])
                m([2, vec([W.name('x') + W.name('y') + b'\1\x6f' + lim])])
    # constant expressions
    G = [2, vec([W.name('x') + W.name(k) + b'\3' + bytes([W.VT[t], mut]) for k, t, mut in
                 [('a', I32, 0), ('b', I32, 1), ('c', I64, 0), ('d', FUNCREF, 0), ('e', EXTERNREF, 0), ('f', V128, 0), ('g', I64, 1), ('h', F64, 0)]])]
    ce = [W.const(t, 1) for t in ALL] + [W.gget(i) for i in range(11)] + [b'\xd2\0', b'\xd2\1', b'', W.i32c(1) * 2, b'\1' + W.i32c(1), W.i32c(1) + b'\1',
                                                                     W.i32c(1) + W.i32c(2) + b'\x6a', W.i64c(1) + W.i64c(2) + b'\x7e',
                                                                     W.i32c(1) + W.i32c(2) + b'\x6d', W.i32c(1) + b'\x1a' + W.i32c(1), b'\0',
                                                                     b'\x02\x7f' + W.i32c(1) + b'\x0b', b'\x10\0', b'\x0f', b'\x41\0\x28\2\0',
                                                                     W.i32c(1) + b'\x05', b'\x20\0', b'\x23\0\x24\0', b'\xfd\x0c' + bytes(16)]
    for x in ce:
        for t in ALL:
            m(G, *body, [6, vec([bytes([W.VT[t], 0]) + W.i32c(0)[:0] + x + b'\x0b'])])
            m(G, *body, [6, vec([bytes([W.VT[t], 1]) + x + b'\x0b', b'\x7f\0\x41\0\x0b'])])
        m(G, *body, [6, vec([b'\x7f\0\x41\0\x0b', b'\x7f\0' + x + b'\x0b'])])
        m(G, *body, [5, vec([b'\0\1'])], [11, vec([b'\0' + x + b'\x0b\1x'])])
        m(G, *body, [4, vec([b'\x70\0\1'])], [9, vec([b'\0' + x + b'\x0b\1\0'])])
        for t in (b'\x70', b'\x6f'):
            m(G, *body, [4, vec([t + b'\0\1'])], [9, vec([b'\5' + t + vec([x + b'\x0b'])])])
            m(G, *body, [4, vec([t + b'\0\1'])], [9, vec([b'\6\0\x41\0\x0b' + t + vec([x + b'\x0b'])])])
            m(G, *body, [4, vec([t + b'\0\1'])], [9, vec([b'\4\x41\0\x0b' + vec([x + b'\x0b'])])])
    # orders and repetitions of sections
    full = {1: T, 2: vec([W.name('x') + W.name('y') + b'\0\0']), 3: vec([b'\0']), 4: vec([b'\x70\0\1']), 5: vec([b'\0\1']), 13: vec([b'\0\2']),
            6: vec([b'\x7f\0\x41\0\x0b']), 7: vec([W.name('x') + b'\0\0']), 8: b'\0', 9: vec([b'\1\0\0']), 12: b'\1',
            10: body[1][1], 11: vec([b'\1\1x'])}
    o = [k for k in ORDER if k in full]
    for i in range(len(o)):
        for k in range(i, len(o)):
            q = list(o)
            q[i], q[k] = q[k], q[i]
            out.append(j([[x, full[x]] for x in q]))
            q = list(o)
            q.insert(k, o[i])
            out.append(j([[x, full[x]] for x in q]))
            out.append(j([[x, full[x]] for x in o if x not in (o[i], o[k])]))
            q = list(o)
            q.insert(k, q.pop(i))
            out.append(j([[x, full[x]] for x in q]))
        out.append(j([[x, full[x][:-1] if x == o[i] else full[x]] for x in o]))
        out.append(j([[x, full[x] + b'\0' if x == o[i] else full[x]] for x in o]))
        out.append(j([[x, b'\0' if x == o[i] else full[x]] for x in o]))
        out.append(j([[x, b'' if x == o[i] else full[x]] for x in o]))
    b = j([[x, full[x]] for x in o])
    out += [b[:i] for i in range(len(b))]
    for i in range(len(b)):
        out += [b[:i] + bytes([v]) + b[i + 1:] for v in {b[i] ^ 1 << k for k in range(8)} | {(b[i] + 1) & 255, (b[i] - 1) & 255}]
    return list(dict.fromkeys(out))


def modcode(ins):
    return [3, vec([b'\0'])], [10, modgen.join_bodies([b'\0' + ins + b'\x0b'])]


def gen(r, i, p=0.012):
    k = i % 10
    if k < 4:
        return modgen.struct_module(r, p if r.random() < 0.8 else 0)
    kw = dict(body=(2, 14), funcs=(1, 4))
    pr = progen.Prog(r, **kw)
    b = pr.steps(diff)[0]['bytes']
    if isinstance(b, tuple):
        b = b[0]
    return b


def batch(r, i):
    """Modules with the model's verdict: [(bytes, ok, reason, notes)]."""
    base = gen(r, i)
    out = [base]
    for _ in range(6):
        x = r.random()
        out.append(modgen.mutate(r, base) if x < 0.8 else modgen.mut_bytes(r, base))
    if i % 7 == 0:
        out += [modgen.struct_module(r, 0.03) for _ in range(3)]
    return [(b,) + validate(b) for b in out if len(b) < 60000]


def wabt(b, sd):
    fn = os.path.join(sd, 'w.wasm')
    with open(fn, 'wb') as f:
        f.write(b)
    p = subprocess.run(['wasm-validate', '--enable-all', fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=tool_env(), timeout=60)
    return p.returncode == 0


def judge(c, label, items, res, sd):
    bad = []
    for i, ((b, ok, why, notes), x) in enumerate(zip(items, res)):
        if x is None:
            continue
        if isinstance(x, dict):
            c.violation(f'{label}:crash:{b.hex()[:120]}', f'loading: {x["crash"]["kind"]} {x["crash"]["summary"]}',
                        dict(module=b.hex(), info=x['crash']))
            continue
        c.evaluations += 1
        c.distinct(b)
        if x[0] == -999:
            c.violation(f'{label}:unstable', f'two loads of the same bytes disagree: {x[1]}', dict(module=b.hex()))
            continue
        k = 'accepted' if ok else 'rejected: ' + why.split(' ')[0]
        st = c.coverage.setdefault('model_verdicts', {})
        st[k] = st.get(k, 0) + 1
        if (x[0] == 0) != ok:
            bad.append((b, ok, why, notes, x))
    if not bad:
        return
    c.coverage['disagreements_before_arbitration'] = c.coverage.get('disagreements_before_arbitration', 0) + len(bad)
    v8 = diff.run_v8([[dict(op='validate', bytes=b)] for b, *_ in bad])
    reported = {}
    for (b, ok, why, notes, x), v in zip(bad, v8):
        notes = set(notes)
        if notes - {'custom page size'}:
            c.coverage['not_judged'] = c.coverage.get('not_judged', 0) + 1
            continue
        a = (v[0] == 'ok') == ok
        w = None
        if not a and 'custom page size' not in notes:
            w = wabt(b, sd)
            a = w == ok
        if 'custom page size' in notes:
            a = True
        if a:
            kk = (ok, why, x[1][:30])
            reported[kk] = reported.get(kk, 0) + 1
            if reported[kk] <= 2:
                c.violation(f'{label}:{"rejects" if ok else "accepts"}:{why}:{b.hex()[:200]}',
                            f'toywasm {"rejects a valid" if ok else "accepts an invalid"} module ({why or x[1]}), '
                            f'reference agrees: v8={v[0][:60]} wabt={w}', dict(module=b.hex(), base64=base64.b64encode(b).decode()))
        else:
            c.coverage['references_side_with_toywasm'] = c.coverage.get('references_side_with_toywasm', 0) + 1
            c.log(f'note: model alone says {ok} ({why}); toywasm {x}; v8 {v[0][:80]}; {b.hex()[:400]}')


def main(c):
    build.build_many(['asan', 'rel'])
    exe = {k: build.harness(k, 'loader', ['loader.c']) for k in ('rel', 'asan')}
    sd = scratch_dir()
    c.rule = 'distinct byte strings for which toywasm gave a verdict'
    mx = [(b,) + validate(b) for b in matrix()]
    judge(c, 'matrix', mx, loader.run(exe['rel'], [x[0] for x in mx]), sd)
    c.log(f'matrix: {len(mx)} modules')
    mx = [(b,) + validate(b) for b in edges()]
    judge(c, 'edge', mx, loader.run(exe['rel'], [x[0] for x in mx]), sd)
    c.log(f'edges: {len(mx)} modules, {sum(1 for x in mx if x[1])} valid')
    # the model itself against V8, on a sample
    ns = c.scale(2500, 20000)
    n = c.scale(9000, 150000)
    B = 10000
    for lo in range(0, n, B):
        items = [x for y in progcheck.pgen('checks.c07', 'batch', f'C07:{c.seed}:{lo}', min(B, n - lo)) for x in y]
        mods = [x[0] for x in items]
        c.log(f'generated {len(mods)} modules')
        judge(c, 'gen', items, loader.run(exe['rel'], mods), sd)
        na = c.scale(len(mods) // 4, len(mods))
        judge(c, 'gen-asan', items[:na], loader.run(exe['asan'], mods[:na], leaks=True), sd)
        c.log('loaded')
        if lo == 0:
            rr = random.Random(c.seed)
            smp = rr.sample(items, min(ns, len(items)))
            v8 = diff.run_v8([[dict(op='validate', bytes=x[0])] for x in smp])
            agree = sum(1 for x, v in zip(smp, v8) if (v[0] == 'ok') == x[1])
            c.coverage['model_vs_v8_sample'] = f'{agree}/{len(smp)}'
            c.sample(dict(accepted=[x[0].hex()[:200] for x in items if x[1]][:2], rejected=[(x[2], x[0].hex()[:200]) for x in items if not x[1]][:4]))
        if c.violations:
            break


if __name__ == '__main__':
    run_check('C07', main)
