"""C08: no bytes and no program corrupt the host process.  Sanitizers,
assertions and heap accounting watch the loader on mutated modules and the
interpreter on mutated programs which still load."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, diff, loader, modgen, progcheck, progen, runner  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check  # noqa: E402
from vp.validate import validate  # noqa: E402
from vp.wasm import END, EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, i32c, leb_u, lget  # noqa: E402
import checks.c04  # noqa: E402
import checks.c06  # noqa: E402

KWS = [dict(body=(2, 14), funcs=(1, 4)), dict(trap=0.1), dict(depth=6), *checks.c06.KWS]


def base(r, i):
    if i % 4 == 0:
        return modgen.struct_module(r, 0), []
    st = progen.Prog(r, **KWS[i % len(KWS)]).steps(diff)
    b = st[0]['bytes']
    return (b[0] if isinstance(b, tuple) else b), st[1:]


EDGE = [0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 65535, 65536, 0xfffc]


def anyargs(r, st):
    st = dict(st)
    st['args'] = [(t, str(r.choice(EDGE) if r.random() < 0.7 else r.getrandbits(32)) if t != V128 else '%032x' % r.getrandbits(128)) for t, _ in st['args']]
    return st


def progs(r, i):
    """Cases: a program mutated in 1..3 places which is still valid."""
    b, st = base(r, i)
    out = []
    for _ in range(5):
        m = b
        for _ in range(r.randint(0, 3)):
            for _ in range(8):
                x = modgen.mutate(r, m)
                if len(x) < 60000 and validate(x)[0]:
                    m = x
                    break
        calls = st if st else [diff.invoke('m', n, []) for n in export_names(m)]
        calls = [s if r.random() < 0.5 else anyargs(r, s) if s['op'] == 'invoke' else s for s in calls]
        out.append([diff.load('m', m)] + calls[:30])
    return out


def export_names(b):
    out = []
    for sid, pl in modgen.sections(b):
        if sid == 7:
            try:
                r = modgen.R(pl, 0, len(pl))
                for _ in range(r.u32()):
                    n = bytes(r.take(r.u32()))
                    k = r.u8()
                    r.u32()
                    if k == 0:
                        out.append(n)
            except Exception:  # noqa
                pass
    return out


def bytes_(r, i):
    b, _ = base(r, i)
    out = []
    for _ in range(8):
        x = b
        for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
            x = modgen.mut_bytes(r, x) if r.random() < 0.7 else modgen.mutate(r, x)
        out.append(x[:100000])
    return out


def huge():
    """Limits of every construct: sizes and nesting."""
    out = []

    def one(m, calls=()):
        out.append([diff.load('m', m.encode() if isinstance(m, W.Module) else m)] + list(calls))
    for n in (1, 200, 5000, 100000):
        for t in (I32, V128):
            m = W.Module()
            m.efunc('f', [], [t], [t] * n, lget(n - 1))
            one(m, [diff.invoke('m', 'f', [], [t])])
    for n in (10, 1000, 20000):
        for op in (b'\x02\x40', b'\x03\x40', b'\x41\0\x04\x40', b'\x1f\x40\0'):
            m = W.Module()
            m.efunc('f', [], [], [], op * n + b'\x0c' + leb_u(n // 2) + END * n)
            one(m, [diff.invoke('m', 'f', [])])
    for n in (100, 1000, 30000):
        m = W.Module()
        m.efunc('f', [I32] * n, [I32] * n, [], b''.join(lget(k) for k in range(n)))
        one(m, [diff.invoke('m', 'f', [(I32, k) for k in range(n)], [I32] * n)])
        m = W.Module()
        g = m.func([V128] * n, [V128] * n, [], b''.join(lget(k) for k in range(n)))
        m.efunc('f', [], [], [], W.v128c(7) * n + W.call(g) + b'\x1a' * n)
        one(m, [diff.invoke('m', 'f', [])])
        m = W.Module()
        m.efunc('f', [I32], [I32], [], b'\x02\x40' * 3 + lget(0) + b'\x0e' + leb_u(n) + b''.join(leb_u(k % 4) for k in range(n)) + b'\0' + END * 3 + i32c(1))
        for a in (0, 1, n - 1, n, 0xffffffff):
            pass
        one(m, [diff.invoke('m', 'f', [(I32, a)], [I32]) for a in (0, 1, n - 1, n, 0xffffffff)])
        m = W.Module()
        for k in range(n):
            m.efunc('f%d' % k, [], [], [], b'')
        one(m, [diff.invoke('m', 'f%d' % (n - 1), [])])
    # locals counts at and above 2^32 in total, with and without parameters
    for ps in ([], [I32], [V128, I32]):
        for decl in ([(0xffffffff, I32)], [(0x80000000, I32), (0x80000000, I64)], [(0xffffffff, V128), (1, I32)], [(0x40000000, V128)],
                     [(0xfffffffe, V128), (1, I32)], [(0x3fffffff, V128)], [(1 << 28, V128)]):
            m = W.Module()
            m.efunc('f', ps, [], [], b'')
            b = m.encode()
            body = leb_u(len(decl)) + b''.join(leb_u(k) + bytes([W.VT[t]]) for k, t in decl) + b'\x0b'
            secs = [(i, pl) if i != 10 else (10, b'\1' + leb_u(len(body)) + body) for i, pl in modgen.sections(b)]
            one(modgen.join(secs), [diff.invoke('m', 'f', [(t, 0) for t in ps])])
    # recursion, growing the value stack and the frames to their limits
    for nl in (0, 1, 100):
        m = W.Module()
        f = m.efunc('f', [I64], [I64], [V128] * nl, b'')
        m.set_body(f, [V128] * nl, lget(0) + W.call(f) + lget(0) + b'\x7c')
        one(m, [diff.invoke('m', 'f', [(I64, 1)], [I64])] * 2)
    m = W.Module()
    m.memory(0, 65536)
    m.efunc('g', [I32], [I32], [], lget(0) + b'\x40\0')
    m.efunc('l', [I32], [I32], [], lget(0) + b'\x28\0' + leb_u(0xffffffff))
    one(m, [s for x in (1, 100, 0xffff, 0xffffffff, 65535 - 101) for s in
            (diff.invoke('m', 'g', [(I32, x)], [I32]), diff.invoke('m', 'l', [(I32, 0)], [I32]), diff.invoke('m', 'l', [(I32, 1)], [I32]))])
    m = W.Module()
    m.table(FUNCREF, 0)
    m.efunc('g', [I32], [I32], [], b'\xd0\x70' + lget(0) + b'\xfc\x0f\0')
    one(m, [diff.invoke('m', 'g', [(I32, x)], [I32]) for x in (1, 1000, 0x7fffffff, 0xffffffff, 0xfffffff0, 10000000)])
    # many segments, long names
    m = W.Module()
    m.memory(1)
    for k in range(3000):
        m.datas.append(b'\0' + i32c(k) + END + W.vec([]) + b'') if False else None
    m.efunc('x' * 60000, [], [], [], b'\0')
    one(m, [diff.invoke('m', 'x' * 60000, [])])
    return out


def judge(c, label, cases, res):
    for i, (cs, x) in enumerate(zip(cases, res)):
        if x is None:
            continue
        c.evaluations += 1
        if isinstance(x, dict) or (x and isinstance(x[0], dict)):
            info = x['crash'] if isinstance(x, dict) else x[0]['crash']
            c.violation(f'{label}:{info["summary"][:160]}', f'{info["kind"]}: {info["summary"]}',
                        dict(case=cs.hex() if isinstance(cs, bytes) else diff.show(cs), info=info))
            continue
        st = c.coverage.setdefault('outcomes', {})
        for y in (x if isinstance(x, list) else ['load accepted' if x[0] == 0 else 'load rejected']):
            y = y if y.startswith(('load', 'trap')) else y.split(':')[0]
            st[y] = st.get(y, 0) + 1
        c.distinct(cs if isinstance(cs, bytes) else cs[0]['bytes'])


def main(c):
    build.build_many(['asan', 'msan'])
    c.rule = 'distinct modules loaded (and executed where valid) without a report'
    c.assumptions.append('leaks and accounting are judged when each case is torn down')
    opts = ['alarm=300', 'mem=1500000000', 'frames=20000', 'cells=2000000']
    ex = {k: runner.exe(k) for k in ('asan', 'msan')}
    lo = {k: build.harness(k, 'loader', ['loader.c']) for k in ('asan', 'msan')}
    h = huge()
    for k in ('asan', 'msan'):
        judge(c, 'huge-' + k, h, runner.run(ex[k], h, opts, leaks=True)[0])
    c.log(f'size extremes: {len(h)} modules')
    n = c.scale(3000, 60000)
    B = 6000
    for s in range(0, n, B):
        mods = [x for y in progcheck.pgen('checks.c08', 'bytes_', f'C08b:{c.seed}:{s}', min(B, n - s)) for x in y]
        c.log(f'{len(mods)} mutated byte strings')
        judge(c, 'bytes-asan', mods, loader.run(lo['asan'], mods, leaks=True))
        judge(c, 'bytes-msan', mods[:c.scale(len(mods) // 2, len(mods))], loader.run(lo['msan'], mods[:c.scale(len(mods) // 2, len(mods))]))
        cases = [x for y in progcheck.pgen('checks.c08', 'progs', f'C08p:{c.seed}:{s}', min(B, n - s) // 2) for x in y]
        c.log(f'{len(cases)} mutated programs')
        judge(c, 'progs-asan', cases, runner.run(ex['asan'], cases, opts, leaks=True)[0])
        judge(c, 'progs-msan', cases, runner.run(ex['msan'], cases, opts)[0])
        c.log('executed')
        if c.violations:
            break
    c.sample([x[0]['bytes'].hex()[:300] for x in cases[:3]])


if __name__ == '__main__':
    run_check('C08', main)
