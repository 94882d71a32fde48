"""C12: allocation failures.  The k-th allocation (alone, or it and all later
ones) fails inside a history of loads, links and calls; sanitizers, assertions
and heap accounting watch, and what existed before must still work."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, diff, modgen, oomcli, progcheck, progen, runner  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check  # noqa: E402
from vp.wasm import FUNCREF, I32, I64, V128, i32c, lget  # noqa: E402
import checks.c02  # noqa: E402
import checks.c05  # noqa: E402
import checks.c06  # noqa: E402
from checks.c13 import fix  # noqa: E402


def probe():
    m = W.Module()
    m.memory(1, 3)
    m.table(FUNCREF, 3)
    g = m.global_(I64, True, W.i64c(5) + W.END)
    f = m.efunc('f', [I32, I64], [I64, I32], [V128, I64, I32], W.gget(g) + lget(1) + b'\x7c' + b'\x24' + W.leb_u(g) + W.gget(g) + lget(0) + b'\x28\2\0')
    m.efunc('s', [I32, I32], [], [], lget(0) + lget(1) + b'\x36\2\0')
    m.efunc('r', [I32], [I64], [], b'')
    m.set_body(len(m.funcs) - 1, [], lget(0) + b'\x45\x04\x7e' + W.i64c(0) + b'\x05' + lget(0) + i32c(1) + b'\x6b' + W.call(2) + W.i64c(3) + b'\x7c\x0b')
    return m.encode(), f


def probe_steps(k):
    return [diff.invoke('p', 's', [(I32, 64 + k * 4), (I32, 77 + k)]), diff.invoke('p', 'f', [(I32, 64 + k * 4), (I64, 3)], [I64, I32]),
            diff.invoke('p', 'r', [(I32, 60)], [I64])]


def growmod():
    m = W.Module()
    m.memory(0, 40)
    m.table(FUNCREF, 0, 5000)
    m.efunc('mg', [I32], [I32], [], lget(0) + b'\x40\0')
    m.efunc('ms', [], [I32], [], b'\x3f\0')
    m.efunc('tg', [I32], [I32], [], b'\xd0\x70' + lget(0) + b'\xfc\x0f\0')
    m.efunc('ts', [], [I32], [], b'\xfc\x10\0')
    m.efunc('st', [I32], [], [], lget(0) + lget(0) + b'\x36\2\0')
    return m.encode()


def base(r, i):
    """The part of a history during which an allocation fails."""
    k = i % 8
    if k < 2:
        cs = checks.c02.case(r, i)
    elif k == 2:
        cs = checks.c05.case(r, i)
    elif k == 3:
        cs = checks.c06.chain(r, i)
    elif k == 4:
        cs = [diff.load('m', modgen.struct_module(r, 0))]
    elif k == 5:
        st = progen.Prog(r).steps(diff)
        b = st[0]['bytes']
        cs = [diff.load('m', modgen.mutate(r, b[0] if isinstance(b, tuple) else b))] + st[1:]
    elif k == 6:
        b = modgen.struct_module(r, 0)
        dy = b'\x08dylink.0' + r.choice([b'', b'\1\4\x08\2\0\0']) + r.choice([b'', b'\2\x09\2\4a.so\2bb', b'\2\5\1\3abc']) + \
            r.choice([b'', b'\4\7\1\1a\1b\1\0', b'\4\7\1\1m\1n\x11\0'])
        cs = [diff.load('m', b[:8] + b'\0' + W.leb_u(len(dy)) + dy + b[8:])]
    else:
        cs = progcheck.prog_case(r, i, kws=({}, dict(refs=False), dict(depth=6)))
    return fix(cs)[:25]


def has_grow(cs):
    for s in cs:
        if s['op'] == 'load' and (b'\x40' in s['bytes'] or b'\xfc\x0f' in s['bytes']):
            try:
                for sid, pl in modgen.sections(s['bytes']):
                    if sid == 10:
                        for body in modgen.bodies(pl):
                            for ins in modgen.instrs(body)[1]:
                                if bytes(ins[:1]) == b'\x40' or bytes(ins[:2]) == b'\xfc\x0f':
                                    return True
            except Exception:  # noqa
                return True
    return False


def wrap(cs, at, al):
    pb, _ = probe()
    return ([diff.load('p', pb)] + probe_steps(0) + [dict(op='oom', at=at, all=al)] + cs + [dict(op='oomoff')] + probe_steps(1) + cs)


def main(c):
    build.build_many(['asan', 'dbg', 'oom'])
    exe = {k: runner.exe(k, oom=True) for k in ('asan', 'dbg')}
    c.rule = 'distinct (history, failing allocation, mode) in which the allocation was made to fail'
    n = c.scale(400, 6000)
    nk = c.scale(24, 80)
    hist = progcheck.pgen('checks.c12', 'base', f'C12:{c.seed}', n)
    zero = [wrap(h, 0, 0) for h in hist]
    b0, _ = runner.run(exe['dbg'], zero, ['alarm=3000'])
    jobs = []
    r = c.sub_rng('k')
    for i, (h, o) in enumerate(zip(hist, b0)):
        if o is None or isinstance(o[0], dict) or any(x == 'timeout' for x in o):
            if o and isinstance(o[0], dict):
                c.violation(f'base:{i}', f'without any failure: {o[0]["crash"]["summary"]}', dict(case=diff.show(h)))
            continue
        cnt = next(int(x.split()[1]) for x in o if x.startswith('O '))
        ks = set(range(1, cnt + 1)) if cnt <= nk else set(r.sample(range(1, cnt + 1), nk))
        for k in sorted(ks):
            jobs.append((i, k, 0))
            if r.random() < 0.5:
                jobs.append((i, k, 1))
    c.log(f'{len(hist)} histories, {len(jobs)} failure points')
    grow = [has_grow(h) for h in hist]
    for cfg, js in (('asan', jobs), ('dbg', jobs)):
        cases = [wrap(hist[i], k, a) for i, k, a in js]
        got, _ = runner.run(exe[cfg], cases, ['alarm=3000'], leaks=True, watchdog=400)
        judge(c, cfg, js, cases, got, hist, b0, grow)
        c.log(f'{cfg}: {sum(1 for g in got if g is not None)} runs')
        if c.violations:
            return
    growth(c, exe)
    oomcli.check(c, c.sub_rng('cli'))
    c.log('command')


def judge(c, cfg, js, cases, got, hist, b0, grow):
    st = c.coverage.setdefault('armed_step_outcomes', {})
    for (i, k, a), cs, g in zip(js, cases, got):
        if g is None:
            continue
        rep = dict(case=diff.show(cs), fail=k, all=a)
        if isinstance(g[0], dict):
            c.violation(f'{cfg}:{g[0]["crash"]["summary"][:200]}', f'failing allocation {k}{"+" if a else ""}: {g[0]["crash"]["kind"]} {g[0]["crash"]["summary"]}',
                        dict(rep, info=g[0]['crash']))
            continue
        c.evaluations += 1
        o = b0[i]
        nh = len(hist[i])
        failed = int(g[5 + nh].split()[2])
        if failed:
            c.distinct((i, k, a, cfg))
        bad = None
        dirty = False
        for j in range(5, 5 + nh):
            x, y = g[j], o[j]
            cl = 'same' if x == y else x.split(':')[0]
            st[cl] = st.get(cl, 0) + 1
            if x == y or x == 'timeout' or dirty:
                continue
            # the first differing step must report the failure
            if x.startswith(('err:12', 'invalid:', 'unlinkable:')) and failed:
                dirty = True
                continue
            if grow[i] and failed:
                dirty = True
                continue
            bad = (j, x, y)
            break
        if bad is None:
            for j in list(range(0, 4)) + list(range(6 + nh, 9 + nh)):
                if g[j] != o[j]:
                    bad = (j, g[j], o[j])
                    break
        if bad is None and hist[i][0]['op'] == 'load' and all(s['op'] != 'register' for s in hist[i]):
            for j in range(9 + nh, 9 + 2 * nh):
                if g[j] != o[j]:
                    bad = (j, g[j], o[j])
                    break
        if bad:
            c.violation(f'{cfg}:{i}:{k}:{a}', f'failing allocation {k}{"+" if a else ""}: step {bad[0]} gave {bad[1]!r}, without failure {bad[2]!r}', rep)


def growth(c, exe):
    """grow fails with -1 and leaves the size alone, or succeeds."""
    b = growmod()
    for cfg in ('dbg', 'asan'):
        cases, meta = [], []
        for f, sz, n in (('mg', 'ms', 3), ('tg', 'ts', 700)):
            for at in range(1, 6):
                for al in (0, 1):
                    cases.append([diff.load('m', b), dict(op='oom', at=at, all=al), diff.invoke('m', f, [(I32, n)], [I32]), diff.invoke('m', f, [(I32, n)], [I32]),
                                  dict(op='oomoff'), diff.invoke('m', sz, [], [I32]), diff.invoke('m', f, [(I32, 1)], [I32]), diff.invoke('m', sz, [], [I32])]
                                 + ([diff.invoke('m', 'st', [(I32, 65532)])] if f == 'mg' else []))
                    meta.append((f, n, at, al))
        got, _ = runner.run(exe[cfg], cases, leaks=True)
        for (f, n, at, al), cs, g in zip(meta, cases, got):
            c.evaluations += 1
            if g is None:
                continue
            if isinstance(g[0], dict):
                c.violation(f'grow:{cfg}:{f}:{at}:{al}', g[0]['crash']['summary'], dict(case=diff.show(cs), info=g[0]['crash']))
                continue
            size = 0
            ok = True
            for j in (2, 3):
                if g[j] == f'ok:{size}:i32':
                    size += n
                elif not (g[j] in ('ok:4294967295:i32', 'err:12')):
                    ok = False
            ok = ok and g[5] == f'ok:{size}:i32' and g[6] == f'ok:{size}:i32' and g[7] == f'ok:{size + 1}:i32'
            if f == 'mg' and ok:
                ok = g[8] == 'ok:'
            c.distinct((f, at, al, cfg, tuple(g)))
            if not ok:
                c.violation(f'grow:{cfg}:{f}:{at}:{al}', f'{f} {n} failing allocation {at}{"+" if al else ""}: {g}', dict(case=diff.show(cs)))
            c.sample(dict(op=f, fail=at, all=al, outcome=g))


if __name__ == '__main__':
    run_check('C12', main)
