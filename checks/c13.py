"""C13: interrupting execution and continuing it is invisible to the program.
The same histories run uninterrupted and interrupted at random points; the
monitor compares every outcome."""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, diff, progcheck, runner  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check  # noqa: E402
from vp.wasm import I32, I64, i64c, lget, lset  # noqa: E402
import checks.c02  # noqa: E402
import checks.c05  # noqa: E402
import checks.c06  # noqa: E402

GENS = [checks.c02.case, checks.c02.case, checks.c05.case, checks.c06.chain, lambda r, i: progcheck.prog_case(r, i, kws=checks.c06.KWS),
        lambda r, i: progcheck.prog_case(r, i, kws=({}, dict(funcs=(8, 14)), dict(trap=0.05)))]


def case(r, i):
    if i % 200 == 7:
        return checks.c02.tail_chain(r, 3000)
    return GENS[i % len(GENS)](r, i)


def fix(cs):
    """Plain bytes only."""
    out = []
    for s in cs:
        s = dict(s)
        s.pop('ref', None)
        if isinstance(s.get('bytes'), tuple):
            s['bytes'] = s['bytes'][0]
        out.append(s)
    return out


def waits():
    """Waits which expire while they are interrupted again and again."""
    m = W.Module()
    m.memory(1, 1, shared=True)
    for n, op, t in (('w32', 1, I32), ('w64', 2, I64)):
        m.efunc(n, [I32, t, I64], [I32], [], lget(0) + lget(1) + lget(2) + W.fe(op) + W.memarg(2 if op == 1 else 3, 0))
    m.efunc('notify', [I32, I32], [I32], [], lget(0) + lget(1) + W.fe(0) + W.memarg(2, 0))
    b = m.encode()
    out = []
    for ms in (0, 1, 20, 60, 700):
        for f in ('w32', 'w64'):
            t = I32 if f == 'w32' else I64
            out.append((ms, [diff.load('m', b), diff.invoke('m', f, [(I32, 8), (t, 0), (I64, ms * 1000000)], [I32]),
                             diff.invoke('m', f, [(I32, 8), (t, 1), (I64, (1 << 64) - 1)], [I32]),
                             diff.invoke('m', 'notify', [(I32, 8), (I32, 5)], [I32]),
                             diff.invoke('m', f, [(I32, 6), (t, 0), (I64, 0)], [I32]),
                             diff.invoke('m', f, [(I32, 65536), (t, 0), (I64, 0)], [I32])]))
    return out


def polls():
    """Sleeps, polls and blocking reads made through every kind of call."""
    m = W.Module()
    w = 'wasi_snapshot_preview1'
    poll = m.import_func(w, 'poll_oneoff', [I32] * 4, [I32])
    read = m.import_func(w, 'fd_read', [I32] * 4, [I32])
    clock = m.import_func(w, 'clock_time_get', [I32, I64, I32], [I32])
    m.export('memory', 2, m.memory(1, 1))
    m.table(W.FUNCREF, 4)
    t4 = m.type([I32] * 4, [I32])
    gi = m.global_(I32, True, W.i32c(0))
    gj = m.global_(I32, True, W.i32c(0))
    m.elems.append(b'\0' + W.i32c(0) + W.END + W.vec([W.leb_u(poll), W.leb_u(read)]))
    A = b''.join(lget(i) for i in range(4))
    inc = lambda g: W.gget(g) + W.i32c(1) + b'\x6a' + W.gset(g)    # noqa: E731
    vias = {}
    for k, imp in (('p', poll), ('r', read)):
        vias[k, 'call'] = imp
        vias[k, 'ret'] = m.func([I32] * 4, [I32], [], inc(gi) + A + b'\x12' + W.leb_u(imp))
        vias[k, 'ind'] = m.func([I32] * 4, [I32], [], inc(gi) + A + W.i32c(imp) + b'\x11' + W.leb_u(t4) + b'\0' + inc(gj))
        vias[k, 'rind'] = m.func([I32] * 4, [I32], [], inc(gi) + A + W.i32c(imp) + b'\x13' + W.leb_u(t4) + b'\0')
        vias[k, 'try'] = m.func([I32] * 4, [I32], [], b'\x02\x40\x1f\x40\1\2\0' + inc(gi) + A + W.call(imp) + b'\x0f\x0b\x0b' + W.i32c(99))
        vias[k, 'ret2'] = m.func([I32] * 4, [I32], [], inc(gi) + A + b'\x12' + W.leb_u(vias[k, 'ret']))
    now = W.i32c(1) + W.i64c(1) + W.i32c(512) + W.call(clock) + b'\x1a' + W.i32c(512) + b'\x29' + W.memarg(3, 0)
    for (k, v), f in vias.items():
        # elapsed time, error code, effects before, effects after
        m.efunc(k + v, [I32] * 4, [I64, I32, I32, I32], [I64, I32], now + lset(4) + A + W.call(f) + lset(5) + now + lget(4) + b'\x7d' +
                lget(5) + W.gget(gi) + W.gget(gj))
    for n, t, o in (('p8', I32, b'\x2d\0'), ('p16', I32, b'\x2f\0'), ('p32', I32, b'\x28\0'), ('p64', I64, b'\x29\0')):
        m.efunc(n, [I32], [t], [], lget(0) + o + b'\0')
    m.efunc('st', [I32, I64], [], [], lget(0) + lget(1) + b'\x37\0\0')
    b = m.encode()
    out = []
    for v in ('call', 'ret', 'ind', 'rind', 'try', 'ret2'):
        for ms in (0, 30, 250, 700):
            # a subscription: a clock, and with x a descriptor which gets ready
            for x in ((), ('in',)):
                st = [diff.load('m', b)]
                words = [11, 0, 1, ms * 1000000, 0, 0]
                if x:
                    words += [22, 1, 0, 0, 0, 0]
                st += [diff.invoke('m', 'st', [(I32, 64 + 8 * i), (I64, q)]) for i, q in enumerate(words)]
                st.append(diff.invoke('m', 'p' + v, [(I32, 64), (I32, 256), (I32, 2 if x else 1), (I32, 240)], [I64, I32, I32, I32]))
                st += [diff.invoke('m', 'p32', [(I32, 240)], [I32]), diff.invoke('m', 'p64', [(I32, 256)], [I64]),
                       diff.invoke('m', 'p16', [(I32, 264)], [I32]), diff.invoke('m', 'p8', [(I32, 266)], [I32])]
                out.append((v, 'poll+read' if x else 'sleep', ms, st))
        # reads: the stream comes a byte at a time
        st = [diff.load('m', b), diff.invoke('m', 'st', [(I32, 64), (I64, 300 | 7 << 32)])]
        for i in range(12):
            st.append(diff.invoke('m', 'r' + v, [(I32, 0), (I32, 64), (I32, 1), (I32, 240)], [I64, I32, I32, I32]))
            st += [diff.invoke('m', 'p32', [(I32, 240)], [I32]), diff.invoke('m', 'p64', [(I32, 300)], [I64])]
        out.append((v, 'read', 0, st))
    return out


INC = dict(call=(0, 0), ret=(1, 0), ind=(1, 1), rind=(1, 0), ret2=(2, 0))
INC['try'] = (1, 0)


def poll_problem(v, what, ms, got, gap):
    """What is wrong with the outcomes of a case of polls()."""
    def vals(s):
        return [int(x.split(':')[0]) for x in s[3:].split(', ')] if s.startswith('ok:') and len(s) > 3 else s
    if got[0] != 'ok':
        return f'load: {got[0]}'
    if what != 'read':
        k = len(got) - 5
        x = vals(got[k])
        if isinstance(x, str):
            return x
        el, e, gi, gj = x
        if e:
            return f'error {e}'
        if (gi, gj) != INC[v]:
            return f'effects around the call: {(gi, gj)}, want {INC[v]}'
        n, u, er, ty = (vals(z)[0] for z in got[k + 1:])
        if n < 1 or er or (u, ty) not in ([(11, 0)] if what == 'sleep' else [(11, 0), (22, 1)]):
            return f'events {n}, first user data {u} type {ty} error {er}'
        if u == 11 and el < ms * 1000000:
            return f'timer of {ms} ms fired after {el / 1e6:.2f} ms'
        if el > (ms if what == 'sleep' else min(ms, gap)) * 1000000 + 1500000000:
            return f'late: {el / 1e6:.0f} ms for {ms} ms'
        return None
    data, cnt = b'', 0
    for i in range(12):
        x = vals(got[2 + 3 * i])
        if isinstance(x, str):
            return x
        cnt += 1
        if x[1]:
            return f'error {x[1]}'
        if (x[2], x[3]) != tuple(cnt * q for q in INC[v]):
            return f'effects around call {cnt}: {x[2:]}'
        n = vals(got[3 + 3 * i])[0]
        data += vals(got[4 + 3 * i])[0].to_bytes(8, 'little')[:n]
    return None if data == b'abcdefghij' else f'read {data}'


def wasi_calls(c):
    """Blocking WASI calls interrupted again and again."""
    gap = 40
    cases = polls()
    seen = 0
    for cfg in ('rel', 'dbg', 'asan'):
        ex = runner.wasi_exe(cfg)
        for opts in ([f'wasi={gap}'], [f'wasi={gap}', 'tick=1'], [f'wasi={gap}', 'tick=7'])[0 if cfg == 'rel' else 1:]:
            todo = list(range(len(cases)))
            for rnd in range(2):
                got, ctr = runner.run(ex, [cases[i][3] for i in todo], opts, watchdog=40)
                again = []
                for i, g, k in zip(todo, got, ctr):
                    v, what, ms, st = cases[i]
                    if g is None:
                        continue
                    if isinstance(g[0], dict):
                        p = g[0]['crash']['kind'] + ' ' + g[0]['crash']['summary']
                    else:
                        p = poll_problem(v, what, ms, g, gap)
                    if rnd == 0:
                        c.evaluations += 1
                        seen += k[0] if k else 0
                        c.distinct(('wasi', cfg, v, what, ms, opts[-1]))
                    if p and p.startswith(('late', 'hang')) and rnd == 0:
                        again.append(i)
                    elif p:
                        c.violation(f'wasi:{cfg}:{what}:{v}:{p.split(" ")[0]}', f'{cfg} {opts} {what} through {v}, {ms} ms: {p}', dict(case=diff.show(st), got=g))
                todo = again
                if not todo:
                    break
            if c.violations:
                return
    c.coverage['interrupts_of_wasi_calls'] = seen
    c.log(f'{len(cases)} histories of blocking calls, {seen} interrupts')
    if not seen:
        raise RuntimeError('no WASI call was interrupted')


def main(c):
    build.build_many(['asan', 'rel', 'dbg'])
    exe = {k: runner.exe(k) for k in ('rel', 'asan', 'dbg')}
    c.rule = 'distinct (module, outcome list) of histories interrupted at least once'
    n = c.scale(3000, 40000)
    B = 6000
    tot = 0
    for lo in range(0, n, B):
        cases = [fix(x) for x in progcheck.pgen('checks.c13', 'case', f'C13:{c.seed}:{lo}', min(B, n - lo))]
        base, _ = runner.run(exe['rel'], cases)
        c.log(f'{len(cases)} histories, uninterrupted')
        for cfg, seed, cnt in [('rel', c.seed * 100 + 1, len(cases)), ('rel', c.seed * 100 + 2, len(cases)), ('asan', c.seed * 100 + 3, len(cases) // 3),
                               ('dbg', c.seed * 100 + 4, len(cases))] + ([] if c.quick() else [('rel', c.seed * 100 + 5 + k, len(cases)) for k in range(6)]):
            got, ctr = runner.run(exe[cfg], cases[:cnt], [f'intr={seed}'])
            nb = 0
            for i, (a, b, k) in enumerate(zip(base, got, ctr)):
                if a is None or b is None:
                    continue
                if isinstance(b[0], dict):
                    if isinstance(a[0], dict):
                        continue
                    c.violation(f'{cfg}:crash:{b[0]["crash"]["summary"][:100]}', f'interrupted run: {b[0]["crash"]["kind"]} {b[0]["crash"]["summary"]}',
                                dict(case=diff.show(cases[i]), seed=seed, info=b[0]['crash']))
                    nb += 1
                    continue
                c.evaluations += len(b)
                tot += k[0]
                if k[0]:
                    c.distinct((cases[i][0].get('bytes'), tuple(b)))
                if a != b:
                    d = next(j for j in range(len(cases[i])) if j >= len(a) or j >= len(b) or a[j] != b[j])
                    nb += 1
                    c.violation(f'{cfg}:{i}:{d}', f'step {d} {cases[i][d]["op"]} {cases[i][d].get("func", "")}: uninterrupted {a[d:d + 1]} interrupted {b[d:d + 1]}',
                                dict(case=diff.show(cases[i]), seed=seed, uninterrupted=a, interrupted=b))
            c.log(f'{cfg} seed {seed}: {sum(1 for x in got if x is not None)} histories interrupted, {nb} differ')
            if c.violations:
                return
    c.coverage['interrupts'] = tot
    wasi_calls(c)
    # waits keep their deadline over interruptions
    ws = waits()
    for cfg in ('rel', 'asan'):
        for ms, cs in ws:
            for _ in range(2):
                t0 = time.monotonic()
                a, k = runner.run(exe[cfg], [cs], ['tick=3'], watchdog=60)
                el = (time.monotonic() - t0) * 1000
                if el < ms * 2 + 3000:
                    break
            else:
                c.violation(f'wait:{cfg}:late:{ms}', f'interrupted wait of {ms} ms took {el:.1f} ms, twice', dict(case=diff.show(cs)))
            want = ['ok', 'ok:2:i32', 'ok:1:i32', 'ok:0:i32', 'trap:18', 'trap:4']
            got = a[0]
            c.evaluations += 1
            if isinstance(got[0], dict):
                c.violation(f'wait:{cfg}:crash', f'wait {ms} ms: {got[0]["crash"]["summary"]}', dict(info=got[0]['crash']))
                continue
            if [x if not x.startswith('trap') else 'trap' for x in got] != [x if not x.startswith('trap') else 'trap' for x in want]:
                c.violation(f'wait:{cfg}:{ms}', f'interrupted wait of {ms} ms: {got}, expected {want}', dict(case=diff.show(cs)))
            if el < ms:
                c.violation(f'wait:{cfg}:early:{ms}', f'interrupted wait of {ms} ms took only {el:.1f} ms', dict(case=diff.show(cs)))
            c.coverage.setdefault('wait_interrupts', []).append(k[0][0] if k[0] else None)
    c.sample(dict(case=diff.show(cases[1])[:4], outcome=base[1][:6]))
    if not tot:
        raise RuntimeError('no interrupt was delivered')


if __name__ == '__main__':
    run_check('C13', main)
