"""C16: wait and notify.  Every wait and notify of stress guests is recorded with
times; the log must balance: wakeups reported by notifies are those waits
report, no early timeout, no lost or invented wakeup."""
import os
import struct
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, guest, threads  # noqa: E402
from vp.common import run_check  # noqa: E402

REC = struct.Struct('<II3q2Q')
SLACK = 50_000          # ns: wait and clock_time_get may use different clocks


def judge(mode, T, recs):
    """Problems in one log, and counts of what was seen."""
    bad = []
    mode %= 10
    woken, notified = {}, {}
    n = dict(ok=0, ne=0, timeout=0, notify0=0, notify=0, multi=0, grows=0)
    if mode == 4:
        # the value changes while the waits are blocked, and nobody is
        # notified: they go on to their timeouts.  One that has not begun
        # when the value changes is not equal; the store comes 100 ms after
        # the last announced its wait, so few of them are.
        for kind, addr, a, b, res, t0, t1 in recs:
            if kind < 2:
                n[('ok', 'ne', 'timeout')[res]] += 1
                if res == 0:
                    bad.append(f'woken by nobody: cell {addr}')
                elif res == 2 and t1 - t0 + SLACK + b // 1000 < b:
                    bad.append(f'timed out too early: cell {addr} {b} ({(t1 - t0) / 1e3:.1f} us)')
            elif kind == 3:
                n['grows'] += res
        if n['ne'] > (n['ne'] + n['timeout']) // 2:
            bad.append(f'value change ended waits: {n["ne"]} of {n["ne"] + n["timeout"]} waits returned not-equal after the value changed')
        return bad, n
    iv = {}
    for kind, addr, a, b, res, t0, t1 in recs:
        if kind == 3:
            n['grows'] += res
            continue
        e = f'kind {kind} cell {addr} {a} {b} -> {res} ({(t1 - t0) / 1e3:.1f} us)'
        if kind == 2:
            if not 0 <= res <= a & 0xffffffff:
                bad.append(f'notify woke more than asked: {e}')
            notified[addr] = notified.get(addr, 0) + res
            n['notify' if res else 'notify0'] += 1
            n['multi'] += res > 1
            continue
        if res not in (0, 1, 2):
            bad.append(f'bad result: {e}')
            continue
        n[('ok', 'ne', 'timeout')[res]] += 1
        if mode != 2:
            # the cells hold 0
            if (a != 0) != (res == 1):
                bad.append(f'wrong not-equal decision: {e}')
        if res == 2:
            if b < 0:
                bad.append(f'an unlimited wait timed out: {e}')
            elif t1 - t0 + SLACK + b // 1000 < b:
                bad.append(f'timed out too early: {e}')
            elif mode in (1, 2):
                bad.append(f'lost wakeup: {e}')
            elif t1 - t0 > b + 10_000_000_000:
                bad.append(f'timed out far too late: {e}')
        elif res == 1 and t1 - t0 > 10_000_000_000:
            bad.append(f'not-equal took long: {e}')
        elif res == 0:
            if mode == 3:
                bad.append(f'woken by nobody: {e}')
            woken[addr] = woken.get(addr, 0) + 1
            iv.setdefault(addr, []).append((t0, t1))
    if mode != 2:
        for k in sorted(set(woken) | set(notified)):
            if woken.get(k, 0) != notified.get(k, 0):
                bad.append(f'cell {k}: notifies report {notified.get(k, 0)} wakeups, waits {woken.get(k, 0)}')
        # a wakeup needs a notify overlapping or inside the wait
        nt = {}
        for kind, addr, a, b, res, t0, t1 in recs:
            if kind == 2 and res:
                nt.setdefault(addr, []).append((t0, t1, res))
        for k, l in iv.items():
            for t0, t1 in l:
                if not any(x0 <= t1 and x1 >= t0 for x0, x1, _ in nt.get(k, [])):
                    bad.append(f'cell {k}: woken in {t0}..{t1} with no notify in that time')
                    break
            for x0, x1, r in nt.get(k, []):
                if sum(x0 <= t1 and x1 >= t0 for t0, t1 in l) < r:
                    bad.append(f'cell {k}: notify in {x0}..{x1} reports {r} wakeups, fewer waits overlap it')
                    break
    return bad, n


def main(c):
    build.build_many(['asan', 'rel', 'tsan'])
    c.rule = 'distinct combinations of mode, number of threads and the counts of woken, not-equal, timed out, empty and multiple notifies seen'
    w = guest.wasm('futex')
    jobs = []
    for i in range(c.scale(20, 200)):
        s = c.seed * 1000 + i
        for mode, T, N in ((0, [2, 4, 8, 13][i % 4], [800, 1500][i % 2]), (1, [2, 3, 8, 12][i % 4], 120), (2, [2, 3, 4, 8][i % 4], 400), (3, 6, 5),
                           (10, 4, 150), (11, 5, 40), (12, 3, 120), (13, 4, 4), (4, 7, 2), (14, 7, 2)):
            for cfg in ('rel', 'tsan', 'asan'):
                if mode % 10 == 3 and cfg != 'rel' and i % 4:
                    continue
                if mode % 10 == 4 and (cfg != 'rel' or i % 5):
                    continue
                n = N if cfg == 'rel' or mode % 10 in (3, 4) else N // 3
                jobs.append((f'mode{mode}', cfg, ['--wasi', w, str(mode), str(s), str(T), str(n)],
                             dict(timeout=120, cpus='0-1' if i % 5 == 4 else None)))
    jobs.sort(key=lambda j: j[0] not in ('mode3', 'mode13', 'mode4', 'mode14'))
    tot = {}
    for tag, cfg, args, r in threads.many(jobs, 6):
        if threads.bad(c, tag, cfg, args, r):
            continue
        mode, seed, T, N = map(int, args[2:6])
        if r.rc != 0 or len(r.out) % REC.size:
            c.violation(f'{tag}:{cfg}:status', f'{cfg} {args[2:]} ended with status {r.rc}: {r.err[-300:]}', dict(args=args, err=r.err[-4000:]))
            continue
        recs = list(REC.iter_unpack(r.out))
        bad, n = judge(mode, T, recs)
        c.evaluations += len(recs)
        c.distinct((mode, T, cfg) + tuple(n.values()))
        for k, v in n.items():
            tot[f'mode{mode}_{k}'] = tot.get(f'mode{mode}_{k}', 0) + v
        if bad:
            c.violation(f'{tag}:{cfg}:{bad[0].split(":")[0][:40].replace(" ", "-")}', f'{cfg} {args[2:]}: {len(bad)} problems, first: {bad[0]}', dict(args=args, problems=bad[:50], log=recs[:3000]))
    c.coverage['seen'] = tot
    c.log(f'{len(jobs)} runs: {tot}')
    if not c.violations and not all(tot.get(k) for k in ('mode0_ok', 'mode0_ne', 'mode0_timeout', 'mode0_multi', 'mode1_ok', 'mode1_multi', 'mode2_ok', 'mode3_timeout', 'mode4_timeout', 'mode10_grows')):
        raise RuntimeError(f'some outcomes were never seen: {tot}')


if __name__ == '__main__':
    run_check('C16', main)
