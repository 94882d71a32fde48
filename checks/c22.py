"""C22: clocks, polling, blocking reads and writes: see vp/poll.py."""
import multiprocessing as mp
import os
import shutil
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, guest, poll  # noqa: E402
from vp.common import run_check, scratch_dir  # noqa: E402


def one(job):
    kind, cfg, cli, seed, grow, base = job
    for attempt in range(3):
        d = f'{base}/{kind}{cfg}{seed}.{attempt}'
        os.mkdir(d)
        try:
            if kind == 'poll':
                p = poll.Polls(cli, d, seed, grow)
                p.run(12)
                return p.events, None, None
            if kind == 'xfer':
                return poll.transfer(cli, d, seed, grow), None, None
            raise AssertionError
        except poll.Late as e:
            late = e
        except poll.Fail as e:
            err = ''
            if os.path.exists(d + '/err'):
                with open(d + '/err', errors='replace') as f:
                    err = f.read()[-6000:]
            return {}, str(e), err
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return {}, f'late in three runs: {late}', ''


def res(c, cli, cfg, base):
    """resolutions"""
    d = f'{base}/res{cfg}'
    os.makedirs(d)
    g = poll.Guest(cli, d, [x for i in range(4) for x in (5, i, 4, i)] + [5, 9, 4, 9, 10, 300000, 4, 2, 4, 3, 0], -3)
    try:
        g.finish()
        if g.p.returncode:
            c.violation('res', f'{cfg}: exit status {g.p.returncode} {g.stderr()[-300:]}')
            return
        log = g.log()
        ids = (time.CLOCK_REALTIME, time.CLOCK_MONOTONIC, time.CLOCK_PROCESS_CPUTIME_ID, time.CLOCK_THREAD_CPUTIME_ID)
        before = {}
        for i in range(4):
            op, e, v = log.ws(3)
            want = round(time.clock_getres(ids[i]) * 1e9)
            if (op, e) != (5, 0) or v != want:
                c.violation('resolution', f'{cfg}: clock_res_get({i}) gave {e} {v}, expected {want}')
            op, e, before[i] = log.ws(3)
            if e:
                c.violation('clock', f'{cfg}: clock_time_get({i}) gave {e}')
            c.evaluations += 1
        for _ in range(2):
            op, e, v = log.ws(3)
            if e == 0:
                c.violation('badclock', f'{cfg}: clock 9 exists')
        for i in (2, 3):
            op, e, v = log.ws(3)
            if e or not before[i] < v < before[i] + 60_000_000_000:
                c.violation('cputime', f'{cfg}: cpu clock {i} went from {before[i]} to {v} in a busy loop')
    finally:
        g.kill()
        shutil.rmtree(d, ignore_errors=True)


def main(c):
    c.rule = 'distinct kinds of event by build and schedule class (events seen in polls, kinds of transfer)'
    cfgs = ['asan', 'dbg', 'rel', 'tsan']
    build.build_many(cfgs)
    clis = {k: build.cli(k) for k in cfgs}
    guest.wasm('poll')
    base = scratch_dir()
    for k in cfgs[:3]:
        res(c, clis[k], k, base)
    jobs = []
    for i in range(c.scale(240, 4000)):
        k = cfgs[i % 4]
        jobs.append(('poll', k, clis[k], c.seed * 100000 + i, i % 3 == 0, base))
    for i in range(c.scale(120, 2000)):
        k = cfgs[i % 4]
        jobs.append(('xfer', k, clis[k], c.seed * 100000 + i, i % 3 == 0, base))
    tot = {}
    with mp.get_context('fork').Pool(20) as pool:
        for job, (ev, bad, err) in zip(jobs, pool.imap(one, jobs)):
            for k, n in ev.items():
                tot[k] = tot.get(k, 0) + n
                c.distinct((job[1], job[4], k))
            c.evaluations += sum(ev.values()) if job[0] == 'poll' else 1
            if bad:
                c.violation(f'{job[0]}:{bad[:60]}', f'{job[0]} {job[1]} seed {job[3]} grow {job[4]}: {bad}',
                            dict(kind=job[0], config=job[1], seed=job[3], grow=job[4], what=bad, stderr=err))
    c.coverage['seen'] = tot
    c.sample(tot)
    for k in ('timer', 'read ready', 'write ready', 'hangup', 'blocked read', 'clock', 'pipe bytes in', 'listen bytes out', 'socketpair bytes in'):
        if not tot.get(k) and not c.violations:
            raise RuntimeError('nothing seen of ' + k)


if __name__ == '__main__':
    run_check('C22', main)
