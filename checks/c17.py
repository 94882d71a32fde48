"""C17: concurrent memory.grow.  Guests record every grow and size; the log must
be explainable by grows done one after another, pages must be zero and keep
their data, and everybody must get to the end."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, guest, threads  # noqa: E402
from vp.common import run_check, scratch_dir  # noqa: E402

FAIL = 0xffffffff


def judge(first, last, grows, sizes, limit):
    """grows: (thread, seq, old, delta), sizes: (thread, seq, size)."""
    bad = []
    ok = sorted((o, d) for _, _, o, d in grows if o != FAIL and d)
    cur = first
    for o, d in ok:
        if o != cur:
            bad.append(f'successful grows do not follow each other: old size {o} (delta {d}) where {cur} is due')
            break
        cur = o + d
    else:
        if cur != last:
            bad.append(f'grows add up to {cur} pages but the final size is {last}')
    ends = {first} | {o + d for o, d in ok}
    for t, i, s in sizes + [(t, i, o) for t, i, o, d in grows if o != FAIL and not d]:
        if s not in ends:
            bad.append(f'thread {t} saw a size of {s}, which no sequence of the grows has')
            break
    if last > limit:
        bad.append(f'final size {last} exceeds the maximum {limit}')
    for t, i, o, d in grows:
        if o == FAIL and last + d <= limit:
            bad.append(f'a grow by {d} failed although {last + d} <= {limit}')
            break
    prev = {}
    for t, i, s in sorted(sizes + [(t, i, o) for t, i, o, d in grows if o != FAIL]):
        if s < prev.get(t, 0):
            bad.append(f'thread {t} saw the size go from {prev[t]} to {s}')
            break
        prev[t] = s
    for t, i, o, d in grows:
        if o == FAIL:
            continue
        nxt = [s for t2, i2, s in sizes if t2 == t and i2 > i] + [o2 for t2, i2, o2, _ in grows if t2 == t and i2 > i and o2 != FAIL]
        if nxt and min(nxt) < o + d:
            bad.append(f'thread {t} grew to {o + d} and then saw {min(nxt)}')
            break
    return bad


STARTGROW = """(module (import "wasi" "thread-spawn" (func $s (param i32) (result i32)))
  (import "wasi_snapshot_preview1" "proc_exit" (func $x (param i32)))
  (import "foo" "memory" (memory 1 2000 shared)) (export "memory" (memory 0))
  ;; runs in each thread's instance while the others are at work
  (func $start (drop (memory.grow (i32.const 1))))
  (start $start)
  (func (export "wasi_thread_start") (param i32 i32)
    (if (i32.lt_u (local.get 1) (i32.const 3)) (then
      (loop $l
        (i32.store (i32.add (i32.const 1000) (i32.shl (local.get 1) (i32.const 8))) (i32.load (i32.const 1004)))
        (br_if $l (i32.ne (i32.atomic.load (i32.const 68)) (i32.const 40))))))
    (drop (i32.atomic.rmw.add (i32.const 64) (i32.const 1))))
  (func (export "_start") (local $i i32)
    (loop $l
      (if (i32.le_s (call $s (local.get $i)) (i32.const 0)) (then (call $x (i32.const 8))))
      (br_if $l (i32.lt_u (local.tee $i (i32.add (local.get $i) (i32.const 1))) (i32.const 60))))
    (i32.atomic.store (i32.const 68) (i32.const 40))
    (loop $w (br_if $w (i32.ne (i32.atomic.load (i32.const 64)) (i32.const 60))))
    (call $x (i32.add (i32.const 5) (i32.eq (memory.size) (i32.const 62))))))"""


def main(c):
    build.build_many(['asan', 'rel', 'tsan', 'dbg'])
    c.rule = 'distinct orders in which the threads of a run obtained their pages'
    jobs = []
    pages = 64 << 4
    w, wx = guest.wasm('grow'), guest.wasm('growexit')
    for i in range(c.scale(10, 100)):
        s = c.seed * 1000 + i
        for cfg, n in (('rel', 60), ('tsan', 25), ('asan', 30), ('dbg', 40)):
            T = [2, 3, 5, 8][i % 4]
            B = [0, 0, 1, 3][(i // 2) % 4]
            D = [1, 2, 12, 3][i % 4]
            jobs.append(('grow', cfg, ['--wasi', w, str(s), str(T), str(n // (1 + B)), str(B), str(D)],
                         dict(timeout=60, cpus='0-1' if i % 5 == 4 else None)))
            jobs.append(('growexit', cfg, ['--wasi', wx, str(s), str(n // 2)], dict(timeout=60, cpus=[None, '0', '0-2'][i % 3])))
    d = scratch_dir()
    with open(f'{d}/s.wat', 'w') as f:
        f.write(STARTGROW)
    subprocess.run(['wat2wasm', '--enable-threads', f'{d}/s.wat', '-o', f'{d}/s.wasm'], check=True)
    for i in range(c.scale(3, 20)):
        for cfg in ('rel', 'tsan', 'asan', 'dbg'):
            jobs.append(('startgrow', cfg, ['--wasi', f'{d}/s.wasm'], dict(timeout=60)))
    nfail = 0
    for tag, cfg, args, r in threads.many(jobs, 4):
        if threads.bad(c, tag, cfg, args, r):
            continue
        if tag == 'startgrow':
            c.evaluations += 1
            if r.rc != 6:
                c.violation(f'{tag}:{cfg}', f'{cfg} growth in start functions of threads: status {r.rc}, 6 expected', dict(args=args, err=r.err[-4000:], out=r.out.decode('latin1')))
            continue
        lines = r.out.decode().splitlines()
        if r.rc != 0 or not lines or not lines[-1].startswith('end '):
            c.violation(f'{tag}:{cfg}:status', f'{cfg} {args[2:]} ended with status {r.rc}: {r.err[-300:]}', dict(args=args, err=r.err[-4000:]))
            continue
        end = [int(x) for x in lines[-1].split()[1:]]
        if tag == 'growexit':
            grows = [(i, 0, int(l), 1) for i, l in enumerate(lines[:-1])]
            bad = judge(end[0], end[1], grows, [], pages)
            c.evaluations += len(grows)
        else:
            T, N = int(args[3]), int(args[4])
            recs = [tuple(map(int, l.split())) for l in lines[:-1]]
            grows = [(t, i, a, b) for i, (t, k, a, b) in enumerate(recs) if k == 0]
            sizes = [(t, i, a) for i, (t, k, a, b) in enumerate(recs) if k == 1]
            first, last, nonzero, lost, shrunk, badpage, ctr, busy = end
            bad = judge(first, last, grows, sizes, pages)
            for n, v in (('new pages with other bytes than zero', nonzero), ('lost writes', lost), ('sizes going down', shrunk), ('pages with changed data', badpage)):
                if v:
                    bad.append(f'{v} {n}')
            if ctr != T * N:
                bad.append(f'{ctr} atomic increments, {T * N} expected')
            c.evaluations += len(recs)
            c.distinct((T,) + tuple(t for o, t in sorted((o, t) for t, i, o, d in grows if o != FAIL and d)))
            nfail += sum(o == FAIL for _, _, o, _ in grows)
        if bad:
            c.violation(f'{tag}:{cfg}:{bad[0][:30]}', f'{cfg} {args[2:]}: {bad[0]}', dict(args=args, problems=bad, log=lines))
    c.coverage.update(runs=len(jobs), failed_grows=nfail)
    c.log(f'{len(jobs)} runs, {c.evaluations} grows and sizes, {nfail} failed grows')


if __name__ == '__main__':
    run_check('C17', main)
