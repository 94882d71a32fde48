"""C18: wasi-threads.  Every spawn and thread start is recorded with a logical
clock and matched offline; programs busy in many ways are ended by one of their
threads and the status must be that thread's; failing spawns run nothing."""
import os
import struct
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, guest, threads  # noqa: E402
from vp.common import run_check, scratch_dir  # noqa: E402

REC = struct.Struct('<IiiIQQ')
ACTIONS = {0: 'unreachable', 1: 'proc_exit', 2: 'return from main', 3: 'division by zero', 4: 'out of bounds store', 5: 'two proc_exits', 6: 'return from thread', 7: 'bad indirect call'}
TRAPS = {0: 'unreachable', 3: 'divide by zero', 4: 'out of bounds memory access', 7: 'undefined element'}


def judge_tree(recs):
    bad = []
    spawned, started = {}, {}
    for kind, tid, arg, _, t0, t1 in recs:
        if kind == 1:
            spawned[arg * 2654435761 & 0xffffffff] = (tid, t0, t1)
        else:
            if arg & 0xffffffff in started:
                bad.append(f'the thread with argument {arg} was started twice')
            started[arg & 0xffffffff] = (tid, t0, t1)
    for a, (tid, t0, t1) in spawned.items():
        if tid < 0:
            if a in started:
                bad.append(f'spawn of {a:#x} failed with {tid} but the thread ran')
        elif not 0 < tid <= 0x1fffffff:
            bad.append(f'thread id {tid}')
        elif a not in started:
            bad.append(f'thread {tid} with argument {a:#x} never started')
        elif started[a][0] != tid:
            bad.append(f'spawn returned {tid} but the thread got {started[a][0]}')
        elif started[a][1] < t0:
            bad.append(f'thread {tid} started before it was spawned')
    for a in set(started) - set(spawned):
        bad.append(f'a thread with argument {a:#x}, which nobody spawned')
    by = {}
    for a, (tid, t0, t1) in started.items():
        by.setdefault(tid, []).append((t0, t1))
    reused = 0
    for tid, l in by.items():
        l.sort()
        reused += len(l) - 1
        for (a0, a1), (b0, b1) in zip(l, l[1:]):
            if b0 < a1:
                bad.append(f'two live threads had id {tid}')
    ev = sorted([(t0, 1) for t0, t1 in started_iv(started)] + [(t1, -1) for t0, t1 in started_iv(started)])
    cur = peak = 0
    for _, d in ev:
        cur += d
        peak = max(peak, cur)
    failed = sum(t < 0 for t, _, _ in spawned.values())
    return bad, dict(threads=len(started), reused_ids=reused, peak=peak, failed_spawns=failed)


def started_iv(started):
    return [(t0, t1) for _, t0, t1 in started.values()]


MODS = {
    # name: (wat, expected stdout-free status)
    'no-entry': """(module (import "wasi" "thread-spawn" (func $s (param i32) (result i32)))
      (import "wasi_snapshot_preview1" "proc_exit" (func $x (param i32)))
      (import "foo" "memory" (memory 1 1 shared)) (export "memory" (memory 0))
      (func (export "_start") (call $x (select (i32.const 7) (i32.const 8) (i32.lt_s (call $s (i32.const 5)) (i32.const 0))))))""",
    'wrong-entry-type': """(module (import "wasi" "thread-spawn" (func $s (param i32) (result i32)))
      (import "wasi_snapshot_preview1" "proc_exit" (func $x (param i32)))
      (import "foo" "memory" (memory 1 1 shared)) (export "memory" (memory 0))
      (func (export "wasi_thread_start") (param i32 i64) (call $x (i32.const 9)))
      (func (export "_start") (call $x (select (i32.const 7) (i32.const 8) (i32.lt_s (call $s (i32.const 5)) (i32.const 0))))))""",
    'start-traps': """(module (import "wasi" "thread-spawn" (func $s (param i32) (result i32)))
      (import "wasi_snapshot_preview1" "proc_exit" (func $x (param i32)))
      (import "foo" "memory" (memory 1 1 shared)) (export "memory" (memory 0))
      (func $start (if (i32.atomic.rmw.add (i32.const 64) (i32.const 1)) (then unreachable)))
      (start $start)
      (func (export "wasi_thread_start") (param i32 i32) (call $x (i32.const 9)))
      (func (export "_start")
        (local $i i32)
        (loop $l
          (if (i32.ge_s (call $s (local.get $i)) (i32.const 0)) (then (call $x (i32.const 8))))
          (br_if $l (i32.lt_u (local.tee $i (i32.add (local.get $i) (i32.const 1))) (i32.const 50))))
        ;; the start function ran for each of them
        (call $x (select (i32.const 7) (i32.const 10) (i32.eq (i32.atomic.load (i32.const 64)) (i32.const 51))))))""",
    'start-works': """(module (import "wasi" "thread-spawn" (func $s (param i32) (result i32)))
      (import "wasi_snapshot_preview1" "proc_exit" (func $x (param i32)))
      (import "foo" "memory" (memory 1 1 shared)) (export "memory" (memory 0))
      (global $g (mut i32) (i32.const 3))
      (func $start (local $k i32)
        (loop $l (br_if $l (i32.lt_u (local.tee $k (i32.add (local.get $k) (i32.const 1))) (i32.const 3000))))
        (global.set $g (i32.add (global.get $g) (i32.const 1)))
        (drop (i32.atomic.rmw.add (i32.const 64) (i32.const 1))))
      (start $start)
      ;; each thread has globals of its own
      (func (export "wasi_thread_start") (param i32 i32)
        (if (i32.ne (global.get $g) (i32.const 4)) (then (call $x (i32.const 9))))
        (global.set $g (local.get 0))
        (drop (i32.atomic.rmw.add (i32.const 68) (i32.const 1)))
        (drop (memory.atomic.notify (i32.const 68) (i32.const 1))))
      (func (export "_start")
        (local $i i32)
        (global.set $g (i32.const 77))
        (loop $l
          (if (i32.le_s (call $s (local.get $i)) (i32.const 0)) (then (call $x (i32.const 8))))
          (br_if $l (i32.lt_u (local.tee $i (i32.add (local.get $i) (i32.const 1))) (i32.const 40))))
        (loop $w
          (local.set $i (i32.atomic.load (i32.const 68)))
          (if (i32.lt_u (local.get $i) (i32.const 40)) (then
            (drop (memory.atomic.wait32 (i32.const 68) (local.get $i) (i64.const 1000000)))
            (br $w))))
        (call $x (select (i32.const 7) (i32.const 10)
          (i32.and (i32.eq (global.get $g) (i32.const 77)) (i32.eq (i32.atomic.load (i32.const 64)) (i32.const 41)))))))""",
}
# all the ways thread-spawn can be imported
for _n, _imp, _call in (
        ('abi-result-struct', '"thread-spawn" (func $s (param i32 i32))',
         '(call $s (i32.const 1234) (i32.const 128)) (if (i32.load8_u (i32.const 128)) (then (call $x (i32.const 8)))) (local.set $i (i32.load (i32.const 132)))'),
        ('abi-tid', '"thread-spawn" (func $s (param i32) (result i32))', '(local.set $i (call $s (i32.const 1234)))'),
        ('abi-old-name', '"thread_spawn" (func $s (param i32) (result i32))', '(local.set $i (call $s (i32.const 1234)))')):
    MODS[_n] = f"""(module (import "wasi" {_imp})
      (import "wasi_snapshot_preview1" "proc_exit" (func $x (param i32)))
      (import "foo" "memory" (memory 1 1 shared)) (export "memory" (memory 0))
      (func (export "wasi_thread_start") (param i32 i32)
        (if (i32.ne (local.get 1) (i32.const 1234)) (then (call $x (i32.const 9))))
        (i32.atomic.store (i32.const 64) (local.get 0)))
      (func (export "_start") (local $i i32)
        {_call}
        (loop $w (br_if $w (i32.eqz (i32.atomic.load (i32.const 64)))))
        (call $x (select (i32.const 7) (i32.const 10) (i32.eq (local.get $i) (i32.atomic.load (i32.const 64)))))))"""

# the end of one thread only, from within calls
_head = '''(module (import "wasi" "thread-spawn" (func $s (param i32) (result i32))) (import "wasi" "thread_exit" (func $e))
      (import "wasi_snapshot_preview1" "proc_exit" (func $x (param i32)))
      (import "foo" "memory" (memory 1 1 shared)) (export "memory" (memory 0))
      (func $deep (param i32) (if (local.get 0) (then (call $deep (i32.sub (local.get 0) (i32.const 1)))) (else (call $e))) (call $x (i32.const 8)))'''
MODS['thread-exit'] = _head + '''
      (func (export "wasi_thread_start") (param i32 i32)
        (drop (i32.atomic.rmw.add (i32.const 64) (i32.const 1)))
        (call $deep (local.get 1)))
      (func (export "_start") (local $i i32)
        (loop $l
          (drop (call $s (i32.and (local.get $i) (i32.const 15))))
          (loop $w (br_if $w (i32.le_u (i32.atomic.load (i32.const 64)) (local.get $i))))
          (br_if $l (i32.lt_u (local.tee $i (i32.add (local.get $i) (i32.const 1))) (i32.const 40))))
        (call $x (i32.const 7))))'''
# of the main one: as if it had returned
MODS['main-thread-exit'] = _head + '''
      (func (export "wasi_thread_start") (param i32 i32)
        (i32.atomic.store (i32.const 64) (i32.const 1))
        (if (i32.eqz (local.get 1)) (then (loop $l (br $l)))))
      (func (export "_start")
        (drop (call $s (i32.const 0)))
        (drop (call $s (i32.const 1)))
        (loop $w (br_if $w (i32.eqz (i32.atomic.load (i32.const 64)))))
        (call $deep (i32.const 3))))'''


# and all the ways it can report a failure
for _n, _imp, _call in (
        ('struct', '"thread-spawn" (func $s0 (param i32 i32))',
         '(call $s0 (local.get 0) (i32.const 128)) (i32.sub (i32.const 0) (i32.load8_u (i32.const 128)))'),
        ('old-name', '"thread_spawn" (func $s0 (param i32) (result i32))', '(call $s0 (local.get 0))')):
    for _m in ('no-entry', 'wrong-entry-type', 'start-traps', 'start-works'):
        _o = '"thread-spawn" (func $s (param i32) (result i32))'
        assert _o in MODS[_m]
        _c = _call if _m != 'start-works' or _n != 'struct' else \
            _call + '(if (result i32) (then (i32.const -1)) (else (i32.load (i32.const 132))))'
        MODS[f'{_m}-{_n}'] = MODS[_m].replace(_o, _imp).rstrip()[:-1] + f' (func $s (param i32) (result i32) {_c}))'


def main(c):
    build.build_many(['asan', 'rel', 'tsan', 'dbg', 'v10'])
    c.rule = 'distinct ends (action, who, behaviours of the other threads) and distinct shapes of spawn trees (threads, peak, reuse of ids)'
    w = guest.wasm('spawn', initial=16 << 20)
    rfd, wfd = os.pipe()        # standard input which never has data
    cfgs = ('rel', 'tsan', 'asan', 'dbg')
    jobs = []
    for i in range(c.scale(20, 200)):
        s = c.seed * 1000 + i
        for cfg in cfgs:
            jobs.append(('tree', cfg, ['--wasi', w, 'tree', str(s), str([40, 12, 25][i % 3]), str([30, 120, 8][i % 3])], dict(timeout=90)))
    n = c.scale(400, 4000)
    rng = c.sub_rng('end')
    for i in range(n):
        s = rng.randrange(1 << 30)
        T = rng.choice([2, 3, 6, 12])
        act = i % 8
        who = 0 if act == 2 else rng.randrange(1 if act == 6 else 0, T)
        cd = rng.choice([0, 1, 2, 77, 100]) if act != 5 else rng.choice([3, 40])
        dl = rng.choice([0, 10, 500, 3000, 20000])
        jobs.append(('end', cfgs[(i // 8) % 4], ['--wasi', w, 'end', str(s), str(T), str(act), str(who), str(cd), str(dl)], dict(timeout=60, stdin=rfd)))
    # the scheduler of threads which are not the host's
    for i in range(c.scale(3, 12)):
        jobs.append(('tree', 'v10', ['--wasi', w, 'tree', str(c.seed * 1000 + i), '12', '30'], dict(timeout=90)))
    for i in range(c.scale(64, 400)):
        act = i % 8
        T = rng.choice([2, 3, 6, 12])
        cd = rng.choice([0, 1, 2, 77, 100]) if act != 5 else rng.choice([3, 40])
        jobs.append(('end', 'v10', ['--wasi', w, 'end', str(rng.randrange(1 << 30)), str(T), str(act),
                                    str(0 if act == 2 else rng.randrange(1 if act == 6 else 0, T)), str(cd), str(rng.choice([0, 10, 500, 3000]))],
                     dict(timeout=60, stdin=rfd)))
    jobs.append(('full', 'v10', ['--wasi', w, 'full', '60'], dict(timeout=60)))
    for k in range(c.scale(2, 12)):
        for cfg in ('rel', 'asan', 'tsan', 'dbg'):
            for m in (16 << 20) + 30000, (16 << 20) + 150000 + 7777 * k, (16 << 20) + 230000 + 3331 * k:
                jobs.append(('full-limit', cfg, ['--max-memory', str(m), '--wasi', w, 'full', '250'], dict(timeout=60)))
            jobs.append(('full', cfg, ['--wasi', w, 'full', '250'], dict(timeout=60)))
    d = scratch_dir()
    for name, wat in MODS.items():
        with open(f'{d}/{name}.wat', 'w') as f:
            f.write(wat)
        subprocess.run(['wat2wasm', '--enable-threads', f'{d}/{name}.wat', '-o', f'{d}/{name}.wasm'], check=True)
        for cfg in (*cfgs, 'v10'):
            for k in range(3):
                jobs.append((f'module {name}', cfg, ['--wasi', f'{d}/{name}.wasm'], dict(timeout=60)))
    # out of address space: creation of host threads fails
    wrap = f'{d}/small'
    with open(wrap, 'w') as f:
        f.write(f'#!/bin/sh\nulimit -v $((200 * 1024))\nexec {build.cli("rel")} "$@"\n')
    os.chmod(wrap, 0o755)
    jobs.append(('full-address-space', 'rel', ['--wasi', w, 'full', '250'], dict(timeout=60, binary=wrap)))
    seen = {}
    for tag, cfg, args, r in threads.many(jobs, 6):
        if threads.bad(c, tag, cfg, args, r):
            continue
        c.evaluations += 1
        rep = dict(args=args, rc=r.rc, out=r.out[-3000:].decode('latin1'), err=r.err[-3000:])
        if tag == 'tree':
            if r.rc or len(r.out) % REC.size or not r.out:
                c.violation(f'tree:{cfg}:status', f'{cfg} {args[2:]}: status {r.rc}, {r.err[-200:]}', rep)
                continue
            recs = list(REC.iter_unpack(r.out))
            bad, st = judge_tree(recs)
            c.distinct(('tree', cfg) + tuple(st.values()))
            for k, v in st.items():
                seen[k] = max(seen.get(k, 0), v) if k == 'peak' else seen.get(k, 0) + v
            if bad:
                rep['problems'] = bad
                c.violation(f'tree:{cfg}:{bad[0][:24]}', f'{cfg} {args[2:]}: {bad[0]}', rep)
        elif tag == 'end':
            s, T, act, who, cd, dl = map(int, args[3:9])
            out = r.out.decode('latin1')
            c.distinct(('end', act, who == 0, T, cfg, s))
            want = {1: (cd,), 2: (0,), 5: (cd, cd + 1), 6: (cd,)}.get(act)
            if want is not None:
                good = r.rc in want
            else:
                good = r.rc not in (0, cd) or (r.rc == cd == 1)
                good = good and r.rc > 0 and TRAPS[act] in out + r.err
            seen[ACTIONS[act]] = seen.get(ACTIONS[act], 0) + 1
            if not good:
                c.violation(f'end:{cfg}:{act}', f'{cfg} {args[2:]}: thread {who} of {T} did {ACTIONS[act]} (code {cd}), the process ended with {r.rc} {out[:100]!r}', rep)
        elif tag.startswith('module'):
            c.distinct((tag, cfg))
            want = 0 if tag == 'module main-thread-exit' else 7
            if r.rc != want:
                c.violation(f'{tag}:{cfg}', f'{cfg} {tag}: status {r.rc} instead of {want}', rep)
        else:
            rows = [tuple(map(int, x.split())) for x in r.out.decode('latin1').splitlines() if x and x[0].isdigit()]
            c.distinct((tag, cfg, tuple(rows)))
            # with a memory limit a thread may also fail later, which must end the process
            if any(a != b for a, _, b in rows):
                c.violation(f'{tag}:{cfg}:count', f'{cfg} {args}: threads spawned, failed, started: {rows}', rep)
            elif r.rc < 0 or r.rc == 0 and not r.out.endswith(b'end\n') or r.rc and tag != 'full-limit':
                c.violation(f'{tag}:{cfg}:status', f'{cfg} {args}: status {r.rc} {r.err[-200:]}', rep)
            if tag == 'full' and rows and any(x[1] for x in rows):
                c.violation(f'{tag}:{cfg}:failed', f'{cfg} {args}: spawns failed without a limit: {rows}', rep)
            seen['spawns_failed'] = seen.get('spawns_failed', 0) + sum(x[1] for x in rows)
    c.coverage.update(runs=len(jobs), seen=seen)
    c.log(f'{len(jobs)} runs: {seen}')
    os.close(rfd)
    os.close(wfd)
    if not c.violations and not (seen.get('reused_ids') and seen.get('spawns_failed') and seen.get('peak', 0) > 3):
        raise RuntimeError(f'not enough seen: {seen}')


if __name__ == '__main__':
    run_check('C18', main)
