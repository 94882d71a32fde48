"""C15: atomics.  Recorded histories of concurrent atomic operations are
checked for a sequential order; counters, locks and litmus tests for their
invariants; ThreadSanitizer watches the interpreter.  Single-thread sequences
of every atomic instruction are compared with V8."""
import multiprocessing as mp
import os
import struct
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import atomics, build, diff, guest, progcheck, threads  # noqa: E402
from vp.common import NPROC, run_check  # noqa: E402

REC = struct.Struct('<I4B5Q')
M64 = (1 << 64) - 1
NAMES = ['load', 'store', 'add', 'sub', 'and', 'or', 'xor', 'xchg', 'cmpxchg']


def apply(val, o):
    op, w, off, a, b = o[:5]
    sh, m = off * 8, (1 << (w * 8)) - 1
    old = val >> sh & m
    a &= m
    if op == 0:
        return old, val
    n = [0, a, old + a, old - a, old & a, old | a, old ^ a, a, a if old == b & m else old][op] & m
    return (0 if op == 1 else old), (val & ~(m << sh) & M64) | n << sh


def linearize(init, final, ths, stamp):
    """An order of the threads' operations explaining all results, or None.
    Without stamps program order is respected; with them real time as well."""
    n = len(ths)
    seen = set()
    end = tuple(len(t) for t in ths)

    def go(pos, val, path):
        if pos == end:
            return path if val == final else None
        k = (pos, val)
        if k in seen:
            return None
        seen.add(k)
        for i in range(n):
            if pos[i] == end[i]:
                continue
            o = ths[i][pos[i]]
            if stamp and any(j != i and pos[j] < end[j] and ths[j][pos[j]][7] < o[6] for j in range(n)):
                continue
            res, nv = apply(val, o)
            if res != o[5]:
                continue
            r = go(pos[:i] + (pos[i] + 1,) + pos[i + 1:], nv, path + (i,))
            if r is not None:
                return r
        return None
    return go((0,) * n, init, ())


def judge(a):
    """(number of rounds, operations, distinct orders, first problem)."""
    out, T, R, K, stamp = a
    if len(out) != R * 48 + T * R * K * REC.size:
        return R, 0, [], f'output of {len(out)} bytes', None
    cells0 = struct.unpack(f'<{3 * R}Q', out[:R * 24])
    cells1 = struct.unpack(f'<{3 * R}Q', out[-R * 24:])
    rounds = [[[] for _ in range(T)] for _ in range(R)]
    for rd, tid, op, w, off, x, y, res, t0, t1 in REC.iter_unpack(out[R * 24:-R * 24]):
        rounds[rd][tid].append((op, w, off, x, y, res, t0, t1))
    orders = set()
    for i, ths in enumerate(rounds):
        if cells0[3 * i] != cells1[3 * i] or cells0[3 * i + 2] != cells1[3 * i + 2]:
            return R, 0, orders, f'round {i}: a neighbouring word changed', ths
        o = linearize(cells0[3 * i + 1], cells1[3 * i + 1], ths, stamp)
        if o is None:
            return R, 0, orders, f'round {i}: no order of the operations explains the results (initial {cells0[3 * i + 1]:#x} final {cells1[3 * i + 1]:#x})', \
                [[(NAMES[x[0]], x[1] * 8, x[2]) + tuple(hex(v) for v in x[3:6]) + x[6:] for x in t] for t in ths]
        orders.add(o)
    return R, T * R * K, orders, None, None


def histories(c):
    w = guest.wasm('linear')
    jobs = []
    for i in range(c.scale(28, 150)):
        s = c.seed * 1000 + i
        T = [2, 3, 4, 4, 6][i % 5]
        K = {2: 6, 3: 4, 4: 3, 6: 2}[T]
        for cfg, R in (('rel', c.scale(2500, 6000)), ('tsan', 700), ('asan', 900)):
            jobs.append((f'history', cfg, ['--wasi', w, str(s), str(T), str(R), str(K), str(i & 1)],
                         dict(cpus='0-1' if i % 7 == 6 else None, timeout=120)))
    orders = set()
    runs = 0
    with mp.get_context('fork').Pool(NPROC) as pool:
        pend = []
        for tag, cfg, args, r in threads.many(jobs, 3):
            if threads.bad(c, tag, cfg, args, r):
                continue
            if r.rc != 0:
                c.violation(f'history:{cfg}:status', f'{cfg} {args[2:]} ended with status {r.rc}: {r.err[-300:]}', dict(args=args, err=r.err[-4000:]))
                continue
            T, R, K, stamp = map(int, args[3:7])
            pend.append((cfg, args, pool.apply_async(judge, ((r.out, T, R, K, stamp),))))
        for cfg, args, p in pend:
            R, ops, od, bad, hist = p.get(600)
            runs += 1
            c.evaluations += R
            orders |= {(args[3],) + o for o in od}
            c.coverage['atomic_operations'] = c.coverage.get('atomic_operations', 0) + ops
            if bad:
                c.violation(f'history:{cfg}:{args[2:]}', f'{cfg} seed {args[2]} threads {args[3]}: {bad}', dict(args=args, history=hist))
    for o in orders:
        c.distinct(o)
    c.coverage['distinct_orders'] = len(orders)
    c.log(f'{runs} recorded runs, {c.evaluations} rounds, {len(orders)} distinct operation orders')
    if len(orders) < 50 and not c.violations:
        raise RuntimeError('the threads did not interleave')


def expect(mode, T, N):
    if mode == 0:
        n = T * N
        return [n & 255, 3 * n & 255, -n & 255, n & 65535, 257 * n & 65535, -5 * n & 65535, n, -65537 * n & 0xffffffff, 0x100000001 * n & M64, 3 * n]
    return [0] * 10


def expected(mode, T, N):
    """The two lines a run of the stress guest ends with."""
    n = T * N
    want = expect(mode, T, N) + [0xa5, 0xa5a5, 0xa5a5a5a5, 0xa5a5a5a5, 0xa5a5a5a5a5a5a5a5]
    tail = [n if mode == 0 else 0, 0, 0, n if mode in (1, 3) else 0, 0, 0]
    x4 = (1 << T) - 1 if mode == 4 and N & 1 else 0
    tail += [0, x4, (x4 << 30) ^ ((x4 & 255) << 56) if mode == 4 and x4 else 0]
    return want, tail


def invariants(c):
    w = guest.wasm('stress')
    jobs = []
    for i in range(c.scale(6, 30)):
        for mode in range(5):
            for cfg, N in (('rel', c.scale(12000, 30000)), ('tsan', 1500), ('asan', 2500)):
                T = [4, 8][(i + mode) % 2]
                if mode in (1, 2):
                    T = 4
                jobs.append((f'mode{mode}', cfg, ['--wasi', w, str(mode), str(c.seed * 100 + i), str(T), str(N // (4 if mode == 2 else 1))],
                             dict(timeout=180)))
    sb = [0] * 4
    for tag, cfg, args, r in threads.many(jobs, 2):
        if threads.bad(c, tag, cfg, args, r):
            continue
        mode, seed, T, N = map(int, args[2:6])
        if r.rc != 0 or not r.out.endswith(b'end\n'):
            c.violation(f'{tag}:{cfg}:status', f'{cfg} {args[2:]} ended with status {r.rc}: {r.err[-300:]}', dict(args=args, err=r.err[-4000:]))
            continue
        L = [[int(x) for x in l.split() if x != 'end'] for l in r.out.decode().splitlines()]
        c.evaluations += T * N
        want, tail = expected(mode, T, N)
        if L[0] != want or L[1] != tail:
            c.violation(f'{tag}:{cfg}', f'{cfg} {args[2:]}: counters {L[0]} and checks {L[1]}, expected {want} and {tail}',
                        dict(args=args, got=L, want=[want, tail], fields='dup bad sum bothzero mpbad bits'))
        if mode == 2:
            sb = [a + b for a, b in zip(sb, L[2])]
    c.coverage['store_buffering_outcomes'] = dict(zip(('00', '01', '10', '11'), sb))
    c.log(f'invariants: {len(jobs)} runs, store buffering outcomes {sb}')


def main(c):
    build.build_many(['asan', 'rel', 'tsan'])
    c.rule = 'distinct orders of operations of concurrent threads that explain a recorded round, and distinct outcomes of atomic sequences'
    n = c.scale(1500, 20000)
    cases = progcheck.pgen('vp.atomics', 'case', f'C15:{c.seed}', n)
    progcheck.run(c, cases, [('rel', [], n), ('asan', [], n // 3)], label='sequences')
    if c.violations:
        return
    histories(c)
    invariants(c)


if __name__ == '__main__':
    run_check('C15', main)
