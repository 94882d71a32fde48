"""C19: what WASI descriptors denote.  Descriptor-heavy histories against a
POSIX shadow, host descriptors counted through /proc/self/fd and traced with
strace, and threads racing on the descriptor table."""
import os
import re
import struct
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import guest, threads, wasi, wasifs  # noqa: E402
from vp.common import run_check, scratch_dir  # noqa: E402


def moved_directory(c, base, cli):
    """A directory renamed while it is open is still the one opened."""
    d = os.path.join(base, 'moved')
    os.makedirs(f'{d}/t/x')
    os.makedirs(f'{d}/t/other')
    with open(f'{d}/t/x/mark', 'w') as f:
        f.write('the opened one')
    img = bytearray(b'\xa5') * 65536 * 2
    for a, s in ((0, b'x'), (16, b'y'), (32, b'mark'), (48, b'other')):
        img[a:a + len(s)] = s
    for x in (d, f'{d}/t', f'{d}/t/x', f'{d}/t/other'):
        os.chmod(x, 0o777)
    r = wasi.run(cli, d, img, [('c_path_open', [3, 0, 0, 1, 2, 2, 2, 0, 64]), ('c_path_rename', [3, 0, 1, 3, 16, 1]),
                               ('c_path_filestat_get', [4, 0, 32, 4, 128]), ('c_path_rename', [3, 48, 5, 3, 0, 1]),
                               ('c_path_filestat_get', [4, 0, 32, 4, 128])], ['--wasi-dir', f'{d}/t::/'])
    c.evaluations += 1
    if r.crash or r.results[:2] != [0, 0] or r.results[3] != 0:
        c.violation('moved-directory-setup', f'{r.results} {r.crash}', dict(err=r.err[-3000:]))
    elif r.results[2] or r.results[4]:
        c.violation('renamed-open-directory', f'after renaming an open directory, looking up a file of it by its descriptor gives {r.results}',
                    dict(results=r.results))


def standard_streams(c, base, cli):
    """The numbers of closed standard streams are not given to other files."""
    d = os.path.join(base, 'std')
    os.makedirs(f'{d}/t')
    for x in (d, f'{d}/t'):
        os.chmod(x, 0o777)
    img = bytearray(b'\xa5') * 65536 * 2
    img[0:2] = b'fg'
    for closed in ((0,), (1,), (2,), (0, 2), (0, 1, 2)):
        calls = [('c_fd_close', [n]) for n in closed]
        for k in range(3):
            calls.append(('c_path_open', [3, 0, k % 2, 1, 1, 66, 66, 0, 64 + 4 * k]))
        calls += [('c_fd_fdstat_get', [n, 128]) for n in range(8)] + [('c_fd_close', [n]) for n in range(8)]
        r = wasi.run(cli, d, img, calls, ['--wasi-dir', f'{d}/t::/'])
        c.evaluations += 1
        want = [0] * (len(closed) + 3) + [8 if n in closed or n > 6 else 0 for n in range(8)] * 2
        if r.crash or r.results != want:
            c.violation('standard-streams', f'close {closed}, open three files, look at and close 0 to 7: {r.results} instead of {want} {r.crash}',
                        dict(closed=closed, results=r.results, err=r.err[-3000:]))
        c.distinct(('std', closed))


def races(c):
    g = guest.wasm('fdrace')
    jobs, dirs = [], {}
    for i in range(c.scale(6, 60)):
        for cfg, it in (('rel', 3000), ('tsan', 700), ('asan', 1000), ('dbg', 2000)):
            d = scratch_dir()
            for k in range(16):
                with open(f'{d}/f{k}', 'wb') as f:
                    f.write(struct.pack('<I', k) * 16)
            os.mkdir(f'{d}/e')
            for k in range(5):
                with open(f'{d}/e/n{k}', 'w'):
                    pass
            T = (2, 4, 8, 16, 3, 6)[i % 6]
            jobs.append(('race', cfg, ['--wasi', '--wasi-dir', f'{d}::/', '--wasi-dir', '/proc/self/fd::/fds', g, str(T), str(it),
                                       str(c.seed * 1000 + i)], dict(timeout=120, leaks=cfg == 'asan', cpus=(None, '0-1', None, '0')[i % 4])))
            dirs[id(jobs[-1][2])] = d
    ops = stale = hits = 0
    for tag, cfg, args, r in threads.many(jobs, 4):
        if threads.bad(c, tag, cfg, args, r):
            continue
        out = r.out.decode('latin1')
        m = re.search(r'^OK (\d+) (\d+) (\d+) (\d+) (\d+) (\d+)$', out, re.M)
        if r.rc or not m or 'FAIL' in out:
            f = re.search(r'FAIL (.*)', out)
            c.violation(f'race:{f.group(1).split(" ")[0] if f else "status"}', f'{cfg} {args[-3:]}: status {r.rc}: {out[-300:]} {r.err[-300:]}',
                        dict(args=args, out=out, err=r.err[-4000:]))
            continue
        n, o, s, h, before, after = map(int, m.groups())
        ops, stale, hits = ops + o, stale + s, hits + h
        c.evaluations += o
        c.distinct(('race', n, s, h))
        if before != after:
            c.violation('race:hostfds', f'{cfg} {args[-3:]}: {before} host descriptors before, {after} after everything was closed', dict(args=args, out=out))
        d = dirs[id(args)]
        for t in range(n):
            fn = f'{d}/w{chr(97 + t // 16)}{chr(97 + t % 16)}'
            b = open(fn, 'rb').read() if os.path.exists(fn) else b''
            recs = [struct.unpack_from('<4Q', b, q) for q in range(0, len(b) - 31, 32)]
            if len(b) % 32 or any(x[0] != t or x[2] != t or x[1] != x[3] for x in recs) or [x[1] for x in recs] != sorted({x[1] for x in recs}):
                c.violation('race:file', f'{cfg} {args[-3:]}: the file written by thread {t} has records of another or is damaged',
                            dict(args=args, records=recs[:50], size=len(b)))
        for k in range(16):
            if open(f'{d}/f{k}', 'rb').read() != struct.pack('<I', k) * 16:
                c.violation('race:file', f'{cfg} {args[-3:]}: a file only read from was changed', dict(args=args))
    c.coverage['races'] = dict(runs=len(jobs), operations=ops, uses_of_closed_numbers=stale, uses_of_numbers_of_others=hits)
    if not stale or not hits:
        raise RuntimeError('no use of a descriptor raced with its close')


def main(c):
    c.rule = 'histories of calls which differ in a call or in an outcome; races which differ in what stale uses met'
    cfgs = ['asan', 'msan', 'rel', 'dbg', 'tsan']
    base, clis = wasifs.prepare(cfgs)
    n = c.scale(600, 12000)
    jobs = []
    for i in range(n):
        cfg = cfgs[(0, 0, 1, 2, 2, 3)[i % 6]]
        jobs.append((cfg, clis[cfg], cfg in ('asan', 'msan'), c.seed * 10_000_000 + i, (30, 100, 150, 250)[i % 4],
                     wasifs.Scenario.FDWEIGHTS, base, ()))
    for r in wasifs.run_batch(c, jobs, 'descriptors'):
        pass
    # the same, watching the system calls: each host descriptor is closed once
    jobs = [('rel', clis['rel'], False, c.seed * 10_000_000 + 5_000_000 + i, 120, wasifs.Scenario.FDWEIGHTS, base,
             ('strace', '-f', '-e', 'trace=close,openat,open', '-o', '@/strace')) for i in range(c.scale(24, 300))]
    closes = 0
    for r in wasifs.run_batch(c, jobs, 'traced'):
        closes += len(re.findall(r'close\(\d+\) += 0', r['extra'] or ''))
        for ln in (r['extra'] or '').splitlines():
            if re.search(r'close\(-?\d+\) += -1', ln):
                c.violation('close-twice', f'seed {r["seed"]}: a host descriptor which is not open was closed: {ln}',
                            dict(seed=r['seed'], trace=r['extra'].splitlines()[-200:]))
    c.coverage['traced_closes'] = closes
    if not closes:
        raise RuntimeError('strace saw nothing')
    moved_directory(c, base, clis['rel'])
    standard_streams(c, base, clis['rel'])
    races(c)


if __name__ == '__main__':
    run_check('C19', main)
