"""Run batches of modules through harness/loader.c."""
import concurrent.futures as cf
import os
import struct
import subprocess

from .common import NPROC, Inconclusive, crash_summary, scratch_dir, tool_env


def run(exe, mods, leaks=False, watchdog=120, max_crashes=20):
    """[(ret, message) | {'crash': info}] per module."""
    sd = scratch_dir()
    n = len(mods)
    shard = max(1, (n + NPROC - 1) // NPROC)
    out = [None] * n
    ncr = [0]

    def work(lo):
        part = mods[lo:lo + shard]
        fn = os.path.join(sd, f'l{lo}')
        with open(fn, 'wb') as f:
            for m in part:
                f.write(struct.pack('<I', len(m)) + m)
        first = killed = 0
        while first < len(part):
            if ncr[0] >= max_crashes:
                return
            pre = [] if '/asan' in exe or '/msan' in exe else ['prlimit', '--as=12000000000', '--']
            p = subprocess.Popen(pre + [exe, fn, str(first)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=tool_env(leaks=leaks), cwd='/')
            hung = False
            try:
                o, err = p.communicate(timeout=watchdog)
            except subprocess.TimeoutExpired:
                p.kill()
                o, err = p.communicate()
                hung = True
            done = first
            for line in o.decode('utf-8', 'replace').split('\n')[:-1]:
                a = line.split(' ', 2)
                out[lo + int(a[0])] = (int(a[1]), a[2] if len(a) > 2 else '')
                done = int(a[0]) + 1
            if p.returncode == 0 and done == len(part):
                break
            if p.returncode == -9 and not hung:
                killed += 1
                if killed > 2:
                    raise Inconclusive('a process was killed repeatedly')
                first = done
                continue
            ncr[0] += 1
            i = min(lo + done, lo + len(part) - 1)
            out[i] = {'crash': dict(kind='hang' if hung else 'crash', rc=p.returncode,
                                    summary='no answer within watchdog' if hung else crash_summary(err, p.returncode),
                                    stderr=err.decode('utf-8', 'replace')[-8000:])}
            first = done + 1
        os.unlink(fn)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(work, range(0, n, shard)))
    return out
