"""Run cases (see diff.py) through harness/runner.c."""
import concurrent.futures as cf
import os
import subprocess

from . import build
from .common import NPROC, Inconclusive, crash_summary, scratch_dir, tool_env


def exe(config, oom=False):
    if oom:
        return build.harness(config, 'runner-oom', ['runner.c'], cflags=['-DOOM'],
                             ldflags=['-Wl,--wrap=malloc', '-Wl,--wrap=calloc', '-Wl,--wrap=realloc'])
    return build.harness(config, 'runner', ['runner.c'])


def wasi_exe(config):
    return build.harness(config, 'runner-wasi', ['runner.c'], libs=('core', 'wasi'), cflags=['-DWASI'])


def script(case):
    out = [b'case']
    for s in case:
        o = s['op']
        if o == 'load':
            b = s['bytes']
            out.append(b'load %s %s' % (s['mod'].encode(), b.hex().encode()))
        elif o == 'register':
            out.append(b'register %s %s' % (s['mod'].encode(), s['as'].encode()))
        elif o == 'invoke':
            f = s['func']
            f = f.encode() if isinstance(f, str) else f
            out.append(b'invoke %s %s' % (s['mod'].encode(), f.hex().encode()) + b''.join(b' %s:%s' % (t.encode(), str(v).encode()) for t, v in s['args']))
        elif o == 'global':
            f = s['name']
            f = f.encode() if isinstance(f, str) else f
            out.append(b'global %s %s' % (s['mod'].encode(), f.hex().encode()))
        elif o == 'oom':
            out.append(b'oom %d %d' % (s['at'], s['all']))
        elif o == 'oomoff':
            out.append(b'oomoff 0 0')
    out.append(b'end')
    return b'\n'.join(out) + b'\n'


TRAPS = {}


def norm(line):
    k = line[:1]
    if k == 'S':
        return 'ok'
    if k == 'I':
        return 'invalid:'
    if k == 'U':
        return 'unlinkable:'
    if k == 'N':
        return 'nomod'
    if k == 'X':
        return 'timeout'
    if k == 'O':
        return line
    if k == 'E':
        return 'err:' + line[2:]
    if k == 'T':
        a = line.split(' ', 2)
        return 'trap:' + a[1]
    items = []
    for it in line[1:].split():
        x, t = it.rsplit(':', 1)
        if t == 'f32' and (int(x) & 0x7f800000) == 0x7f800000 and int(x) & 0x7fffff:
            x = 'nan'
        elif t == 'f64' and (int(x) >> 52) & 0x7ff == 0x7ff and int(x) & ((1 << 52) - 1):
            x = 'nan'
        items.append(f'{x}:{t}')
    return 'ok:' + ', '.join(items)


def run(binary, cases, opts=(), leaks=False, watchdog=120, max_crashes=12, jobs=NPROC, env=None):
    """Returns (outcomes per case, per-case counters from the C line)."""
    sd = scratch_dir()
    n = len(cases)
    shard = max(1, (n + jobs - 1) // jobs)
    out, cnt = [None] * n, [None] * n
    ncr = [0]

    def work(lo):
        part = cases[lo:lo + shard]
        fn = os.path.join(sd, f'r{lo}')
        with open(fn, 'wb') as f:
            for c in part:
                f.write(script(c))
        first = killed = 0
        while first < len(part):
            if ncr[0] >= max_crashes:
                return
            pre = [] if '/asan' in binary or '/msan' in binary or '/tsan' in binary else ['prlimit', '--as=16000000000', '--']
            with open(fn + '.err', 'wb') as ef:
                p = subprocess.Popen(pre + [binary, fn, str(first), *opts], stdout=subprocess.PIPE, stderr=ef,
                                     env=env or tool_env(leaks=leaks), cwd='/')
                hung = False
                try:
                    o, _ = p.communicate(timeout=watchdog)
                except subprocess.TimeoutExpired:
                    p.kill()
                    o, _ = p.communicate()
                    hung = True
            cur = []
            done = first
            for line in o.decode('utf-8', 'replace').split('\n')[:-1]:
                if line.startswith('C '):
                    a = line.split()
                    out[lo + int(a[1])] = cur
                    cnt[lo + int(a[1])] = [int(x) for x in a[2:]]
                    cur = []
                    done = int(a[1]) + 1
                elif line[:1] in 'SIUNXETRO' and line[1:2] in ('', ' '):
                    cur.append(norm(line))
            if p.returncode == 0 and done == len(part):
                break
            if p.returncode == -9 and not hung:
                killed += 1
                if killed > 2:
                    raise Inconclusive('a process was killed repeatedly')
                first = done
                continue
            ncr[0] += max_crashes if hung else 1
            with open(fn + '.err', 'rb') as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - 30000))
                err = f.read().decode('utf-8', 'replace')
            i = min(done, len(part) - 1)
            out[lo + i] = [{'crash': dict(kind='hang' if hung else 'crash', rc=p.returncode, step=len(cur),
                                          summary='no answer within watchdog' if hung else crash_summary(err, p.returncode),
                                          stderr=err[-10000:])}]
            first = done + 1
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, range(0, n, shard)))
    return out, cnt
