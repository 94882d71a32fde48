"""Runs guests (wasi + wasi-threads) in the command line tool, several at a
time, and classifies how each run ended."""
import concurrent.futures as cf
import os
import signal
import subprocess
import tempfile
import time

from . import build
from .common import crash_summary, tool_env


class Run:
    """rc, out, err, wall; bad: None or (kind, text)."""


def _once(binary, args, timeout, stdin, env, cpus, cwd):
    r = Run()
    pre = []
    if cpus:
        pre = ['taskset', '-c', cpus]
    with tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
        t0 = time.monotonic()
        p = subprocess.Popen(pre + [binary] + args, stdin=stdin or subprocess.DEVNULL, stdout=o, stderr=e, env=env, cwd=cwd or '/', start_new_session=True)
        hung = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            hung = True
            try:
                r.stacks = stacks(p.pid)
            finally:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        r.wall = time.monotonic() - t0
        r.rc = p.returncode
        o.seek(0)
        r.out = o.read()
        e.seek(0)
        r.err = e.read().decode('utf-8', 'replace')
    r.bad = None
    if hung:
        r.bad = ('hang', f'no end within {timeout} s')
    elif r.rc < 0 or any(x in r.err for x in ('ThreadSanitizer', 'AddressSanitizer', 'LeakSanitizer', 'runtime error:', 'MemorySanitizer', 'Assertion `')):
        r.bad = ('crash', crash_summary(r.err, r.rc))
    return r


def stacks(pid):
    """Kernel wait channels and states of the threads: what a hang looks like."""
    out = []
    try:
        for t in sorted(os.listdir(f'/proc/{pid}/task')):
            with open(f'/proc/{pid}/task/{t}/stat') as f:
                s = f.read().rsplit(')', 1)[1].split()
            out.append(f'{t}:{s[0]} utime {s[11]} stime {s[12]}')
    except OSError:
        pass
    return out


def run(config, args, timeout=60, stdin=None, cpus=None, leaks=False, again=4, binary=None, cwd=None):
    """A run which does not end is repeated: only if it happens again is it
    reported as a hang."""
    binary = binary or build.cli(config)
    env = tool_env(leaks=leaks)
    r = _once(binary, args, timeout, stdin, env, cpus, cwd)
    if r.bad and r.bad[0] == 'hang':
        for _ in range(again):
            q = _once(binary, args, timeout, stdin, env, cpus, cwd)
            if q.bad:
                return q
        q.unconfirmed = r.stacks
        return q
    return r


def many(jobs, par):
    """jobs: list of (tag, config, args, kw); yields (tag, config, args, Run)."""
    with cf.ThreadPoolExecutor(par) as ex:
        fs = {ex.submit(run, j[1], j[2], **(j[3] if len(j) > 3 else {})): j for j in jobs}
        for f in cf.as_completed(fs):
            j = fs[f]
            yield j[0], j[1], j[2], f.result()


def bad(c, tag, cfg, args, r):
    """Reports abnormal ends; True if there was one."""
    u = getattr(r, 'unconfirmed', None)
    if u:
        c.coverage['unconfirmed_hangs'] = c.coverage.get('unconfirmed_hangs', 0) + 1
        c.log(f'{tag} {cfg} {args[-6:]}: did not end once, but did when repeated')
    if r.bad:
        kind, text = r.bad
        c.violation(f'{tag}:{cfg}:{kind}:{text[:80]}', f'{cfg} {" ".join(os.path.basename(a) for a in args)}: {kind}: {text}',
                    dict(args=args, rc=r.rc, stderr=r.err[-8000:], stdout=r.out[-2000:].decode('latin1'), stacks=getattr(r, 'stacks', None)))
        return True
    return False
