"""Run cases (lists of steps) in toywasm's REPL and in V8, and compare."""
import base64
import concurrent.futures as cf
import json
import os
import shutil
import re
import subprocess
import tempfile

from .common import NPROC, VERIF, Inconclusive, crash_summary, scratch_dir, tool_env

# step constructors


def load(mod, b, ref=None):
    """ref: an equivalent module to give to the reference instead."""
    if isinstance(b, tuple):
        b, ref = b
    return dict(op='load', mod=mod, bytes=b, **({'ref': ref} if ref else {}))


def register(mod, as_):
    return {'op': 'register', 'mod': mod, 'as': as_}


def invoke(mod, func, args=(), results=()):
    return dict(op='invoke', mod=mod, func=func, args=[(t, str(v)) for t, v in args], results=list(results))


def global_(mod, nm, t):
    return dict(op='global', mod=mod, name=nm, type=t)


PROMPT = b'@@V@@'


def esc(nm):
    if isinstance(nm, str):
        nm = nm.encode()
    if nm and all(0x30 <= c <= 0x39 or 0x41 <= c <= 0x5a or 0x61 <= c <= 0x7a or c in b'_.-' for c in nm):
        return nm
    return b'"' + b''.join(b'\\x%02x' % c for c in nm) + b'"'


def to_cmds(step):
    o = step['op']
    if o in ('load', 'validate'):
        b = step['bytes']
        return b':module %s load-hex %d\n%s\n' % (step.get('mod', 'm').encode(), len(b), b.hex().encode())
    if o == 'register':
        return b':module %s register %s\n' % (step['mod'].encode(), step['as'].encode())
    if o == 'invoke':
        a = b''.join(b' ' + str(v).encode() for _, v in step['args'])
        return b':module %s invoke %s%s\n' % (step['mod'].encode(), esc(step['func']), a)
    if o == 'global':
        return b':module %s global-get %s\n' % (step['mod'].encode(), esc(step['name']))
    raise ValueError(o)


def parse(step, txt):
    o = step['op']
    m = re.search(r'Error: \[trap\] (.*?) \((\d+)\): ?(.*)', txt)
    if m:
        return 'trap:' + m.group(1) + ('' if m.group(1) != 'unknown' else ' ' + m.group(3))
    if 'load/validation error' in txt:
        return 'invalid:' + txt.split('load/validation error:')[1].split('\n')[0].strip()
    if 'instantiation error' in txt:
        return 'unlinkable:' + txt.split('instantiation error:')[1].split('\n')[0].strip()
    m = re.search(r'^Result: (.*)$', txt, re.M)
    if m:
        v = m.group(1)
        if v == '<Empty Stack>':
            return 'ok:'
        items = []
        for it in v.split(', '):
            x, t = it.rsplit(':', 1)
            if t in ('funcref', 'exnref'):
                x = 'null' if x == 'null' else 'nonnull'
            elif t == 'f32' and (int(x) & 0x7f800000) == 0x7f800000 and int(x) & 0x7fffff:
                x = 'nan'
            elif t == 'f64' and (int(x) >> 52) & 0x7ff == 0x7ff and int(x) & ((1 << 52) - 1):
                x = 'nan'
            items.append(f'{x}:{t}')
        return 'ok:' + ', '.join(items)
    m = re.search(r"Error: command '.*' failed with (-?\d+)", txt)
    if m:
        if o == 'load':
            return 'loaderr:' + m.group(1)
        if m.group(1) in ('2', '71'):
            return 'nomod'
        return 'err:' + m.group(1)
    return 'ok' if o in ('load', 'register', 'validate') else 'noresult:' + txt[:200]


def _repl(binary, cases, opts, env, timeout, errpath):
    """One REPL process over cases; returns (list of finished case outcomes,
    crash info or None)."""
    inp = bytearray()
    for c in cases:
        for s in c:
            inp += to_cmds(s)
        inp += b':init\n'
    with open(errpath, 'wb') as ef:
        pre = [] if any(x in binary for x in ('/asan', '/tsan', '/msan')) else ['prlimit', '--as=12000000000', '--']
        stdin = subprocess.PIPE
        if '--wasi' in opts:
            # wasi makes the standard streams non-blocking, which the REPL
            # takes for the end of a pipe
            stdin = tempfile.TemporaryFile()
            stdin.write(bytes(inp))
            stdin.seek(0)
            inp = b''
        p = subprocess.Popen(pre + [binary, '--repl', '--repl-prompt', PROMPT.decode()] + list(opts), stdin=stdin,
                             stdout=subprocess.PIPE, stderr=ef, env=env, cwd='/')
        hung = False
        try:
            out, _ = p.communicate(bytes(inp) or None, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            hung = True
    parts = out.split(PROMPT + b'> ')[1:]
    # parts[k] is the output of command k; the last one belongs to the command
    # being executed when the process ended (or to end of input)
    res = []
    k = 0
    done = len(parts) - 1
    for c in cases:
        if k + len(c) + 1 > done:
            break
        res.append([parse(s, parts[k + i].decode('utf-8', 'replace')) for i, s in enumerate(c)])
        k += len(c) + 1
    if len(res) == len(cases) and p.returncode == 0:
        return res, None
    with open(errpath, 'rb') as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 40000))
        err = f.read().decode('utf-8', 'replace')
    info = dict(kind='hang' if hung else 'crash', rc=p.returncode, step=max(0, done - k),
                summary='no answer within watchdog' if hung else crash_summary(err, p.returncode), stderr=err[-12000:])
    return res, info


def run_toywasm(binary, cases, opts=(), env=None, watchdog=90, jobs=NPROC, shard=None, max_crashes=12, leaks=False):
    """Outcomes per case; a case which crashed the process gets
    [{'crash': info}].  A watchdog expiry is confirmed by running the case
    alone before it is reported."""
    env = env or tool_env(leaks=leaks)
    sd = scratch_dir()
    n = len(cases)
    shard = shard or max(1, (n + jobs - 1) // jobs)
    out = [None] * n
    crashes = [0]

    def work(lo):
        hi = min(n, lo + shard)
        i = lo
        while i < hi:
            if crashes[0] >= max_crashes:
                return
            err = os.path.join(sd, f'e{lo}')
            res, info = _repl(binary, cases[i:hi], opts, env, watchdog, err)
            for r in res:
                out[i] = r
                i += 1
            if info is None:
                break
            if i >= hi:
                # died after the last case: at-exit report
                out[hi - 1] = [{'crash': info}]
                crashes[0] += 1
                break
            if info['kind'] == 'hang' or info['rc'] == -9:
                # slow, or ended for want of memory: try it alone
                r1, info1 = _repl(binary, [cases[i]], opts, env, watchdog, err)
                if info1 is None:
                    out[i] = r1[0]
                    i += 1
                    continue
                info = info1
                if info['rc'] == -9 and info['kind'] != 'hang':
                    raise Inconclusive('a process was killed twice')
                crashes[0] += max_crashes
            out[i] = [{'crash': info}]
            crashes[0] += 1
            i += 1
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, range(0, n, shard)))
    shutil.rmtree(sd, ignore_errors=True)
    return out


def run_v8(cases, jobs=NPROC, shard=None, timeout=600, flags=()):
    sd = scratch_dir()
    n = len(cases)
    shard = shard or max(1, (n + jobs - 1) // jobs)

    def conv(s):
        s = dict(s)
        if 'bytes' in s:
            s['bytes'] = base64.b64encode(s.pop('ref', s['bytes'])).decode()
        return s

    def work(lo):
        part = [[conv(s) for s in c] for c in cases[lo:lo + shard]]
        i = os.path.join(sd, f'b{lo}.json')
        o = os.path.join(sd, f'o{lo}.json')
        with open(i, 'w') as f:
            json.dump(part, f)
        r = subprocess.run(['/usr/bin/env', 'node', '--experimental-wasm-exnref', '--experimental-wasm-multi-memory',
                            '--no-wasm-tier-up', *flags, os.path.join(VERIF, 'js', 'ref.js'), i, o],
                           env={**os.environ, 'NODE_OPTIONS': ''},
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        if r.returncode != 0:
            raise Inconclusive('reference runner failed: ' + r.stderr.decode('utf-8', 'replace')[-2000:])
        with open(o) as f:
            return json.load(f)
    with cf.ThreadPoolExecutor(jobs) as ex:
        parts = list(ex.map(work, range(0, n, shard)))
    return [c for p in parts for c in p]


# V8 trap message -> toywasm trap messages meaning the same cause
TRAPS = [
    (r'^unreachable$', ['unreachable executed']),
    (r'divide by zero|remainder by zero', ['integer divide by zero']),
    (r'divide result unrepresentable', ['integer overflow']),
    (r'float unrepresentable', ['integer overflow', 'invalid conversion to integer']),
    (r'memory access out of bounds|data segment|segment.*out of bounds.*memory', ['out of bounds memory access']),
    (r'table index is out of bounds|invalid index into function table|index out of bounds',
     ['undefined element', 'out of bounds table access']),
    (r'table access out of bounds|table initializer|element segment out of bounds|table.*out of bounds',
     ['out of bounds table access', 'undefined element']),
    (r'null function or function signature mismatch|function signature mismatch',
     ['uninitialized element', 'indirect call type mismatch']),
    (r'uncaught exception', ['uncaught exception']),
    (r'unaligned', ['unaligned atomic']),
    (r'stack overflow', ['stack overflow']),
    (r'rethrowing null value|dereferencing a null pointer', ['unknown throw', 'throw_ref null', 'null exception']),
    (r'Atomics.wait', ['expected shared memory']),
]


def trap_match(v8, tw):
    for rx, ms in TRAPS:
        if re.search(rx, v8):
            return any(tw.startswith(m) for m in ms)
    return False


def same(a, b):
    """a: toywasm outcome, b: V8 outcome."""
    if a == b:
        return True
    ka, kb = a.split(':', 1)[0], b.split(':', 1)[0]
    if ka in ('invalid', 'unlinkable', 'nomod', 'err', 'loaderr') or kb in ('invalid', 'unlinkable', 'nomod', 'nofunc'):
        return ka == kb
    if ka == 'trap' and kb == 'trap':
        return trap_match(b[5:], a[5:])
    return False


def show(case):
    out = []
    for s in case:
        s = dict(s)
        if 'bytes' in s:
            s['bytes'] = s['bytes'].hex()
            s.pop('ref', None)
        out.append(s)
    return out


def compare(check, cases, tw, ref, label, cmp=same, key=None, stop=None):
    """Reports the first differing step of each case."""
    nbad = 0
    for i, (c, a, b) in enumerate(zip(cases, tw, ref)):
        if a is None:
            continue
        if a and isinstance(a[0], dict):
            info = a[0]['crash']
            check.violation(f'{label}:crash:{i}', f'{info["kind"]}: {info["summary"]}', dict(case=show(c), info=info))
            nbad += 1
            continue
        trapped = set()
        for k, (s, x, y) in enumerate(zip(c, a, b)):
            # an instance whose start trapped stays reachable in the REPL
            # but has no counterpart in the reference
            if s.get('mod') in trapped:
                break
            if s['op'] == 'load' and y.startswith('trap'):
                trapped.add(s['mod'])
            if not cmp(x, y):
                check.violation(f'{label}:{i}:{k}', f'step {k} {s["op"]} {s.get("func", "")}: toywasm {x!r} reference {y!r}',
                                dict(case=show(c), step=k, toywasm=a, reference=b))
                nbad += 1
                break
            if stop and stop(x):
                break
    return nbad
