"""C23: arguments, environment, streams, exit status and preopened directories.
A guest reports all it can see on its standard output; that must be what was
given on the command line, byte for byte."""
import multiprocessing as mp
import os
import random
import shutil
import struct
import subprocess
import sys
import threading
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, guest  # noqa: E402
from vp.common import run_check, scratch_dir, tool_env, crash_summary, NPROC  # noqa: E402

KINDS = ['return', 'exit', 'unreachable', 'bounds', 'recursion', 'deep exit', 'indirect', 'divide', 'thread exit', 'thread trap']
ODD = [b'', b' ', b'-', b'--', b'--wasi', b'--help', b'-h', b'--invoke', b'--version', b'=', b'a b', b'\n', b'\xff\xfe', b'\xc3\xa9', b"'\"$(`", b'*', b'--wasi-env',
       b'A=B', b'\x01\x7f\x80', b'%s%n', b'::', b'@file', b'-1', b'\xe3\x81\x82']


def word(r):
    k = r.random()
    if k < 0.5:
        return r.choice(ODD)
    n = r.choice((1, 2, 3, 7, 8, 15, 16, 60, 300))
    if k > 0.97:
        n = r.choice((5000, 60000, 120000))
    return bytes(r.randrange(1, 256) for _ in range(n)) if n < 1000 else bytes([r.randrange(1, 256)]) * n


class Bad(Exception):
    pass


class Rd:
    def __init__(self, b):
        self.b, self.i = b, 0

    def w(self):
        if self.i + 4 > len(self.b):
            raise Bad('the output ended early')
        v, = struct.unpack_from('<I', self.b, self.i)
        self.i += 4
        return v

    def data(self, n):
        self.i += n
        return self.b[self.i - n:self.i]


def strings(rd, what, want):
    e, n, sz = rd.w(), rd.w(), rd.w()
    tot = sum(len(x) + 1 for x in want)
    if e or (n, sz) != (len(want), tot):
        raise Bad(f'{what}_sizes_get: {e}, {n} strings of {sz} bytes, expected {len(want)} of {tot}')
    e, bad = rd.w(), rd.w()
    if e or bad:
        raise Bad(f'{what}_get: {e}, {bad} bytes outside were changed')
    ptrs = [rd.w() for _ in range(n)]
    b = rd.data(sz)
    for i, (p, x) in enumerate(zip(ptrs, want)):
        if p > sz or b[p:p + len(x) + 1] != x + b'\0':
            raise Bad(f'{what}_get: string {i} is {b[p:p + 60]!r}, expected {x[:60]!r}')


def one(job):
    cfg, cli, mod, seed, base = job
    r = random.Random(seed)
    d = f'{base}/{cfg}{seed}'.encode()
    os.mkdir(d)
    try:
        args = [word(r) for _ in range(r.choice((0, 1, 2, 3, 5, 20, 100)))]
        envs = []
        for _ in range(r.choice((0, 1, 2, 5, 40))):
            e = r.choice((lambda: word(r), lambda: b'N%d=' % r.randrange(9) + word(r)))()
            envs.append(e)
        while sum(len(x) + 20 for x in args + envs) > 1 << 20:
            args.pop()
        pre = []
        for i in range(r.choice((0, 1, 1, 2, 4, 12))):
            h = d + b'/h%d' % i + r.choice((b'', b' x', b'\xc3\xa9', b':y', b'=z'))
            os.makedirs(h, exist_ok=True)
            g = r.choice((None, b'/', b'', b'.', b'/a/b', b'a b', b'\xe3\x81\x82', b'x' * 300, b'a::b', b':', b'/tmp/', b'--wasi', b'/same', b'/same', b'../..'))
            pre.append((h, g))
        kind = r.choice((0, 0, 1, 1, 1, 1, 5, 2, 3, 4, 6, 7, 8, 9))
        code = r.choice((0, 1, 2, 100, 125, 126, 127, 128, 200, 254, 255, r.randrange(256)))
        echo = r.choice((0, 1, 2))
        data = r.randbytes(r.choice((0, 1, 100, 5000, 30000, 100000)))
        inp = struct.pack('<4I', kind, code, seed & 0xffffffff, echo) + data
        argv = [cli.encode(), b'--wasi', b'--max-frames', b'3000']
        opts = [[b'--wasi-env', e] for e in envs] + [[b'--wasi-dir', h + (b'' if g is None else b'::' + g)] for h, g in pre]
        # the relative order of variables and of directories matters, that between them does not
        if r.random() < 0.5:
            it = [iter(opts[:len(envs)]), iter(opts[len(envs):])]
            pick = [0] * len(envs) + [1] * len(pre)
            r.shuffle(pick)
            opts = [next(it[k]) for k in pick]
        if r.random() < 0.3:
            opts = [[b'%s=%s' % (k, v)] for k, v in opts]
        for o in opts:
            argv += o
        # without the separator, options after the module are taken by the tool
        if r.random() < 0.7 or any(a.startswith(b'-') for a in args):
            argv.append(b'--')
        argv += [mod.encode()] + args
        ik, ok = r.choice(('file', 'pipe', 'pipe')), r.choice(('file', 'pipe'))
        with open(d + b'/in', 'wb') as f:
            f.write(inp)

        def go():
            with open(d + b'/in', 'rb') as fi, open(d + b'/out', 'wb+') as fo, open(d + b'/err', 'wb+') as fe:
                p = subprocess.Popen(argv, stdin=fi if ik == 'file' else subprocess.PIPE, stdout=fo if ok == 'file' else subprocess.PIPE, stderr=fe,
                                     env=dict(tool_env(leaks=True), SECRET='hidden'), cwd=d)
                got = []

                def feed():
                    try:
                        i = 0
                        while i < len(inp):
                            n = r.choice((1, 30, 1000, 70000))
                            i += os.write(p.stdin.fileno(), inp[i:i + n])
                            if r.random() < 0.1:
                                time.sleep(0.001)
                    except BrokenPipeError:
                        pass
                    p.stdin.close()
                ths = []
                if ik == 'pipe':
                    ths.append(threading.Thread(target=feed))
                if ok == 'pipe':
                    ths.append(threading.Thread(target=lambda: got.append(p.stdout.read())))
                for t in ths:
                    t.start()
                try:
                    p.wait(100)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    return None
                for t in ths:
                    t.join()
                fo.seek(0)
                fe.seek(0)
                return p.returncode, got[0] if ok == 'pipe' else fo.read(), fe.read()
        x = go() or go()
        rec = dict(argv=[a[:200].decode('latin-1') for a in argv], kind=KINDS[kind], code=code, config=cfg, seed=seed)
        if x is None:
            return kind, (f"hang {KINDS[kind]}", "no end in two runs", rec), None
        rc, out, err = x
        rec.update(rc=rc, stderr=err[-4000:].decode('latin-1'), stdout=out[:500].decode('latin-1'))
        try:
            inv = bytes(255 - b for b in data)
            if rc < 0 or rc in (77, 66) and b'Sanitizer' in err or b'Sanitizer:' in err or b'runtime error:' in err:
                raise Bad('crash: ' + crash_summary(err.decode('latin-1'), rc))
            want = {0: 0, 1: code, 5: code, 8: code}.get(kind)
            if want is not None and rc != want:
                raise Bad(f'{KINDS[kind]} {code}: exit status {rc} instead of {want}: {err[-200:]!r}')
            if want is None and rc == 0:
                raise Bad(f'{KINDS[kind]}: exit status 0')
            rd = Rd(out)
            strings(rd, 'args', [os.path.basename(mod).encode()] + args)
            strings(rd, 'environ', envs)
            for i, (h, g) in enumerate(pre):
                name = h if g is None else g
                e = rd.w()
                if e:
                    raise Bad(f'fd_prestat_get: {e} for directory {i} of {len(pre)}')
                tag, n, e = rd.w(), rd.w(), rd.w()
                b = rd.data(n + 1)
                if tag or e or b != name + b'\xa7':
                    raise Bad(f'preopened directory {i}: tag {tag}, {e}, {b!r} instead of {name!r}')
            if rd.w() != 8:
                raise Bad('there are more preopened directories')
            # after an abnormal end, a diagnosis follows
            if (out[rd.i:] if want is not None else out[rd.i:rd.i + len(data)]) != data:
                raise Bad(f'standard output: {len(out) - rd.i} bytes instead of {len(data)}')
            if echo:
                if err[:len(data)] != inv:
                    raise Bad(f'standard error: {len(err)} bytes, {len(data)} written')
                err = err[len(data):]
            if want is not None and err:
                raise Bad(f'standard error has additionally {err[:200]!r}')
        except Bad as e:
            return kind, (f"{str(e)[:60]}", f"{cfg} seed {seed}: {e}", rec), None
        return kind, None, (KINDS[kind], len(args), len(envs), len(pre), ik, ok, echo, len(data))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(c):
    c.rule = 'distinct (end, numbers of arguments, variables and directories, kinds of stream, echo, size) combinations'
    cfgs = ['asan', 'rel', 'dbg', 'msan']
    build.build_many(cfgs)
    mod = guest.wasm('env')
    base = scratch_dir()
    jobs = []
    for i in range(c.scale(1600, 20000)):
        k = cfgs[(0, 0, 1, 2, 3)[i % 5]]
        jobs.append((k, build.cli(k), mod, c.seed * 1000000 + i, base))
    seen = {}
    with mp.get_context('fork').Pool(NPROC) as pool:
        for kind, bad, rec in ((k, b, s) for k, b, s in pool.imap_unordered(one, jobs, chunksize=2)):
            c.evaluations += 1
            seen[KINDS[kind]] = seen.get(KINDS[kind], 0) + 1
            if bad:
                c.violation(bad[0], bad[1], bad[2])
            else:
                c.distinct(rec)
                c.sample(rec)
    c.coverage['ends'] = seen


if __name__ == '__main__':
    run_check('C23', main)
