"""Failing allocations in the command itself: WASI, threads, shared libraries,
the REPL.  Every allocation of a run (or it and all later ones) is made to fail
in turn; the run must report that or be unaffected, and give back everything."""
import concurrent.futures as cf
import contextlib
import os
import shutil
import socket
import subprocess
import tempfile

from . import build
from . import wasm as W
from .common import NPROC, Inconclusive, crash_summary, drop_privs, scratch_dir, tool_env
from .wasm import DROP, END, FUNCREF, I32, I64, call, i32c, i64c, leb_u, lget, lset, vec


def two_memories():
    m = W.Module()
    ex = m.import_func('wasi_snapshot_preview1', 'proc_exit', [I32], [])
    sp = m.import_func('wasi', 'thread-spawn', [I32], [I32])
    m.import_('env', 'a', 2, W.limits(1, 3, True))
    m.import_('env', 'b', 2, W.limits(1, 3, True))
    m.import_('env', 'c', 2, W.limits(1, 3, True))
    m.export('memory', 2, 1)
    m.export('wasi_thread_start', 0, m.func([I32, I32], [], [], i32c(8) + i32c(1) + b'\xfe\x17\x02\0' + i32c(8) + i32c(1) + b'\xfe\0\x02\0' + DROP))
    m.efunc('_start', [], [], [I32],
            i32c(0) + call(sp) + W.ltee(0) + i32c(0) + b'\x48\x04\x40' + i32c(9) + call(ex) + END
            + b'\x02\x40\x03\x40' + i32c(8) + b'\xfe\x10\x02\0' + W.br_if(1) + i32c(8) + i32c(0) + i64c(-1) + b'\xfe\x01\x02\0' + DROP + W.br(0) + END + END
            + i32c(1) + b'\x40\0' + i32c(-1) + b'\x46\x04\x40' + i32c(9) + call(ex) + END
            + i32c(42) + call(ex))
    return m.encode()


FILES = [('path_open', [I32, I32, I32, I32, I32, I64, I64, I32, I32]), ('fd_close', [I32]), ('fd_write', [I32] * 4), ('fd_read', [I32] * 4),
         ('fd_readdir', [I32, I32, I32, I64, I32]), ('path_create_directory', [I32] * 3), ('path_rename', [I32] * 6), ('path_symlink', [I32] * 5),
         ('path_readlink', [I32] * 6), ('path_link', [I32] * 7), ('path_unlink_file', [I32] * 3), ('path_remove_directory', [I32] * 3),
         ('path_filestat_get', [I32] * 5), ('path_filestat_set_times', [I32, I32, I32, I32, I64, I64, I32]), ('fd_filestat_get', [I32] * 2),
         ('fd_prestat_get', [I32] * 2), ('fd_prestat_dir_name', [I32] * 3), ('args_sizes_get', [I32] * 2), ('args_get', [I32] * 2),
         ('environ_get', [I32] * 2), ('poll_oneoff', [I32] * 4), ('fd_renumber', [I32] * 2), ('fd_pwrite', [I32, I32, I32, I64, I32]),
         ('random_get', [I32] * 2), ('fd_fdstat_get', [I32] * 2), ('fd_seek', [I32, I64, I32, I32]), ('fd_advise', [I32, I64, I64, I32])]


def file_calls():
    """A history of file calls; the first error is the exit status + 64."""
    m = W.Module()
    x = {n: m.import_func('wasi_snapshot_preview1', n, p, [I32]) for n, p in FILES}
    ex = m.import_func('wasi_snapshot_preview1', 'proc_exit', [I32], [])
    m.memory(2)
    m.export('memory', 2, 0)
    names = b'd' + b'f' + b'g' + b'l' + b'd/f' + b'.'
    m.datas.append(b'\0' + i32c(16) + END + vec([bytes([b]) for b in names]))
    A = dict(d=(16, 1), f=(17, 1), g=(18, 1), l=(19, 1), df=(20, 3), dot=(23, 1))

    def nm(k):
        return i32c(A[k][0]) + i32c(A[k][1])
    DIR, FD, OUT, BUF = i32c(3), i32c(100), 200, 1024
    fd = FD + b'\x28\x02\0'

    def do(n, *args):
        return b''.join(args) + call(x[n]) + W.ltee(0) + b'\x04\x40' + lget(0) + i32c(64) + b'\x6a' + call(ex) + END
    b = i32c(300) + i32c(BUF) + b'\x36\x02\0' + i32c(304) + i32c(50) + b'\x36\x02\x00' + i32c(308) + i32c(BUF + 50) + b'\x36\x02\0' + i32c(312) + i32c(7) + b'\x36\x02\0'
    o = i32c(OUT)
    b += do('args_sizes_get', o, i32c(204)) + do('args_get', i32c(400), i32c(500)) + do('environ_get', i32c(600), i32c(700))
    b += do('fd_prestat_get', DIR, o) + do('fd_prestat_dir_name', DIR, i32c(800), o + b'\x28\x02\x04')
    b += do('path_create_directory', DIR, nm('d'))
    b += do('path_open', DIR, i32c(0), nm('df'), i32c(1), i64c(-1), i64c(-1), i32c(0), FD)
    b += do('fd_write', fd, i32c(300), i32c(2), o) + do('fd_pwrite', fd, i32c(300), i32c(1), i64c(200), o)
    b += do('fd_seek', fd, i64c(0), i32c(0), o) + do('fd_read', fd, i32c(300), i32c(2), o) + do('fd_filestat_get', fd, i32c(800)) + do('fd_fdstat_get', fd, i32c(800))
    b += do('path_symlink', nm('f'), DIR, nm('l')) + do('path_readlink', DIR, nm('l'), i32c(800), i32c(50), o)
    b += do('path_link', DIR, i32c(1), nm('df'), DIR, nm('f')) + do('path_rename', DIR, nm('f'), DIR, nm('g'))
    b += do('path_filestat_get', DIR, i32c(1), nm('g'), i32c(800)) + do('path_filestat_set_times', DIR, i32c(1), nm('g'), i64c(5), i64c(7), i32c(5))
    b += do('path_open', DIR, i32c(0), nm('d'), i32c(2), i64c(16384), i64c(16384), i32c(0), i32c(104))
    b += do('fd_readdir', i32c(104) + b'\x28\x02\0', i32c(2000), i32c(500), i64c(0), o)
    b += do('fd_renumber', fd, i32c(104) + b'\x28\x02\0') + do('fd_close', i32c(104) + b'\x28\x02\0')
    b += do('random_get', i32c(60000), i32c(50000))
    b += do('path_unlink_file', DIR, nm('df')) + do('path_unlink_file', DIR, nm('g')) + do('path_unlink_file', DIR, nm('l')) + do('path_remove_directory', DIR, nm('d'))
    m.efunc('_start', [], [], [I32], b + i32c(42) + call(ex))
    return m.encode()


def accept_calls():
    """Connections waiting on standard input are accepted and used."""
    m = W.Module()
    x = {n: m.import_func('wasi_snapshot_preview1', n, p, [I32]) for n, p in
         (('sock_accept', [I32] * 3), ('sock_recv', [I32] * 6), ('sock_send', [I32] * 5), ('sock_shutdown', [I32] * 2), ('fd_close', [I32]), ('fd_fdstat_get', [I32] * 2))}
    ex = m.import_func('wasi_snapshot_preview1', 'proc_exit', [I32], [])
    m.memory(1)
    m.export('memory', 2, 0)
    fd = i32c(100) + b'\x28\x02\0'

    def do(n, *args):
        return b''.join(args) + call(x[n]) + W.ltee(0) + b'\x04\x40' + lget(0) + i32c(64) + b'\x6a' + call(ex) + END
    b = i32c(300) + i32c(1024) + b'\x36\x02\0' + i32c(304) + i32c(5) + b'\x36\x02\0' + i32c(308) + i32c(1029) + b'\x36\x02\0' + i32c(312) + i32c(5) + b'\x36\x02\0'
    for k in range(CONNECTIONS):
        b += do('sock_accept', i32c(0), i32c(4 * (k % 2)), i32c(100)) + do('fd_fdstat_get', fd, i32c(800))
        b += do('sock_recv', fd, i32c(300), i32c(2), i32c(0), i32c(200), i32c(204)) + do('sock_send', fd, i32c(300), i32c(2), i32c(0), i32c(200))
        b += do('sock_shutdown', fd, i32c(2))
        if k % 3 == 2:
            b += do('fd_close', fd)
    m.efunc('_start', [], [], [I32], b + i32c(42) + call(ex))
    return m.encode()


CONNECTIONS = 9


def provider():
    m = W.Module()
    m.memory(1, 5)
    m.table(FUNCREF, 10, 20)
    m.tag([I32])
    g = m.global_(I64, True, i64c(7))
    m.export('g', 3, g)
    m.export('mem', 2, 0)
    m.export('tab', 1, 0)
    m.export('tag', 4, 0)
    m.efunc('f', [I32], [I32], [I64, I64], lget(0) + i32c(1) + b'\x6a')
    m.efunc('throw', [I32], [], [], lget(0) + b'\x08\0')
    m.efunc('deep', [I32], [I32], [I64] * 10, b'')
    k = len(m.funcs) - 1
    m.set_body(k, [I64] * 10, lget(0) + b'\x04\x7f' + lget(0) + i32c(1) + b'\x6b' + call(k) + b'\x05' + i32c(7) + END)
    m.elems.append(b'\0' + i32c(1) + END + vec([leb_u(0), leb_u(1)]))
    m.datas.append(b'\0' + i32c(5) + END + vec([b'a', b'b']))
    return m.encode()


def user():
    m = W.Module()
    f = m.import_func('a', 'f', [I32], [I32])
    t = m.import_func('a', 'throw', [I32], [])
    m.import_('a', 'mem', 2, W.limits(1))
    m.import_('a', 'tab', 1, b'\x70' + W.limits(1))
    m.import_('a', 'g', 3, b'\x7e\x01')
    m.import_('a', 'tag', 4, b'\0' + leb_u(m.type([I32], [])))
    m.efunc('go', [I32], [I32], [I32], b'\x02\x7f\x1f\x40' + vec([b'\0\0\0']) + lget(0) + call(t) + END + i32c(5) + END + call(f)
            + b'\x03\x40' + lget(0) + i32c(1) + b'\x6b' + W.ltee(0) + W.br_if(0) + END)
    m.efunc('grow', [I32], [I32], [], lget(0) + b'\x40\0')
    m.efunc('tgrow', [I32], [I32], [], b'\xd0\x70' + lget(0) + W.fc(15) + b'\0')
    m.efunc('trap', [], [], [], b'\0')
    m.start = m.func([], [], [], i32c(8) + i32c(3) + b'\x36\x02\0')
    m.elems.append(b'\0' + i32c(4) + END + vec([leb_u(f)]))
    m.datas.append(b'\0' + i32c(50) + END + vec([b'x'] * 100))
    m.customs.append(('post', 'name', b'\x01\x06\x01\x05\x03abc'))
    return m.encode()


def workloads():
    import checks.c28 as c28
    out = {}
    out['shared'] = dict(files={'m.wasm': two_memories()}, argv=['--wasi', 'm.wasm'], rc=42)
    out['threads'] = dict(files={'m.wasm': c28.module('sleep', ['wait32', 'rmw', 'catch_from_call'], n=20)}, argv=['--wasi', 'm.wasm'], rc=42)
    out['files'] = dict(files={'m.wasm': file_calls()}, argv=['--wasi', '--wasi-dir', '.', '--wasi-env', 'A=b', '--wasi-env', 'CC=dd', 'm.wasm', 'x', 'yy'], rc=42)
    out['accept'] = dict(files={'m.wasm': accept_calls()}, argv=['--wasi', 'm.wasm'], rc=42, listen=CONNECTIONS)
    for k in ('plt', 'dlopen', 'ctor', 'libfunc'):
        out['dyld-' + k] = dict(files={'main.wasm': c28.library(k, False, 20), 'lib.so': c28.library(k, True, 20)},
                                argv=['--wasi', '--dyld', '--dyld-path', '.', '--dyld-dlfcn', 'main.wasm'], rc=42)
    out['poll'] = dict(files={'m.wasm': c28.module('poll_stdin', [], n=20)}, argv=['--wasi', '--timeout', '100000', 'm.wasm'], rc=42)
    repl = ''':module a load a.wasm
:register a a
:module b load b.wasm
:module b invoke go 5
:module b invoke grow 1
:module b invoke tgrow 1
:module a invoke deep 300
:module b invoke trap
:module a invoke throw 5
:module b invoke go 3
:global-get a g
:module b save s.wasm
:init
:module a load a.wasm
:register a a
:module c load b.wasm
:module c invoke go 3
'''
    out['repl'] = dict(files={'a.wasm': provider(), 'b.wasm': user()}, argv=['--repl', '--repl-prompt', '@@P'], stdin=repl, rc=0)
    out['cmdline'] = dict(files={'a.wasm': provider(), 'b.wasm': user()},
                          argv=['--max-frames', '1000', '--load', 'a.wasm', '--invoke', 'f 4', '--invoke', 'deep 200', '--print-stats'], rc=0)
    return out


def once(exe, w, at, base, tmo=40):
    d = tempfile.mkdtemp(prefix='oom-', dir=base)
    try:
        os.chmod(d, 0o777)
        for n, b in w['files'].items():
            with open(f'{d}/{n}', 'wb') as f:
                f.write(b)
        env = tool_env(leaks=True, VP_OOM_OUT=d + '/count', VP_OOM=at)
        with open(d + '/in', 'w+') as f, contextlib.ExitStack() as es:
            f.write(w.get('stdin', ''))
            f.seek(0)
            if w.get('listen'):
                f = es.enter_context(socket.socket(socket.AF_UNIX))
                f.bind(d + '/s')
                f.listen(w['listen'])
                for _ in range(w['listen']):
                    s = es.enter_context(socket.socket(socket.AF_UNIX))
                    s.connect(d + '/s')
                    s.send(b'0123456789')
            try:
                p = subprocess.run([exe, *w['argv']], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, timeout=tmo, preexec_fn=drop_privs())
            except subprocess.TimeoutExpired:
                return 'hang', '', '', 0, 0, 0
        n = failed = left = 0
        if os.path.exists(d + '/count'):
            with open(d + '/count') as f:
                n, failed, left = map(int, f.read().split())
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace'), n, failed, left
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(c, r):
    """Sweeps every workload."""
    exes = {k: v + '/bin/toywasm' for k, v in build.build_many(['oom', 'oomus']).items()}
    base = scratch_dir('vp-oom-')
    os.chmod(base, 0o755)
    ws = workloads()
    for k in ('shared', 'threads'):
        ws[k + '-us'] = dict(ws[k], exe='oomus')
    jobs = []
    zero = {}
    for name, w in ws.items():
        rc, out, err, n, _, left = once(exes[w.get('exe', 'oom')], w, '0', base)
        if rc != w['rc'] or n < 50:
            if 'Sanitizer' in err or rc == 'hang':
                c.violation(f'cli:{name}:base', f'{name} without any failure: {rc} {crash_summary(err, rc)}', dict(err=err[-4000:]))
                continue
            raise Inconclusive(f'{name}: status {rc}, {n} allocations: {out[-500:]} {err[-1000:]}')
        zero[name] = (out, n, left)
        ks = list(range(1, n + 30))
        if c.quick() and len(ks) > 300:
            ks = sorted(r.sample(ks, 300))
        jobs += [(name, k, a) for k in ks for a in ('', '+')]
    r.shuffle(jobs)
    kinds = {}
    recovered = 0

    def job(j):
        name, k, a = j
        return j, once(exes[ws[name].get('exe', 'oom')], ws[name], f'{k}{a}', base)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for f in cf.as_completed([ex.submit(job, j) for j in jobs]):
            j, (rc, out, err, n, failed, left) = f.result()
            name, k, a = j
            w = ws[name]
            if rc == 'hang':
                rc, out, err, n, failed, left = once(exes[w.get('exe', 'oom')], w, f'{k}{a}', base)
            c.evaluations += 1
            rep = dict(workload=name, argv=w['argv'], oom=f'{k}{a}', rc=rc, out=out[-3000:], err=err[-6000:])
            if rc == 'hang':
                c.violation(f'cli:{name}:hang', f'{name}: allocation {k}{a} fails: no end', rep)
                continue
            if rc == -9:
                raise Inconclusive('killed')
            if rc < 0 or rc in (66, 86, 87, 88) or 'Sanitizer' in err or 'runtime error' in err or 'Assertion' in err:
                s = crash_summary(err, rc)
                c.violation(f'cli:{s}'.replace(' ', '-')[:160], f'{name}: allocation {k}{a} fails: {s}', rep)
                continue
            if left > zero[name][2]:
                c.violation(f'cli:{name}:descriptors', f'{name}: allocation {k}{a} fails: {left} descriptors open in the end, {zero[name][2]} otherwise', rep)
            same = rc == w['rc'] and (out == zero[name][0] or '--print-stats' in w['argv'])
            if not same and rc == w['rc'] and rc == 42:
                c.violation(f'cli:{name}:silent', f'{name}: allocation {k}{a} fails: other output, status {rc}: {out[-300:]}', rep)
            if name == 'repl' and not a and rc == 0:
                # whatever failed before, after :init everything works again
                i = w['stdin'].split('\n').index(':init')
                x, y = zero[name][0].split('@@P>')[1:], out.split('@@P>')[1:]
                if len(x) != len(y) or (x[:i] != y[:i] and x[i + 1:] != y[i + 1:]):
                    c.violation('cli:repl:afterwards', f'allocation {k} fails: {y}', rep)
                recovered += x[:i] != y[:i]
            if failed:
                kinds[name, same] = kinds.get((name, same), 0) + 1
                c.distinct(('cli', name, k, a))
    c.coverage['cli_recovered'] = recovered
    c.coverage['cli_allocations'] = {k: v[1] for k, v in zero.items()}
    c.coverage['cli_open_at_end'] = {k: v[2] for k, v in zero.items()}
    c.coverage['cli_outcomes'] = {f'{k[0]}:{"unaffected" if k[1] else "failed"}': v for k, v in sorted(kinds.items())}
