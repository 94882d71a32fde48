"""A guest exporting every WASI call, and a way to run histories of calls.

The guest module is a constant: for each WASI function f it exports c_f with
the same signature, plus two helpers ("list" walks a directory with a given
buffer size, "dump" writes the whole linear memory to a file).  A history is
a list of (export, args) executed as REPL commands, so a call that traps does
not end the history.  The initial memory is appended as a data segment.
"""
import functools
import os
import re
import subprocess

from . import wasm as W
from .common import Inconclusive, tool_env, crash_summary, scratch_dir

SIGS = '''args_get(ii)i args_sizes_get(ii)i clock_res_get(ii)i
clock_time_get(iIi)i environ_get(ii)i environ_sizes_get(ii)i fd_advise(iIIi)i
fd_allocate(iII)i fd_close(i)i fd_datasync(i)i fd_fdstat_get(ii)i
fd_fdstat_set_flags(ii)i fd_fdstat_set_rights(iII)i fd_filestat_get(ii)i
fd_filestat_set_size(iI)i fd_filestat_set_times(iIIi)i fd_pread(iiiIi)i
fd_prestat_dir_name(iii)i fd_prestat_get(ii)i fd_pwrite(iiiIi)i fd_read(iiii)i
fd_readdir(iiiIi)i fd_renumber(ii)i fd_seek(iIii)i fd_sync(i)i fd_tell(ii)i
fd_write(iiii)i path_create_directory(iii)i path_filestat_get(iiiii)i
path_filestat_set_times(iiiiIIi)i path_link(iiiiiii)i path_open(iiiiiIIii)i
path_readlink(iiiiii)i path_remove_directory(iii)i path_rename(iiiiii)i
path_symlink(iiiii)i path_unlink_file(iii)i poll_oneoff(iiii)i
random_get(ii)i sched_yield()i sock_accept(iii)i
sock_recv(iiiiii)i sock_send(iiiii)i sock_shutdown(ii)i'''
FUNCS = {}
for _s in SIGS.split():
    _m = re.match(r'(\w+)\((\w*)\)i$', _s)
    FUNCS[_m.group(1)] = _m.group(2)
NO_UNSTABLE = {'sock_accept'}

# the last bytes of memory belong to the dump and list helpers
RESERVED = 8192

E = dict(SUCCESS=0, TOOBIG=1, ACCES=2, AGAIN=6, BADF=8, BUSY=10, DOM=18,
         DQUOT=19, EXIST=20, FAULT=21, FBIG=22, INTR=27, INVAL=28, IO=29,
         ISDIR=31, LOOP=32, MFILE=33, MLINK=34, NAMETOOLONG=37, NFILE=41,
         NODEV=43, NOENT=44, NOMEM=48, NOSPC=51, NOSYS=52, NOTCONN=53,
         NOTDIR=54, NOTEMPTY=55, NOTSOCK=57, NOTSUP=58, NOTTY=59, NXIO=60,
         OVERFLOW=61, PERM=63, PIPE=64, RANGE=68, ROFS=69, SPIPE=70,
         TXTBSY=74, XDEV=75, OPNOTSUPP=58)


def errno_to_wasi(e):
    import errno
    n = errno.errorcode.get(e, '')
    n = {'E2BIG': 'ETOOBIG', 'EOPNOTSUPP': 'ENOTSUP'}.get(n, n)
    return E.get(n[1:])


def _wat(pages, abi):
    t = {'i': 'i32', 'I': 'i64'}
    out = ['(module']
    fs = [f for f in FUNCS if not (abi == 'wasi_unstable' and f in NO_UNSTABLE)]
    for f in fs:
        p = ''.join(f' (param {t[c]})' for c in FUNCS[f])
        out.append(f'(import "{abi}" "{f}" (func ${f}{p} (result i32)))')
    out.append(f'(import "{abi}" "proc_exit" (func $proc_exit (param i32)))')
    out.append(f'(memory (export "memory") {pages})')
    for f in fs:
        p = ''.join(f' (param {t[c]})' for c in FUNCS[f])
        a = ' '.join(f'(local.get {i})' for i in range(len(FUNCS[f])))
        out.append(f'(func (export "c_{f}"){p} (result i32) (call ${f} {a}))')
    end = pages * 65536
    buf, name, iov = end - RESERVED + 64, end - 64, end - 48
    nw, fdp = end - 32, end - 16
    out.append(f'''
(func (export "c_proc_exit") (param i32) (call $proc_exit (local.get 0)))
(func (export "dump") (param $dirfd i32) (param $no i32) (result i32) (local $e i32)
  (i32.store (i32.const {name}) (i32.add (i32.const 0x3030306d)
     (i32.add (i32.shl (i32.div_u (local.get $no) (i32.const 100)) (i32.const 8))
     (i32.add (i32.shl (i32.rem_u (i32.div_u (local.get $no) (i32.const 10)) (i32.const 10)) (i32.const 16))
              (i32.shl (i32.rem_u (local.get $no) (i32.const 10)) (i32.const 24))))))
  (local.set $e (call $path_open (local.get $dirfd) (i32.const 0) (i32.const {name}) (i32.const 4)
     (i32.const 9) (i64.const 64) (i64.const 0) (i32.const 0) (i32.const {fdp})))
  (if (local.get $e) (then (return (i32.add (i32.const 1000) (local.get $e)))))
  (i32.store (i32.const {iov}) (i32.const 0))
  (i32.store (i32.const {iov + 4}) (i32.const {end}))
  (local.set $e (call $fd_write (i32.load (i32.const {fdp})) (i32.const {iov}) (i32.const 1) (i32.const {nw})))
  (if (local.get $e) (then (return (i32.add (i32.const 2000) (local.get $e)))))
  (local.set $e (call $fd_close (i32.load (i32.const {fdp}))))
  (if (local.get $e) (then (return (i32.add (i32.const 3000) (local.get $e)))))
  (i32.const 0))
;; lists a directory into records at $out: ino(8) type(1) namlen(1) name
(func $list (export "list") (param $fd i32) (param $bufsz i32) (param $out i32) (param $limit i32) (result i32)
  (local $cookie i64) (local $e i32) (local $n i32) (local $p i32) (local $l i32) (local $seen i32) (local $cnt i32)
  (local.set $out (i32.add (local.get $out) (i32.const 4)))
  (block $done
  (loop $more
    (local.set $e (call $fd_readdir (local.get $fd) (i32.const {buf}) (local.get $bufsz) (local.get $cookie) (i32.const {nw})))
    (if (local.get $e) (then (return (i32.add (i32.const 1000) (local.get $e)))))
    (local.set $n (i32.load (i32.const {nw})))
    (if (i32.gt_u (local.get $n) (local.get $bufsz)) (then (return (i32.const 3001))))
    (local.set $p (i32.const 0)) (local.set $seen (i32.const 0))
    (block $next
    (loop $ent
      (br_if $next (i32.gt_u (i32.add (local.get $p) (i32.const 24)) (local.get $n)))
      (local.set $l (i32.load (i32.add (i32.const {buf + 16}) (local.get $p))))
      (br_if $next (i32.gt_u (i32.add (i32.add (local.get $p) (i32.const 24)) (local.get $l)) (local.get $n)))
      (if (i32.gt_u (i32.add (i32.add (local.get $out) (i32.const 10)) (local.get $l)) (local.get $limit)) (then (return (i32.const 3002))))
      (i64.store align=1 (local.get $out) (i64.load (i32.add (i32.const {buf + 8}) (local.get $p))))
      (i32.store8 (i32.add (local.get $out) (i32.const 8)) (i32.load8_u (i32.add (i32.const {buf + 20}) (local.get $p))))
      (i32.store8 (i32.add (local.get $out) (i32.const 9)) (local.get $l))
      (memory.copy (i32.add (local.get $out) (i32.const 10)) (i32.add (i32.const {buf + 24}) (local.get $p)) (local.get $l))
      (local.set $out (i32.add (local.get $out) (i32.add (i32.const 10) (local.get $l))))
      (local.set $cookie (i64.load (i32.add (i32.const {buf}) (local.get $p))))
      (local.set $p (i32.add (local.get $p) (i32.add (i32.const 24) (local.get $l))))
      (local.set $seen (i32.const 1))
      (local.set $cnt (i32.add (local.get $cnt) (i32.const 1)))
      (br $ent)))
    (br_if $done (i32.lt_u (local.get $n) (local.get $bufsz)))
    (if (i32.eqz (local.get $seen)) (then (return (i32.const 3003))))
    (br $more)))
  (local.get $cnt))
;; the number of entries of the preopened directory $fd
(func (export "count") (param $fd i32) (result i32) (local $e i32) (local $c i32)
  (i32.store8 (i32.const {name}) (i32.const 46))
  (local.set $e (call $path_open (local.get $fd) (i32.const 0) (i32.const {name}) (i32.const 1)
     (i32.const 2) (i64.const 2) (i64.const 0) (i32.const 0) (i32.const {fdp})))
  (if (local.get $e) (then (return (i32.sub (i32.const 0) (local.get $e)))))
  (local.set $c (call $list (i32.load (i32.const {fdp})) (i32.const 4096) (i32.const {end - RESERVED + 4200}) (i32.const {end - 64})))
  (local.set $e (call $fd_close (i32.load (i32.const {fdp}))))
  (if (local.get $e) (then (return (i32.sub (i32.const -1000) (local.get $e)))))
  (local.get $c)))''')
    return '\n'.join(out)


@functools.lru_cache(maxsize=8)
def template(pages, abi='wasi_snapshot_preview1'):
    d = scratch_dir()
    w, o = os.path.join(d, f't{pages}{abi}.wat'), os.path.join(d, f't{pages}{abi}.wasm')
    with open(w, 'w') as f:
        f.write(_wat(pages, abi))
    r = subprocess.run(['wat2wasm', '--enable-all', w, '-o', o], capture_output=True, text=True)
    if r.returncode:
        raise Inconclusive('wat2wasm: ' + r.stderr[:500])
    with open(o, 'rb') as f:
        return f.read()


def module(image, abi='wasi_snapshot_preview1'):
    pages = len(image) // 65536
    assert pages * 65536 == len(image)
    body = b'\x01\x00\x41\x00\x0b' + W.leb_u(len(image)) + bytes(image)
    return template(pages, abi) + b'\x0b' + W.leb_u(len(body)) + body


RES_RE = re.compile(r'^(?:Result: (.*)|Error: (.*))$', re.M)


class Run:
    """What one execution of a history gave."""
    def __init__(self, results, crash, out, err, rc):
        self.results, self.crash, self.out, self.err, self.rc = results, crash, out, err, rc


def run(cli, wdir, image, steps, opts=(), abi='wasi_snapshot_preview1', pre=None, timeout=120,
        wrapper=(), env=None, pass_fds=(), leaks=True,
        sanitized=True, restore_signals=True):
    """Run steps [(export, args)] in one process; results[i] is an int, or
    'trap: ...', or 'exit: N', or None when it was not reached."""
    mod = os.path.join(wdir, 'm.wasm')
    with open(mod, 'wb') as f:
        f.write(module(image, abi))
    cmds = [f':module m load {mod}']
    for e, a in steps:
        cmds.append(' '.join([':module m invoke', e] + [str(x) for x in a]))
    cf = os.path.join(wdir, 'cmds')
    with open(cf, 'w') as f:
        f.write('\n'.join(cmds) + '\n:exit\n')
    e2 = dict(tool_env(leaks=leaks))
    # a guest must not be able to exhaust the machine: keep a run within a few GB
    for k in ('ASAN_OPTIONS', 'MSAN_OPTIONS'):
        e2[k] += ':max_allocation_size_mb=2048:hard_rss_limit_mb=4096'
    e2.update(env or {})
    limit = [] if sanitized else ['prlimit', '--as=6000000000']
    argv = list(wrapper) + limit + [cli, '--repl', '--repl-prompt', '@@', '--wasi', *opts]
    for attempt in range(2):
        with open(cf, 'rb') as fin:
            try:
                r = subprocess.run(argv, stdin=fin, capture_output=True, timeout=timeout, env=e2, preexec_fn=pre,
                                   cwd=wdir, pass_fds=pass_fds, restore_signals=restore_signals)
                break
            except subprocess.TimeoutExpired as ex:
                if attempt:
                    return Run([None] * len(steps), 'hang', '', '', None)
    out = r.stdout.decode('latin-1')
    err = r.stderr.decode('latin-1')
    parts = out.split('@@> ')[2:]
    res = []
    for i in range(len(steps)):
        t = parts[i] if i < len(parts) else ''
        m = RES_RE.search(t)
        if not m:
            res.append(None)
        elif m.group(1) is not None:
            v = m.group(1)
            mm = re.match(r'(\d+):i32$', v)
            res.append(int(mm.group(1)) if mm else v)
        else:
            v = m.group(2)
            if v.startswith('[trap]'):
                res.append('trap: ' + v[7:])
            else:
                res.append('error: ' + v)
    crash = None
    if r.returncode not in (0,):
        crash = crash_summary(err, r.returncode)
    return Run(res, crash, out, err, r.returncode)
