"""C28: a running program can be stopped.

Programs which never end (loops, recursion, tail calls, exceptions as back
edges, bulk and host calls in loops, waits, sleeps, blocking input and output,
start functions, constructors of shared libraries), alone and in several
threads, are given a time limit, or ended by the exit, trap or return of one
of their threads.  Each must end soon with the matching outcome, and not before
its limit; the finite variants must be unaffected by a limit they don't reach."""
import concurrent.futures as cf
import os
import signal
import subprocess
import sys
import tempfile
import shutil
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import NPROC, Inconclusive, crash_summary, run_check, scratch_dir, tool_env  # noqa: E402
from vp.wasm import DROP, END, EXNREF, FUNCREF, I32, I64, call, gget, i32c, i64c, leb_u, lget, lset, ltee, vec  # noqa: E402

BLOCK, LOOP, IF, ELSE, RET = b'\x02\x40', b'\x03\x40', b'\x04\x40', b'\x05', b'\x0f'
SUB64, EQZ64, NE64 = b'\x7d', b'\x50', b'\x52'
HOUR = 3600 * 10**9
BOUND = 15       # seconds a stopped program may take to end
DEC = lget(0) + i64c(1) + SUB64 + lset(0)
DECT = lget(0) + i64c(1) + SUB64 + ltee(0)
NOERR = IF + b'\0' + END      # a nonzero error traps

# addresses in memory: 64 event, 128 subscription, 256 iovec, 320 buffer, 512 never notified
SHAPES = {}


def shape(needs_eh=False, blocking=False, mem=False):
    def deco(f):
        SHAPES[f.__name__] = (f, needs_eh, blocking, mem)
        return f
    return deco


@shape()
def br_if(m, x):
    return LOOP + DECT + EQZ64 + b'\x45' + W.br_if(0) + END


@shape()
def br(m, x):
    return BLOCK + LOOP + lget(0) + EQZ64 + W.br_if(1) + DEC + W.br(0) + END + END


@shape()
def br_table(m, x):
    return BLOCK + LOOP + DECT + EQZ64 + b'\x0e' + vec([leb_u(0)]) + leb_u(1) + END + END


@shape()
def nested(m, x):
    return LOOP + LOOP + BLOCK + lget(0) + i64c(1) + b'\x83\xa7' + W.br_if(0) + END + DECT + i64c(7) + b'\x83' + EQZ64 + b'\x45' + W.br_if(0) + END \
        + lget(0) + EQZ64 + b'\x45' + W.br_if(0) + END


@shape()
def if_else(m, x):
    return LOOP + lget(0) + i64c(1) + b'\x83\xa7' + IF + DEC + lget(0) + EQZ64 + b'\x45' + W.br_if(1) + ELSE + DEC + lget(0) + EQZ64 + b'\x45' + W.br_if(1) + END + END


@shape()
def recursion(m, x):
    g = m.func([I32], [])
    m.set_body(g, [], lget(0) + IF + (lget(0) + i32c(1) + b'\x6b' + call(g)) * 2 + END)
    return lget(0) + i64c(-1) + b'\x51\x04\x7f' + i32c(40) + ELSE + i32c(9) + END + call(g)


@shape()
def recursion_indirect(m, x):
    g = m.func([I32], [])
    t = m.type([I32], [])
    m.elems.append(b'\0' + i32c(1) + END + vec([leb_u(g)]))
    m.set_body(g, [], lget(0) + IF + (lget(0) + i32c(1) + b'\x6b' + i32c(1) + b'\x11' + leb_u(t) + b'\0') * 2 + END)
    return lget(0) + i64c(-1) + b'\x51\x04\x7f' + i32c(40) + ELSE + i32c(9) + END + call(g)


@shape()
def tail(m, x):
    g = m.func([I64], [])
    m.set_body(g, [], lget(0) + EQZ64 + IF + RET + END + lget(0) + i64c(1) + SUB64 + b'\x12' + leb_u(g))
    return lget(0) + call(g)


@shape()
def tail_mutual(m, x):
    g, h = m.func([I64], []), m.func([I64, I32], [])
    m.set_body(g, [], lget(0) + EQZ64 + IF + RET + END + lget(0) + i64c(1) + SUB64 + i32c(5) + b'\x12' + leb_u(h))
    m.set_body(h, [], lget(0) + b'\x12' + leb_u(g))
    return lget(0) + call(g)


@shape()
def tail_indirect(m, x):
    g = m.func([I64], [])
    t = m.type([I64], [])
    m.elems.append(b'\0' + i32c(2) + END + vec([leb_u(g)]))
    m.set_body(g, [], lget(0) + EQZ64 + IF + RET + END + lget(0) + i64c(1) + SUB64 + i32c(2) + b'\x13' + leb_u(t) + b'\0')
    return lget(0) + call(g)


@shape(needs_eh=True)
def catch_back_edge(m, x):
    return LOOP + lget(0) + EQZ64 + IF + RET + END + DEC + b'\x1f\x40' + vec([b'\x02\0']) + b'\x08\0' + END + END


@shape(needs_eh=True)
def catch_from_call(m, x):
    g = m.func([], [], [], b'\x08\0')
    return LOOP + lget(0) + EQZ64 + IF + RET + END + DEC + b'\x1f\x40' + vec([b'\0\0\0']) + call(g) + END + END


@shape(needs_eh=True)
def rethrow(m, x):
    # catch_ref and throw_ref from one handler to the next
    return (LOOP + lget(0) + EQZ64 + IF + RET + END + DEC
            + b'\x02\x69' + b'\x1f\x40' + vec([b'\x03\0']) + b'\x08\0' + END + b'\0' + END
            + lset(1) + b'\x1f\x40' + vec([b'\x02\0']) + lget(1) + b'\x0a' + END + END)


@shape()
def fill(m, x):
    return LOOP + i32c(65536) + i32c(1) + i32c(65536) + W.fc(11) + b'\0' + DECT + EQZ64 + b'\x45' + W.br_if(0) + END


@shape()
def copy(m, x):
    return LOOP + i32c(65536) + i32c(65537) + i32c(65535) + W.fc(10) + b'\0\0' + DECT + EQZ64 + b'\x45' + W.br_if(0) + END


@shape()
def table_fill(m, x):
    return LOOP + i32c(10) + b'\xd0\x70' + i32c(1000) + W.fc(17) + b'\0' + DECT + EQZ64 + b'\x45' + W.br_if(0) + END


@shape()
def grow(m, x):
    return LOOP + i32c(0) + b'\x40\0' + DROP + DECT + EQZ64 + b'\x45' + W.br_if(0) + END


@shape()
def rmw(m, x):
    return LOOP + i32c(600) + i32c(1) + b'\xfe\x1e\x02\0' + DROP + DECT + EQZ64 + b'\x45' + W.br_if(0) + END


@shape(mem=True)
def clock(m, x):
    return LOOP + i32c(1) + i64c(0) + i32c(640) + call(x['clock_time_get']) + NOERR + DECT + EQZ64 + b'\x45' + W.br_if(0) + END


@shape()
def yields(m, x):
    return LOOP + call(x['sched_yield']) + NOERR + DECT + EQZ64 + b'\x45' + W.br_if(0) + END


@shape(blocking=True)
def wait32(m, x):
    return i32c(512) + i32c(0) + (lget(0) + i64c(-1) + b'\x51\x04\x7e' + i64c(-1) + ELSE + i64c(5000000) + END) + b'\xfe\x01\x02\0' + DROP


@shape(blocking=True)
def wait64(m, x):
    return i32c(520) + i64c(0) + (lget(0) + i64c(-1) + b'\x51\x04\x7e' + i64c(HOUR) + ELSE + i64c(5000000) + END) + b'\xfe\x02\x03\0' + DROP


@shape(blocking=True)
def wait_loop(m, x):
    return LOOP + i32c(528) + i32c(0) + i64c(1000) + b'\xfe\x01\x02\0' + DROP + DECT + EQZ64 + b'\x45' + W.br_if(0) + END


def subscribe_clock(clk, abstime):
    # subscription at 128: userdata, tag 0, clock id, timeout, precision, flags
    b = i32c(128) + i64c(1) + b'\x37\x03\0' + i32c(128) + i64c(0) + b'\x37\x03\x08' + i32c(128) + i32c(clk) + b'\x36\x02\x10'
    return b


@shape(blocking=True, mem=True)
def sleep(m, x):
    t = lget(0) + i64c(-1) + b'\x51\x04\x7e' + i64c(HOUR) + ELSE + i64c(5000000) + END
    return (subscribe_clock(1, False) + i32c(128) + t + b'\x37\x03\x18' + i32c(128) + i64c(0) + b'\x37\x03\x28'
            + i32c(128) + i32c(64) + i32c(1) + i32c(640) + call(x['poll_oneoff']) + NOERR)


@shape(blocking=True, mem=True)
def sleep_abs(m, x):
    t = i32c(648) + b'\x29\x03\0' + lget(0) + i64c(-1) + b'\x51\x04\x7e' + i64c(HOUR) + ELSE + i64c(5000000) + END + b'\x7c'
    return (i32c(0) + i64c(0) + i32c(648) + call(x['clock_time_get']) + NOERR
            + subscribe_clock(0, True) + i32c(128) + t + b'\x37\x03\x18' + i32c(128) + i64c(1) + b'\x37\x03\x28'
            + i32c(128) + i32c(64) + i32c(1) + i32c(640) + call(x['poll_oneoff']) + NOERR)


@shape(blocking=True, mem=True)
def poll_stdin(m, x):
    return (i32c(128) + i64c(1) + b'\x37\x03\0' + i32c(128) + i64c(1) + b'\x37\x03\x08' + i32c(128) + i32c(0) + b'\x36\x02\x10'
            + i32c(128) + i32c(64) + i32c(1) + i32c(640) + call(x['poll_oneoff']) + NOERR)


def subscribed(i, tag, fd, at=128):
    """Subscription number i: tag 1 to read from fd, 2 to write; 0: an hour."""
    a = at + 48 * i
    b = i32c(a) + i64c(i + 1) + b'\x37\x03\0' + i32c(a) + i64c(tag) + b'\x37\x03\x08'
    if tag:
        return b + i32c(a) + fd + b'\x36\x02\x10'
    return b + i32c(a) + i64c(1) + b'\x37\x03\x10' + i32c(a) + i64c(HOUR) + b'\x37\x03\x18' + i32c(a) + i64c(0) + b'\x37\x03\x28'


def polled(x, n, at=128):
    return i32c(at) + i32c(1024) + i32c(n) + i32c(640) + call(x['poll_oneoff']) + NOERR


RFIF, WFIF = i32c(720) + b'\x28\x02\0', i32c(724) + b'\x28\x02\0'


@shape(blocking=True, mem=True)
def poll_two(m, x):
    return opened(x, 700, 'rfif', 0, 720) + subscribed(0, 1, i32c(0), 1536) + subscribed(1, 1, RFIF, 1536) + polled(x, 2, 1536)


@shape(blocking=True, mem=True)
def poll_same(m, x):
    return b''.join(subscribed(i, 1, i32c(0), 2048) for i in range(4)) + polled(x, 4, 2048)


@shape(blocking=True, mem=True)
def poll_timed(m, x):
    return (opened(x, 700, 'rfif', 0, 720) + subscribed(0, 1, RFIF, 2560) + subscribed(1, 0, b'', 2560) + subscribed(2, 1, i32c(0), 2560)
            + polled(x, 3, 2560))


@shape(blocking=True, mem=True)
def poll_loop(m, x):
    # ready every time
    return (opened(x, 704, 'wfif', 1, 724) + LOOP + subscribed(0, 1, i32c(0), 3072) + subscribed(1, 2, WFIF, 3072) + polled(x, 2, 3072)
            + DECT + EQZ64 + b'\x45' + W.br_if(0) + END)


@shape(blocking=True, mem=True)
def read_iovs(m, x):
    return (b''.join(i32c(3584 + 8 * i) + i32c(3700 + i) + b'\x36\x02\0' + i32c(3584 + 8 * i) + i32c(1) + b'\x36\x02\x04' for i in range(3))
            + i32c(0) + i32c(3584) + i32c(3) + i32c(640) + call(x['fd_read']) + NOERR)


@shape(blocking=True, mem=True)
def read_stdin(m, x):
    return i32c(256) + i32c(320) + b'\x36\x02\0' + i32c(256) + i32c(1) + b'\x36\x02\x04' + i32c(0) + i32c(256) + i32c(1) + i32c(640) + call(x['fd_read']) + NOERR


def opened(x, at, nm, rights, fd):
    return (i32c(at) + i32c(int.from_bytes(nm.encode(), 'little')) + b'\x36\x02\0'
            + i32c(3) + i32c(0) + i32c(at) + i32c(4) + i32c(0) + i64c(64 if rights else 2) + i64c(0) + i32c(0) + i32c(fd) + call(x['path_open']) + NOERR)


@shape(blocking=True, mem=True)
def read_fifo(m, x):
    return (opened(x, 700, 'rfif', 0, 720)
            + i32c(256) + i32c(320) + b'\x36\x02\0' + i32c(256) + i32c(1) + b'\x36\x02\x04'
            + i32c(720) + b'\x28\x02\0' + i32c(256) + i32c(1) + i32c(640) + call(x['fd_read']) + NOERR)


@shape(blocking=True, mem=True)
def write_fifo(m, x):
    # into a pipe nobody reads
    return (opened(x, 704, 'wfif', 1, 724)
            + LOOP + i32c(264) + i32c(0) + b'\x36\x02\0' + i32c(264) + lget(0) + i64c(0) + b'\x55\x04\x7f' + i32c(1) + ELSE + i32c(4096) + END + b'\x36\x02\x04'
            + i32c(724) + b'\x28\x02\0' + i32c(264) + i32c(1) + i32c(640) + call(x['fd_write']) + NOERR + DECT + EQZ64 + b'\x45' + W.br_if(0) + END)


@shape(blocking=True, mem=True)
def write_stdout(m, x):
    return (LOOP + i32c(272) + i32c(0) + b'\x36\x02\0' + i32c(272) + lget(0) + i64c(0) + b'\x55\x04\x7f' + i32c(1) + ELSE + i32c(4096) + END + b'\x36\x02\x04'
            + i32c(1) + i32c(272) + i32c(1) + i32c(640) + call(x['fd_write']) + NOERR + DECT + EQZ64 + b'\x45' + W.br_if(0) + END)


IMPORTS = [('clock_time_get', [I32, I64, I32]), ('sched_yield', []), ('poll_oneoff', [I32] * 4), ('fd_read', [I32] * 4), ('fd_write', [I32] * 4),
           ('path_open', [I32, I32, I32, I32, I32, I64, I64, I32, I32])]


TERM = ('exit', 'trap', 'return')


def module(main, threads, where='_start', n=-1, delays=None, storm=False):
    """main and each of threads: a shape, or 'exit', 'trap', 'return' after its
    delay; where: 'start' puts the main part in the start function,
    'thread-start' in the start function of the instances of threads."""
    m = W.Module()
    x = {}
    delays = delays or [20000000] * (len(threads) + 1)
    for nm, ps in IMPORTS:
        x[nm] = m.import_func('wasi_snapshot_preview1', nm, ps, [I32])
    x['exit'] = m.import_func('wasi_snapshot_preview1', 'proc_exit', [I32], [])
    spawn = m.import_func('wasi', 'thread-spawn', [I32], [I32])
    m.import_('env', 'memory', 2, W.limits(3, 8, True))
    m.export('memory', 2, 0)
    m.table(FUNCREF, 2000)
    if any(SHAPES[s][1] for s in [main, *threads] if s in SHAPES):
        m.tag([])
    fs = {}

    def part(s, ns):
        if s in TERM:
            # let the others get going
            b = i32c(536) + i32c(0) + i64c(ns) + b'\xfe\x01\x02\0' + DROP
            return b + {'exit': i32c(42) + call(x['exit']), 'trap': b'\0', 'return': b''}[s]
        if s not in fs:
            fs[s] = m.func([I64], [])
            m.set_body(fs[s], [EXNREF] if s == 'rethrow' else [], SHAPES[s][0](m, x))
        return i64c(n) + call(fs[s])
    body = b''.join(i32c(i) + call(spawn) + i32c(0) + b'\x48' + IF + i32c(9) + call(x['exit']) + END for i in range(len(threads)))
    if storm:
        body += LOOP + i32c(1000) + call(spawn) + DROP + W.br(0) + END
    thread_start = where == 'thread-start' and part(main, delays[-1])
    if thread_start:
        # a flag in memory tells the start function it runs for a thread
        body += i32c(800) + i32c(1) + b'\x36\x02\0' + i32c(0) + call(spawn) + DROP + LOOP + W.br(0) + END
        m.start = m.func([], [], [], i32c(800) + b'\x28\x02\0' + IF + thread_start + END)
    else:
        body += part(main, delays[-1])
    if n != -1:
        body += i32c(42) + call(x['exit'])
    st = m.func([], [], [], b'' if where == 'start' else body)
    m.export('_start', 0, st)
    if where == 'start':
        m.start = m.func([], [], [], body)
    tb = b''
    for i, s in enumerate(threads):
        tb += lget(1) + i32c(i) + b'\x46' + IF + part(s, delays[i]) + END
    m.export('wasi_thread_start', 0, m.func([I32, I32], [], [], tb))
    return m.encode()


def library(kind, lib, n=-1):
    """dyld: a main module or library which loops in the given place."""
    m = W.Module()
    m.import_('env', 'memory', 2, W.limits(0))
    m.import_('env', '__indirect_function_table', 1, b'\x70' + W.limits(0))
    m.import_('env', '__memory_base', 3, b'\x7f\0')
    ex = dlopen = None
    needs = []
    if not lib:
        ex = m.import_func('wasi_snapshot_preview1', 'proc_exit', [I32], [])
        if kind == 'dlopen':
            dlopen = m.import_func('dyld', 'load_object', [I32] * 4, [I32])
            m.datas.append(b'\0' + b'\x23\0' + END + W.name('lib.so'))
        else:
            needs = ['lib.so']
            f = m.import_func('env', 'f', [], [])
        loop = b''
        if kind == 'dlopen':
            # a limit reached while loading makes it fail; go on then
            loop = gget(0) + i32c(6) + i32c(0) + gget(0) + i32c(8) + b'\x6a' + call(dlopen) + IF + (LOOP + W.br(0) + END if n == -1 else i32c(9) + call(ex)) + END
        if kind == 'plt':
            loop = i64c(n) + lset(0) + LOOP + call(f) + DECT + EQZ64 + b'\x45' + W.br_if(0) + END
        m.efunc('_start', [], [], [I64], loop + i32c(42) + call(ex))
    else:
        spin = i64c(n) + lset(0) + SHAPES['br_if'][0](m, None)
        m.efunc('f', [], [], [I64], spin if kind == 'libfunc' else b'')
        if kind in ('ctor', 'dlopen'):
            m.efunc('__wasm_call_ctors', [], [], [I64], spin)
        if kind == 'relocs':
            m.efunc('__wasm_apply_data_relocs', [], [], [I64], spin)
        if kind == 'libstart':
            m.start = m.func([], [], [I64], spin)
    if not lib and kind == 'libfunc':
        m.set_body(m.nimp[0], [I64], call(f) + i32c(42) + call(ex))
    sub = bytes([1, 4, 16, 0, 0, 0])
    if needs:
        p = vec(W.name(x) for x in needs)
        sub += bytes([2]) + leb_u(len(p)) + p
    m.customs.append(('pre', 'dylink.0', sub))
    return m.encode()


class Case:
    def __init__(self, exe, expect, kind, t=None, main=None, threads=(), where='_start', n=-1, delays=None, storm=False, dyld=None):
        self.__dict__.update(exe=exe, expect=expect, kind=kind, t=t, main=main, threads=list(threads), where=where, n=n, delays=delays, storm=storm, dyld=dyld)

    def key(self):
        return f'{self.kind}:{self.where}:{self.dyld or self.main}' + (':' + '+'.join(sorted(self.threads)) if self.threads else '')


def once(cs, exes):
    """(verdict key, text, seconds)"""
    d = tempfile.mkdtemp(prefix='c28-', dir=TMP)
    hs = []
    p = None
    try:
        opts = []
        if cs.dyld:
            for nm, lib in (('main.wasm', False), ('lib.so', True)):
                with open(f'{d}/{nm}', 'wb') as f:
                    f.write(library(cs.dyld, lib, cs.n))
            opts = ['--dyld', '--dyld-path', d, '--dyld-dlfcn']
            fn = d + '/main.wasm'
        else:
            fn = d + '/m.wasm'
            with open(fn, 'wb') as f:
                f.write(module(cs.main, cs.threads, cs.where, cs.n, cs.delays, cs.storm))
        for nm in ('rfif', 'wfif'):
            os.mkfifo(f'{d}/{nm}')
            hs.append(os.open(f'{d}/{nm}', os.O_RDWR | os.O_NONBLOCK))
        if cs.n != -1:
            os.write(hs[0], b'x' * 100)
        if cs.t is not None:
            opts += ['--timeout', str(cs.t)]
        hs += os.pipe()
        if cs.n != -1:
            os.write(hs[-1], b'x' * 100)
        with open(d + '/err', 'wb') as ef:
            t0 = time.monotonic()
            p = subprocess.Popen([exes[cs.exe], '--wasi', '--wasi-dir', d + '::.', *opts, '--', fn], stdin=hs[-2], stdout=subprocess.PIPE, stderr=ef,
                                 env=tool_env(), start_new_session=True)
        # nobody reads the output until the program should have ended
        # (messages go to the same stream)
        late = t0 + (cs.t / 1000 + 0.05 if cs.expect == 'timeout' else 0.15)
        os.set_blocking(p.stdout.fileno(), False)
        out = b''
        rc = None
        while True:
            now = time.monotonic()
            if now > late:
                try:
                    out = (out + (p.stdout.read() or b''))[-4000:]
                except OSError:
                    pass
            rc = p.poll()
            if rc is not None:
                el = time.monotonic() - t0
                break
            if now - t0 > (4 if cs.where == 'thread-start' and cs.expect == 'timeout' else BOUND):
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return 'hang', f'still running {now - t0:.1f} s after its start', now - t0
            time.sleep(0.003)
        try:
            out = (out + (p.stdout.read() or b''))[-4000:]
        except OSError:
            pass
        with open(d + '/err', 'rb') as f:
            err = f.read()[-20000:].decode('utf-8', 'replace')
        out = out.replace(b'\0', b'').decode('utf-8', 'replace')
        what = f'exit status {rc} after {el:.2f} s; stdout ...{out[-300:]!r} stderr ...{err[-600:]!r}'
        if rc < 0 or rc in (66, 86, 87, 88) or 'Sanitizer' in err or 'runtime error' in err:
            if rc == -signal.SIGKILL:
                raise Inconclusive('killed')
            return 'crash', crash_summary(err, rc) + '; ' + what, el
        if cs.expect == 'timeout':
            if rc == 0 or 'execution timed out' not in err:
                return 'outcome', 'not reported as timed out: ' + what, el
            if el * 1000 < cs.t:
                return 'early', f'timed out {cs.t - el * 1000:.1f} ms early: ' + what, el
        elif cs.expect == 'trap':
            if rc in (0, 42) or 'timed out' in err or '[trap]' not in out or 'unreachable' not in out:
                return 'outcome', 'expected the trap of one of the threads: ' + what, el
        else:
            if rc != cs.expect or 'timed out' in err:
                return 'outcome', f'expected exit status {cs.expect}: ' + what, el
        return None, what, el
    finally:
        if p is not None:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            p.stdout.close()
        for h in hs:
            os.close(h)
        shutil.rmtree(d, ignore_errors=True)


def cases(c):
    r = c.sub_rng('cases')
    out = []
    names = list(SHAPES)
    builds = ['rel', 'asan', 'dbg', 'v10']

    def lim():
        return r.randrange(30, 350)
    for e in builds:
        # every shape alone, and within a limit it doesn't reach
        for s in names:
            for where in ('_start', 'start'):
                # the memory of the instance is not known to WASI in start functions
                if where == 'start' and SHAPES[s][3]:
                    continue
                for _ in range(c.scale(1, 6)):
                    out.append(Case(e, 'timeout', 'limit', lim(), s, (), where))
            # (the limits are just over 2**32 ns or us, or a multiple of it)
            for t in (None, 429497, 4294968, 2**31 - 1):
                out.append(Case(e, 42, 'unaffected', t, s, (), '_start', 30))
            # in another thread; main in another or ending it all
            for _ in range(c.scale(1, 8)):
                out.append(Case(e, 'timeout', 'limit', lim(), r.choice(names), [s] * r.choice([1, 1, 2])))
            for term in TERM:
                exp = {'exit': 42, 'trap': 'trap', 'return': 0}[term]
                for _ in range(c.scale(1, 6)):
                    ds = [r.choice([0, r.randrange(1000000), r.randrange(60000000)]) for _ in range(3)]
                    out.append(Case(e, exp, 'ended-by-main', None, term, [s, r.choice(names)], delays=ds))
                    if term != 'return':
                        # the terminator is one of the threads
                        th = [term, r.choice(names)]
                        r.shuffle(th)
                        out.append(Case(e, exp, 'ended-by-thread', r.choice([None, 600000]), s, th, delays=ds))
        for _ in range(c.scale(15, 120)):
            # larger mixes
            k = r.randrange(2, 7)
            th = [r.choice(names) for _ in range(k)]
            ds = [r.randrange(60000000) for _ in range(k + 1)]
            q = r.random()
            if q < 0.4:
                out.append(Case(e, 'timeout', 'limit', lim(), r.choice(names), th + ['return'] * r.choice([0, 0, 1]), delays=ds + [1000000]))
            elif q < 0.7:
                term = r.choice(['exit', 'trap'])
                th[r.randrange(k)] = term
                out.append(Case(e, 42 if term == 'exit' else 'trap', 'ended-by-thread', None, r.choice(names), th, delays=ds))
            else:
                term = r.choice(TERM)
                out.append(Case(e, {'exit': 42, 'trap': 'trap', 'return': 0}[term], 'ended-by-main', None, term, th, delays=ds))
        for s in ('return', 'br_if', 'sleep', 'wait32'):
            out.append(Case(e, 'timeout', 'limit-storm', lim(), s, [], storm=True))
        # the start function of an instance made for a thread
        if e == 'rel':
            out.append(Case(e, 'timeout', 'limit', 100, 'br_if', [], 'thread-start'))
        for s in names:
            # (the userland scheduler doesn't run other threads meanwhile)
            if e != 'v10' and r.random() < c.scale(0.3, 1) and s not in ('write_stdout', 'rethrow') and not SHAPES[s][1]:
                term = r.choice(['exit', 'trap'])
                ds = [20000000 + r.randrange(60000000)] * 2
                out.append(Case(e, 42 if term == 'exit' else 'trap', 'ended-by-thread', None, s, [term], 'thread-start', delays=ds))
        for k in ('ctor', 'relocs', 'libstart', 'dlopen', 'plt', 'libfunc'):
            for _ in range(c.scale(1, 4)):
                out.append(Case(e, 'timeout', 'limit', lim(), dyld=k))
            out.append(Case(e, 42, 'unaffected', r.choice([None, 600000]), dyld=k, n=30))
    r.shuffle(out)
    return out


TMP = None


def main(c):
    global TMP
    c.rule = 'cases whose program ended (or not) with a verdict, by build, place, shapes of all threads, limit class'
    c.assumptions = [f'a program ends within {BOUND} s of the request; a hang is reported when the case hangs again alone',
                     'messages to a full standard output wait for a reader: the output is read after the request']
    TMP = scratch_dir('c28-')
    p = build.build_many(['rel', 'asan', 'dbg', 'v10'])
    exes = {k: v + '/bin/toywasm' for k, v in p.items()}
    c.log('built')
    cs = cases(c)
    if 'C28_ONLY' in os.environ:
        cs = [x for x in cs if os.environ['C28_ONLY'] in x.key()]
    redo = []
    hist = {}
    slow = 0.0
    hangs = 0
    with cf.ThreadPoolExecutor(NPROC) as ex:
        def job(i):
            if hangs > 24:
                return None
            return once(cs[i], exes)
        for i, res in enumerate(ex.map(job, range(len(cs)))):
            if res is None:
                continue
            x = cs[i]
            k, what, el = res
            c.evaluations += 1
            c.distinct((x.exe, x.kind, x.where, x.dyld, x.main, tuple(sorted(x.threads)), x.t is None, x.n))
            if k:
                redo.append((i, k, what))
                hangs += k == 'hang'
                continue
            hist[x.kind] = hist.get(x.kind, 0) + 1
            if x.n == -1:
                over = el - (x.t or 0) / 1000
                slow = max(slow, over)
            if x.threads:
                c.sample(f'{x.exe} {x.key()} limit={x.t}: {what[:160]}')
    for i, k, what in redo:
        x = cs[i]
        again = what
        if k in ('hang', 'early', 'outcome'):
            # only what repeats on an idle machine counts
            k2, again, _ = once(x, exes)
            if k2 is None:
                k2, again, _ = once(x, exes)
            if k2 is None:
                c.coverage['not_repeated'] = c.coverage.get('not_repeated', 0) + 1
                c.log('not repeated:', x.exe, x.key(), k, what[:300])
                continue
            k = k2
        c.violation(f'{k}:{x.key()}', f'{x.exe} {x.kind} main={x.dyld or x.main} threads={x.threads} limit={x.t} where={x.where}: {again}',
                    dict(case={a: b for a, b in x.__dict__.items()}))
        if len(c.violations) >= 6:
            break
    c.coverage.update(cases=len(cs), slowest_end_s=round(slow, 2), **{k.replace('-', '_'): v for k, v in sorted(hist.items())})
    if not c.violations and len(hist) < 4 and 'C28_ONLY' not in os.environ:
        raise Inconclusive(f'kinds of cases missing: {hist}')


if __name__ == '__main__':
    run_check('C28', main)
