"""Drives guest/poll.c: scripted polls, blocking transfers and clock readings
on one side, the other ends of its pipes and sockets on this one.  Both sides
take times of CLOCK_MONOTONIC, so the two logs can be ordered."""
import fcntl
import os
import random
import select
import signal
import socket
import struct
import subprocess
import threading
import time

from . import guest
from .common import crash_summary, tool_env

MS = 1_000_000
TOL = 200_000           # ns: a timer may be computed with another clock
SLACK = 4_000_000_000
M64 = (1 << 64) - 1


def gen(seed, i):
    z = (seed * 1000003 + i + 0x9e3779b97f4a7c15) & M64
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return (z ^ (z >> 31)) & 0xff


def stream(seed, n):
    return bytes(gen(seed, i) for i in range(n))


class Fail(Exception):
    pass


class Late(Exception):
    pass


class Guest:
    def __init__(self, cli, d, script, stdin, opts=(), env=None):
        os.makedirs(d + '/w', exist_ok=True)
        with open(d + '/w/s', 'wb') as f:
            f.write(struct.pack(f'<{len(script)}Q', *[x & M64 for x in script]))
        self.d = d
        self.out = b''
        self.err = open(d + '/err', 'wb+')
        self.p = subprocess.Popen([cli, '--wasi', '--wasi-dir', d + '/w::/', '--timeout', '100000', *opts, guest.wasm('poll')], stdin=stdin,
                                  stdout=subprocess.PIPE, stderr=self.err, env=tool_env(leaks=True), cwd=d, start_new_session=True)

    def byte(self, timeout=60):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            raise Late('nothing from the guest')
        b = os.read(self.p.stdout.fileno(), 1)
        if not b:
            raise Fail('the guest ended early')
        return b

    def finish(self, timeout=60):
        try:
            self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            raise Late('the guest does not end') from None

    def kill(self):
        if self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        self.p.stdout.close()

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode('utf-8', 'replace')

    def log(self):
        with open(self.d + '/w/log', 'rb') as f:
            return Log(f.read())


class Log:
    def __init__(self, b):
        self.b, self.i = b, 0

    def w(self):
        if self.i + 8 > len(self.b):
            raise Fail('the log of the guest is too short')
        v, = struct.unpack_from('<Q', self.b, self.i)
        self.i += 8
        return v

    def ws(self, n):
        return [self.w() for _ in range(n)]

    def data(self, n):
        v = self.b[self.i:self.i + n]
        self.i += n
        return v


def now():
    return time.clock_gettime_ns(time.CLOCK_MONOTONIC)


# ---- polls ----

class Polls:
    """Three pipes to the guest, two from it (full or empty), one file."""
    def __init__(self, cli, d, seed, grow):
        self.cli, self.d, self.r, self.grow = cli, d, random.Random(seed), grow
        self.events = {}

    def setup(self):
        os.makedirs(self.d + '/w')
        self.wr, self.rd, self.keep = {}, {}, []
        for i in range(5):
            p = f'{self.d}/w/f{i}'
            os.mkfifo(p)
            a = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
            if i < 3:
                self.keep.append(a)
                self.wr[i] = os.open(p, os.O_WRONLY | os.O_NONBLOCK)
            else:
                fcntl.fcntl(a, 1031, 4096)      # F_SETPIPE_SZ
                self.rd[i] = a
        with open(self.d + '/w/f5', 'wb') as f:
            f.write(b'x' * 100)

    def plan(self, n):
        r = self.r
        fd = {i: 5 + i for i in range(6)}
        s = []
        self.steps = steps = []
        for i in range(6):
            s += [6, i, 2 if i < 3 else 64 if i < 5 else 66, 0 if i < 3 or i == 5 else 4]
            steps.append(('open', fd[i]))
        if self.grow:
            s += [11, r.choice((1, 3, 10)) * MS, r.randrange(20, 150)]
            steps.append(('spawn',))
        pend = {0: b'', 1: b'', 2: b''}
        hup = set()
        full = set()
        for k in range(n):
            # some pipes are filled or drained first
            for i in (3, 4):
                if i not in full and r.random() < 0.4:
                    s += [3, fd[i], k * 10 + i, r.choice((1, 100, 512, 4096))]
                    steps.append(('fill', i))
                    full.add(i)
            subs, acts, used = [], [], set()
            for _ in range(r.randrange(0, 6)):
                q = r.random()
                i = r.choice((0, 1, 2, 0, 1, 3, 4, 3, 5))
                if q < 0.06:
                    subs.append((r.choice((1, 2)), r.choice((200, 0xffffffff, 3)), 'bad'))
                    continue
                t = 1 if i < 3 else 2 if i < 5 else r.choice((1, 2))
                subs.append((t, fd[i], i))
                used.add(i)
            ready = any(w == 'bad' or w == 5 or w in (0, 1, 2) and (pend[w] or w in hup) or w in (3, 4) and w not in full for _, _, w in subs)
            waitable = [w for w in used if w in (0, 1, 2) and w not in hup and not pend[w] or w in full]
            timer, far = None, False
            if not subs or r.random() < 0.6 or not (ready or waitable):
                timer = r.choice((0, 1000, MS, 3 * MS + 1, 20 * MS, 49 * MS, 50 * MS, 51 * MS, 120 * MS, 330 * MS, r.randrange(200 * MS)))
                # one that is not due before something else is
                far = bool(ready or waitable) and r.random() < 0.3
                if far:
                    timer = r.choice((2148, 4295, 4310, 8590, 20000, 3600000, 4294968, 42949673, 86400000, 2000000000)) * MS
                subs.insert(r.randrange(len(subs) + 1), (0, r.choice((0, 1)), timer, r.choice((0, 0, 1))))
            cand = waitable if (waitable and (timer is None or r.random() < 0.6)) else []
            if (timer is None or far) and not ready and not cand:
                cand = waitable
            go = 0
            for w in r.sample(cand, min(len(cand), r.choice((1, 1, 2)))):
                go = 1
                dl = r.choice((0, 1, 5, 30, 60, 110, 160)) / 1000
                if w < 3:
                    if len(hup) < 2 and r.random() < 0.15:
                        acts.append((dl, 'hup', w, b''))
                    else:
                        acts.append((dl, 'write', w, bytes([65 + k % 26]) * r.choice((1, 10, 500))))
                else:
                    acts.append((dl, 'drain', w, b''))
            acts.sort(key=lambda a: a[0])
            s += [1, len(subs), go]
            us = []
            for x in subs:
                u = r.choice((0, 1, M64, r.randrange(1 << 64)))
                while u in us:
                    u = r.randrange(1 << 64)
                us.append(u)
                s += [x[0], u] + ([x[1], x[2], x[3]] if x[0] == 0 else [x[1], 0, 0])
            steps.append(('poll', list(zip(subs, us)), acts, dict(pend), set(hup), set(full), go))
            for dl, a, w, b in acts:
                if a == 'write':
                    pend[w] += b
                elif a == 'hup':
                    hup.add(w)
                else:
                    full.discard(w)
            s += [9]
            steps.append(('token',))
            # read what is pending, sometimes; sometimes block for it
            for w in (0, 1, 2):
                if pend[w] and r.random() < 0.6:
                    m = r.choice((1, 5, 4096))
                    s += [2, fd[w], m, r.choice((1, 2, 4)), 0]
                    steps.append(('read', pend[w][:m], None))
                    pend[w] = pend[w][m:]
                elif not pend[w] and w in hup and r.random() < 0.3:
                    s += [2, fd[w], 10, 1, 0]
                    steps.append(('read', b'', None))
                elif not pend[w] and w not in hup and r.random() < 0.15:
                    b = bytes([97 + k % 26]) * r.choice((1, 300))
                    s += [2, fd[w], 1000, r.choice((1, 3)), 1]
                    steps.append(('read', b, (r.choice((0, 5, 60, 120)) / 1000, 'write', w, b)))
                    s += [9]
                    steps.append(('token',))
        return s + [0]

    def act(self, a):
        _, what, w, b = a
        t0 = now()
        if what == 'write':
            assert os.write(self.wr[w], b) == len(b)
        elif what == 'hup':
            os.close(self.wr.pop(w))
        else:
            n = 0
            while True:
                try:
                    n += len(os.read(self.rd[w], 65536))
                except BlockingIOError:
                    break
            self.drained.append(n)
        return t0, now()

    def run(self, n):
        self.setup()
        script = self.plan(n)
        pr, pw = os.pipe()
        g = Guest(self.cli, self.d, script, pr)
        os.close(pr)
        self.drained, times, tokens = [], [], []
        try:
            try:
                for st in self.steps:
                    acts = st[2] if st[0] == 'poll' else [st[2]] if st[0] == 'read' and st[2] else []
                    if acts:
                        b = g.byte()
                        if b != b'G':
                            raise Fail(f'{b} instead of G')
                        tg, tt = time.monotonic(), []
                        for a in acts:
                            time.sleep(max(0, tg + a[0] - time.monotonic()))
                            tt.append(self.act(a))
                        times.append(tt)
                    if st[0] == 'token':
                        t0 = (time.time_ns(), now())
                        os.write(pw, b'k')
                        b = g.byte()
                        if b != b'T':
                            raise Fail(f'{b} instead of T')
                        tokens.append((t0, (time.time_ns(), now())))
                g.finish()
            except (Fail, Late, BrokenPipeError) as e:
                if g.p.poll() is None:
                    time.sleep(0.3)
                if g.p.poll() not in (None, 0):
                    raise Fail('crash: ' + crash_summary(g.stderr(), g.p.returncode)) from None
                raise
            if g.p.returncode != 0:
                raise Fail(f'exit status {g.p.returncode}: ' + crash_summary(g.stderr(), g.p.returncode))
            self.judge(g.log(), iter(times), iter(tokens))
        finally:
            g.kill()
            for f in [pw] + self.keep + list(self.wr.values()) + list(self.rd.values()):
                os.close(f)

    def see(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    def judge(self, log, times, tokens):
        lastm, last = 0, [0, 0]
        for st in self.steps:
            op = log.w()
            if st[0] == 'open':
                e, fd = log.ws(2)
                if (op, e, fd) != (6, 0, st[1]):
                    raise Fail(f'path_open of a pipe: {e}, descriptor {fd}, expected {st[1]}')
            elif st[0] == 'spawn':
                log.w()
            elif st[0] == 'fill':
                e, n = log.ws(2)
                if e != 6 or n == 0:
                    raise Fail(f'writing to a full non-blocking pipe gave {e} after {n} bytes')
            elif st[0] == 'token':
                q, t, cp, ct = log.ws(4)
                (a0, a1), (b0, b1) = next(tokens)
                if not a1 <= t <= b1:
                    raise Fail(f'the monotonic clock read {t}, between {a1} and {b1} on the host')
                if not a0 - TOL <= q <= b0 + TOL:
                    raise Fail(f'the realtime clock read {q}, between {a0} and {b0} on the host')
                if t < lastm or cp < last[0] or ct < last[1]:
                    raise Fail(f'a clock went back: {(lastm, *last)} to {(t, cp, ct)}')
                if ct > cp + MS:
                    raise Fail(f'the thread used more time than the process: {ct} {cp}')
                lastm, last = t, [cp, ct]
                self.see('clock')
            elif st[0] == 'read':
                e, n, t0, t1 = log.ws(4)
                d = log.data(n)
                if e or d != st[1]:
                    raise Fail(f'fd_read gave {e} {d[:40]!r} of {n} bytes, expected {st[1][:40]!r} of {len(st[1])}')
                if st[2]:
                    (x0, x1), = next(times)
                    if t1 < x0:
                        raise Fail(f'a read returned {(x0 - t1) / 1e6:.2f} ms before data was there')
                    if t1 > max(t0, x1) + SLACK:
                        raise Late(f'a read returned {(t1 - x1) / 1e6:.0f} ms after data was there')
                    self.see('blocked read')
                else:
                    self.see('read')
            elif st[0] == 'poll':
                self.poll(st, log, next(times) if st[2] else [])
        if log.w() != 0:
            raise Fail('log')

    def poll(self, st, log, times):
        _, subs, acts, pend, hup, full, go = st
        e, n, t0, t1, q0, q1 = log.ws(6)
        tmo = log.ws(len(subs))
        nclk = sum(1 for x, _ in subs if x[0] == 0)
        desc = f'poll of {[x for x, _ in subs]}'
        if e != 0:
            raise Fail(f'{desc} gave error {e}')
        if not 1 <= n <= len(subs):
            raise Fail(f'{desc} gave {n} events')
        ev = [tuple(log.ws(3)) for _ in range(n)]
        lastm = t1
        # when each condition may hold and when it surely does
        may, sure = {}, {}
        for x, u in subs:
            w = x[2]
            if x[0] == 0:
                continue
            if w == 'bad' or w == 5 or w in (0, 1, 2) and (pend[w] or w in hup) or w in (3, 4) and w not in full:
                may[u] = sure[u] = 0
            else:
                for a, (x0, x1) in zip(acts, times):
                    if a[2] == w:
                        may[u], sure[u] = min(may.get(u, x0), x0), min(sure.get(u, x1), x1)
        by = {u: (x, t) for (x, u), t in zip(subs, tmo)}
        seen = set()
        best = min(sure.values(), default=None)
        for x, u in subs:
            if x[0] == 0:
                tt = by[u][1]
                dl = t0 + tt if not x[3] else (tt - (q0 - t0) if x[1] == 0 else tt)
                dl += 50 * MS
                best = dl if best is None else min(best, dl)
        for u, err, typ in ev:
            if u not in by or u in seen:
                raise Fail(f'{desc}: an event with user data {u:#x}, which is not of one subscription: {ev}')
            seen.add(u)
            x, t = by[u]
            if typ != x[0]:
                raise Fail(f'{desc}: the event for {x} has type {typ}')
            if x[0] == 0:
                if err:
                    raise Fail(f'{desc}: timer event with error {err}')
                el = (t1 - t0 - t) if not x[3] else (q1 - t if x[1] == 0 else t1 - t)
                if el < -(TOL + t // 1000 if not x[3] else TOL):
                    raise Fail(f'{desc}: the timer fired {-el / 1e6:.3f} ms early')
                self.see('timer')
                continue
            if x[2] == 'bad':
                if err == 0:
                    raise Fail(f'{desc}: no error for a bad descriptor')
                self.see('bad')
                continue
            if u not in may or may[u] > t1:
                raise Fail(f'{desc}: event for {x}, which was not ready: {[a[1:3] for a in acts]}')
            w = x[2]
            hung = w in hup or any(a[1] == 'hup' and a[2] == w for a in acts)
            if err and not hung:
                raise Fail(f'{desc}: event for {x} with error {err}')
            self.see('hangup' if hung else 'read ready' if x[0] == 1 else 'write ready')
        if best is not None and t1 > max(t0, best) + SLACK:
            raise Late(f'{desc} returned {(t1 - max(t0, best)) / 1e6:.0f} ms late')


# ---- transfers ----

def feed(fd, data, r, sock=None, delays=True):
    i = 0
    try:
        while i < len(data):
            n = r.choice((1, 10, 100, 1000, 5000, 20000))
            if delays and r.random() < 0.15:
                time.sleep(r.choice((0, 0.001, 0.02, 0.06)))
            i += os.write(fd, data[i:i + n])
    except BrokenPipeError:
        pass


def drain(fd, r, out, delays=True):
    while True:
        if delays and r.random() < 0.15:
            time.sleep(r.choice((0, 0.001, 0.02, 0.06)))
        b = os.read(fd, r.choice((1, 50, 1000, 4096, 65536)))
        if not b:
            return
        out.append(b)


def pieces(log):
    """the records of op 17"""
    if log.w() != 17:
        raise Fail('log')
    out, n = [], 0
    while True:
        e, k, l = log.ws(3)
        if e:
            raise Fail(f'a read gave error {e} after {sum(map(len, out))} bytes')
        if k > l:
            raise Fail(f'a read of {l} bytes gave {k}')
        if k == 0:
            return b''.join(out), len(out)
        out.append(log.data(k))


def same(what, got, want):
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Fail(f'{what}: {len(got)} bytes instead of {len(want)}, different at {i}')


def transfer(cli, d, seed, grow):
    """bytes in and out through pipes, socket pairs and accepted connections"""
    r = random.Random(seed)
    os.makedirs(d + '/w')
    kind = r.choice(('pipe', 'socketpair', 'listen', 'listen'))
    nb = r.choice((0, 4))
    inb = random.Random(seed + 1).randbytes(r.choice((0, 1, 4000, 70000, 200000)))
    total = r.choice((1, 5000, 70000, 300000))
    m1, m2 = r.choice((3, 700, 9000, 100000)), r.choice((40, 700, 9000, 70000, 200000))
    if m1 == 3:
        inb = inb[:6000]
    if m2 == 40:
        total = min(total, 6000)
    sd = r.randrange(1 << 30)
    s = []
    if grow:
        s += [11, 3 * MS, 40]
    ins, outs = None, None
    closers = []
    if kind == 'pipe':
        a, ins = os.pipe()
        stdin = a
        s += ([8, 0, 4] if nb else []) + [17, 0, m1, sd, 0]
        s += ([8, 1, 4] if nb else []) + [18, 1, total, sd, m2, 0]
    elif kind == 'socketpair':
        x, y = socket.socketpair()
        stdin = x.detach()
        ins = y.detach()
        outs = ins
        s += ([8, 0, 4] if nb else []) + [17, 0, m1, sd, 1, 18, 0, total, sd, m2, 1, 15, 0, 2]
    else:
        ls = socket.socket(socket.AF_UNIX)
        ls.bind(d + '/s')
        ls.listen(4)
        stdin = ls.detach()
        s += [12, 0, nb, 1, 13, 5, 2, 1, 17, 5, m1, sd, 1, 18, 5, total, sd, m2, 1, 15, 5, 2, 7, 5]
        if not inb:
            inb = b'q'
        if nb:
            # wait until there is something to peek at
            i = s.index(13)
            s[i:i] = [1, 1, 0, 1, 77, 5, 0, 0]
    g = Guest(cli, d, s + [0], stdin)
    os.close(stdin)
    fcntl.fcntl(g.p.stdout, 1031, r.choice((4096, 65536)))       # F_SETPIPE_SZ
    got = []
    tconn = None
    try:
        try:
            if kind == 'listen':
                if g.byte() != b'G':
                    raise Fail('G')
                time.sleep(r.choice((0, 0.01, 0.08)))
                c = socket.socket(socket.AF_UNIX)
                tconn = now()
                c.connect(d + '/s')
                ins = outs = c.detach()
            tin = threading.Thread(target=lambda: (feed(ins, inb, random.Random(seed + 2)),
                                                   os.close(ins) if kind == 'pipe' else socket.socket(fileno=os.dup(ins)).shutdown(1)))
            tout = threading.Thread(target=drain, args=(g.p.stdout.fileno() if outs is None else outs, random.Random(seed + 3), got))
            tin.start()
            tout.start()
            g.finish(90)
            tin.join(60)
            tout.join(60)
            if tin.is_alive() or tout.is_alive():
                raise Late('the transfer does not end')
        except (Fail, Late) as e:
            g.kill()
            if g.p.returncode not in (0, -9):
                raise Fail('crash: ' + crash_summary(g.stderr(), g.p.returncode)) from None
            raise
        if g.p.returncode != 0:
            raise Fail(f'exit status {g.p.returncode}: ' + crash_summary(g.stderr(), g.p.returncode))
        log = g.log()
        if grow:
            log.ws(2)
        if kind == 'listen':
            op, e, fd, t0, t1 = log.ws(5)
            if (op, e, fd) != (12, 0, 5):
                raise Fail(f'sock_accept gave {e}, descriptor {fd}')
            if t1 < tconn:
                raise Fail('sock_accept returned before there was a connection')
            if nb:
                log.ws(8)
                log.ws(3)
            op, e, n, ro = log.ws(4)
            if op != 13 or e or n < 1 or log.data(n) != inb[:n]:
                raise Fail(f'peeking gave {e} {n}')
        elif nb:
            if log.ws(2) != [8, 0]:
                raise Fail('fd_fdstat_set_flags')
        b, k = pieces(log)
        same(f'{kind}: read by the guest', b, inb)
        if kind == 'pipe' and nb and log.ws(2) != [8, 0]:
            raise Fail('fd_fdstat_set_flags')
        op, e, done, waits = log.ws(4)
        if e or done != total:
            raise Fail(f'{kind}: writing gave error {e} after {done} bytes')
        same(f'{kind}: written by the guest', b''.join(got), stream(sd, total))
        return {f'{kind} bytes in': len(inb), f'{kind} bytes out': total, f'{kind} pieces': k, 'write waits': waits}
    finally:
        g.kill()
        if kind != 'pipe' and ins is not None:
            os.close(ins)       # that of a pipe was closed by the feeder
