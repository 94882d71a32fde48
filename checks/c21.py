"""C21: WASI calls with hostile arguments.  Each call gets arbitrary numbers
and pointers; afterwards the whole linear memory is compared with what it was
before: only the output areas of the call may differ, only as far as the call
reports, and not at all when it returned an error."""
import concurrent.futures as cf
import multiprocessing as mp
import os
import random
import shutil
import struct
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import wasi, wasifs  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import NPROC, crash_summary, run_check, scratch_dir, tool_env  # noqa: E402
from vp.wasm import I32, I64  # noqa: E402

PAGES = 2
SIZE = PAGES * 65536
TOP = SIZE - wasi.RESERVED
OUT = 4
ENV = ['A=bc', 'LONGNAME=' + 'v' * 40]
STRS = [b'a', b'd0', b'd0/x', b'l0', b'..', b'.', b'/etc', b'new', b'x' * 300, b'z' * 5000, b'd0/f\0g', b'', b'\xff\xfe', b'e0', b'd0/n']
ABIS = {'p': 'wasi_snapshot_preview1', 'u': 'wasi_unstable'}


class Gen:
    def __init__(self, seed):
        self.r = r = random.Random(seed)
        img = bytearray(b'\xa5') * SIZE
        self.strs, self.iovs, self.subs = [], [], []
        p = 256
        for s in STRS:
            img[p:p + len(s)] = s
            self.strs.append((p, len(s)))
            p += len(s) + r.randrange(1, 9)
        p = (p + 15) & -8
        # vectors: some fine, some with wild members
        for _ in range(12):
            n = r.choice((1, 1, 2, 3, 8))
            self.iovs.append((p, n))
            for _ in range(n):
                b, l = r.choice(((r.randrange(20000, 90000), r.choice((0, 1, 5, 100, 3000))), (self.ptr(0), r.choice((0, 1, 64))),
                                 (r.randrange(SIZE - 70, SIZE + 5), r.choice((1, 32, 70))), (r.randrange(1 << 32), r.randrange(1 << 32)),
                                 (0, SIZE), (0, SIZE + 1), (0xffffffff, 1), (1, 0xffffffff)))
                if TOP <= b < SIZE or (b < SIZE and b + l > TOP and r.random() < 0.8):
                    b = r.randrange(20000, 90000)       # the helpers live there
                    l = min(l, 4000)
                struct.pack_into('<II', img, p, b & 0xffffffff, l & 0xffffffff)
                p += 8
        p = (p + 15) & -8
        for _ in range(6):
            n = r.choice((1, 2, 4))
            self.subs.append((p, n))
            clock = False
            for _ in range(n):
                k = r.choice((0, 1, 2, 1, 2, 9))
                if k == 0 and clock and r.random() < 0.8:
                    k = 1
                clock |= k == 0
                if k == 0:
                    b = struct.pack('<QB7xI4xQQH6x', r.randrange(1 << 64), 0, r.choice((0, 1, 1, 2, 77)), r.choice((0, 1, 1000000)), 0, r.choice((0, 0, 1)))
                else:
                    b = struct.pack('<QB7xI28x', r.randrange(1 << 64), k, r.choice((0, 1, 3, 6, 7, 99, 0xffffffff)))
                img[p:p + 48] = b
                p += 48
        self.img = img

    def ptr(self, align=8):
        r = self.r
        k = r.random()
        if k < 0.55:
            return r.randrange(20000, 100000) & -8
        if k < 0.65:
            return r.randrange(20000, 100000)
        if k < 0.75:
            return r.choice((SIZE, SIZE - 1, SIZE - 4, SIZE - 8, SIZE + 8, SIZE - 24 & -8, SIZE - 64))
        if k < 0.85:
            return r.choice((0xffffffff, 0xfffffffc, 0xfffffff8, 0x80000000, 0x7fffffff, 0xffff0000))
        if k < 0.9:
            return r.randrange(1 << 32)
        if k < 0.95:
            return 0
        return r.randrange(256, 20000) & -8

    def length(self):
        r = self.r
        return r.choice((0, 1, 2, 7, 24, 64, 100, 300, 4096, r.randrange(1, 70), SIZE, SIZE + 1, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 29))

    def fd(self):
        r = self.r
        return r.choice((0, 1, 2, 3, 3, 3, 3, 5, 6, 6, 7, 7, 8, 9, 10, 11, r.randrange(64), 0xffffffff, 0x80000000, r.randrange(1 << 32)))

    def i64(self):
        r = self.r
        return r.choice((0, 1, 2, 10, 1000, 1 << 31, 1 << 32, 1 << 62, 1 << 63, (1 << 63) - 1, (1 << 64) - 1, r.randrange(1 << 64), r.randrange(4000)))

    def path(self):
        r = self.r
        if r.random() < 0.7:
            return r.choice(self.strs)
        return self.ptr(), self.length()

    def iov(self):
        r = self.r
        if r.random() < 0.75:
            return r.choice(self.iovs)
        if r.random() < 0.5:
            p, n = r.choice(self.iovs)
            return p + r.choice((0, 1, 2, 4)), r.choice((0, n, 1024, 1025, 0x7fffffff, 0x80000000, 0xffffffff, 0x20000000, 0x20000001, 0x1fffffff))
        return self.ptr(), self.length()

    def flags(self):
        return self.r.choice((0, 0, 1, 2, 3, 4, 5, 8, 10, 15, 0xffff, 0xffffffff, self.r.randrange(1 << 32)))

    def call(self, f):
        P, L, F, I, G = self.ptr, self.length, self.fd, self.i64, self.flags
        p, q, v = self.path(), self.path(), self.iov()
        r = self.r
        rights = r.choice((2, 64, 66, 66, 0, (1 << 64) - 1))
        t = dict(
            args_get=lambda: [P(), P()], args_sizes_get=lambda: [P(), P()], environ_get=lambda: [P(), P()], environ_sizes_get=lambda: [P(), P()],
            clock_res_get=lambda: [r.choice((0, 1, 2, 3, 4, G())), P()], clock_time_get=lambda: [r.choice((0, 1, 2, 3, 4, G())), I(), P()],
            fd_advise=lambda: [F(), I(), I(), G()], fd_allocate=lambda: [F(), I(), I()], fd_close=lambda: [F()], fd_datasync=lambda: [F()],
            fd_fdstat_get=lambda: [F(), P()], fd_fdstat_set_flags=lambda: [F(), G()], fd_fdstat_set_rights=lambda: [F(), I(), I()],
            fd_filestat_get=lambda: [F(), P()], fd_filestat_set_size=lambda: [F(), I()], fd_filestat_set_times=lambda: [F(), I(), I(), G()],
            fd_pread=lambda: [F(), *v, I(), P()], fd_pwrite=lambda: [F(), *v, I(), P()], fd_prestat_dir_name=lambda: [F(), P(), L()],
            fd_prestat_get=lambda: [F(), P()], fd_read=lambda: [F(), *v, P()], fd_write=lambda: [F(), *v, P()],
            fd_readdir=lambda: [F(), P(), L(), r.choice((0, 0, 0, I())), P()], fd_renumber=lambda: [F(), F()],
            fd_seek=lambda: [F(), I(), r.choice((0, 1, 2, 3, G())), P()], fd_sync=lambda: [F()], fd_tell=lambda: [F(), P()],
            path_create_directory=lambda: [F(), *p], path_filestat_get=lambda: [F(), G(), *p, P()],
            path_filestat_set_times=lambda: [F(), G(), *p, I(), I(), G()], path_link=lambda: [F(), r.choice((1, 1, 1, G())), *p, F(), *q],
            path_open=lambda: [F(), G(), *p, G(), rights, I(), r.choice((0, 1, 4, G())), P()],
            path_readlink=lambda: [F(), *p, P(), L(), P()], path_remove_directory=lambda: [F(), *p], path_rename=lambda: [F(), *p, F(), *q],
            path_symlink=lambda: [*p, F(), *q], path_unlink_file=lambda: [F(), *p],
            poll_oneoff=lambda: self.poll(), random_get=lambda: [P(), L()], sched_yield=lambda: [],
            sock_accept=lambda: [F(), G(), P()], sock_recv=lambda: [F(), *v, G(), P(), P()], sock_send=lambda: [F(), *v, G(), P()],
            sock_shutdown=lambda: [F(), G()])
        return [x & ((1 << 64) - 1) for x in t[f]()]

    def poll(self):
        r = self.r
        p, n = r.choice(self.subs)
        k = r.random()
        if k < 0.15:
            n = r.choice((0, 0xffffffff, 0x7fffffff, 89478485, 89478486, 0x05555556))
        elif k < 0.25:
            p = self.ptr()
        out = self.ptr()
        if r.random() < 0.15:
            out = (p + r.choice((0, 8, 16, 32, -32, 48))) & 0xffffffff      # overlapping
        return [p, out, n, self.ptr()]


def areas(f, a, mem, abi):
    """the output areas [(addr, len)] of a call"""
    fs = 64 if abi == 'p' else 56
    env = sum(len(e) + 1 for e in ENV)
    iov = []
    if f in ('fd_read', 'fd_pread', 'sock_recv'):
        for i in range(min(a[2], 2000)):
            q = a[1] + 8 * i
            if q + 8 > SIZE:
                break
            iov.append(struct.unpack_from('<II', mem, q))
    fixed = {'args_sizes_get': [(0, 4), (1, 4)], 'environ_sizes_get': [(0, 4), (1, 4)], 'environ_get': [(0, 4 * len(ENV)), (1, env)],
             'clock_res_get': [(1, 8)], 'clock_time_get': [(2, 8)], 'fd_fdstat_get': [(1, 24)], 'fd_filestat_get': [(1, fs)],
             'path_filestat_get': [(4, fs)], 'fd_prestat_get': [(1, 8)], 'fd_tell': [(1, 8)], 'fd_seek': [(3, 8)],
             'fd_read': [(3, 4)], 'fd_pread': [(4, 4)], 'fd_write': [(3, 4)], 'fd_pwrite': [(4, 4)], 'fd_readdir': [(4, 4)],
             'path_open': [(8, 4)], 'path_readlink': [(5, 4)], 'poll_oneoff': [(3, 4)], 'sock_accept': [(2, 4)],
             'sock_recv': [(4, 4), (5, 2)], 'sock_send': [(4, 4)]}
    out = [(a[i], n) for i, n in fixed.get(f, ())] + iov
    var = {'fd_prestat_dir_name': (1, 2), 'fd_readdir': (1, 2), 'path_readlink': (3, 4), 'random_get': (0, 1)}.get(f)
    if var:
        out.append((a[var[0]], a[var[1]]))
    if f == 'poll_oneoff':
        out.append((a[1], 32 * a[2]))
    return out


def reported(f, a, mem_before, mem):
    """narrower areas for calls which say how much they stored"""
    def u32(p):
        return struct.unpack_from('<I', mem, p)[0] if p + 4 <= SIZE else 0
    if f in ('fd_read', 'fd_pread'):
        rp = a[3] if f == 'fd_read' else a[4]
        left, out = u32(rp), [(rp, 4)]
        for i in range(min(a[2], 2000)):
            b, l = struct.unpack_from('<II', mem_before, a[1] + 8 * i)
            out.append((b, min(l, left)))
            left -= min(l, left)
        # the result may have been stored over the data, or over the vectors themselves
        ov = any(b < rp + 4 and rp < b + l for b, l in out[1:])
        return None if ov else out
    if f == 'fd_readdir':
        return [(a[1], u32(a[4])), (a[4], 4)] if not (a[1] < a[4] + 4 and a[4] < a[1] + a[2]) else None
    if f == 'path_readlink':
        return [(a[3], u32(a[5])), (a[5], 4)] if not (a[3] < a[5] + 4 and a[5] < a[3] + a[4]) else None
    return None


def diffs(x, y):
    """ranges of differing bytes"""
    if x == y:
        return []
    out = []
    for b in range(0, SIZE, 4096):
        if x[b:b + 4096] != y[b:b + 4096]:
            for i in range(b, min(b + 4096, SIZE)):
                if x[i] != y[i]:
                    out.append(i)
    return out


def one(job):
    cfg, cli, seed, nops, abi, base = job
    d = os.path.join(base, f'h-{cfg}-{seed}')
    os.mkdir(d)
    try:
        r = random.Random(seed * 31 + 7)
        root = f'{d}/p/root'
        os.makedirs(root + '/d0')
        os.makedirs(root + '/e0')
        os.makedirs(d + '/out')
        for n, k in (('a', 700), ('in', 100), ('o1', 0), ('o2', 0), ('d0/x', 3000)):
            with open(f'{root}/{n}', 'wb') as f:
                f.write(r.randbytes(k))
        os.symlink('d0', root + '/l0')
        g = Gen(seed)
        # the guest's standard streams become files, so that nothing blocks and nothing reads the commands
        g.img[0:2], g.img[8:10], g.img[16:18], g.img[24:25], g.img[32:34] = b'in', b'o1', b'o2', b'a', b'd0'
        steps = [('c_path_open', [3, 1, 0, 2, 0, 2, 0, 0, 64]), ('c_fd_renumber', [5, 0]),
                 ('c_path_open', [3, 1, 8, 2, 0, 66, 0, 0, 64]), ('c_fd_renumber', [5, 1]),
                 ('c_path_open', [3, 1, 16, 2, 0, 66, 0, 0, 64]), ('c_fd_renumber', [5, 2]),
                 ('c_path_open', [3, 1, 24, 1, 0, 66, 0, 0, 64]), ('c_path_open', [3, 1, 32, 2, 2, 2, 0, 0, 64]),
                 ('c_path_open', [3, 1, 24, 1, 0, 66, 0, 4, 64]), ('dump', [OUT, 0])]
        pre = len(steps)
        names = [f for f in wasi.FUNCS if not (abi == 'u' and f in wasi.NO_UNSTABLE)]
        calls = []
        while len(calls) < nops:
            f = r.choice(names)
            a = g.call(f)
            if f in ('fd_close', 'fd_renumber') and OUT in a:
                continue
            # outputs into the area of the helpers are not observable
            if any(p < SIZE and p + l > TOP and p + l <= SIZE for p, l in areas(f, a, g.img, abi)):
                continue
            calls.append((f, a))
            steps += [('c_' + f, a), ('dump', [OUT, len(calls)])]
        opts = ['--wasi-dir', root + '::/', '--wasi-dir', d + '/out::/out', '--timeout', '20000'] + [x for e in ENV for x in ('--wasi-env', e)]
        run = wasi.run(cli, d, g.img, steps, opts, abi=ABIS[abi], sanitized=cfg in ('asan', 'msan'), wrapper=['prlimit', '--fsize=33554432'],
                       timeout=150, restore_signals=False)
        res = dict(cfg=cfg, seed=seed, abi=abi, n=0, bad=None, outcomes=[], sample=None)

        def bad(key, text, i=None):
            res['bad'] = (key, text)
            res['replay'] = dict(config=cfg, seed=seed, abi=ABIS[abi], call=calls[i] if i is not None else None, results=run.results, steps=steps,
                                 stderr=run.err[-8000:])
            return res
        if run.results[:pre] != [0] * pre:
            if run.crash:
                return bad('crash setup', run.crash)
            return bad('setup', f'{run.results[:pre]}')
        # a call may have removed or renamed the dumps: then the rest is not judged
        def load(i):
            try:
                with open(f'{d}/out/m{i:03d}', 'rb') as fp:
                    return fp.read()
            except FileNotFoundError:
                return None
        prev = load(0)
        if prev is None:
            res['lost'] = True
            return res
        for i, (f, a) in enumerate(calls):
            got, dump = run.results[pre + 2 * i], run.results[pre + 2 * i + 1]
            if got is None:
                return bad(f'crash {f}', f'{f}{tuple(a)}: {run.crash} {run.err[-200:] if not run.crash else ""}', i)
            res['n'] += 1
            if isinstance(got, int):
                if got > 76:
                    return bad(f'code {f}', f'{f}{tuple(a)} returned {got}', i)
                kind = got
            elif got.startswith('trap: ') and ('out of bounds' in got or 'unaligned' in got):
                kind = 'unaligned' if 'unaligned' in got else 'bounds'
            else:
                return bad(f'outcome {f}', f'{f}{tuple(a)}: {got}', i)
            res['outcomes'].append((f, kind))
            if dump != 0:
                return bad(f'damage {f}', f'after {f}{tuple(a)} = {got} an unrelated descriptor does not work: {dump}', i)
            mem = load(i + 1)
            if mem is None:
                res['lost'] = True
                return res
            ch = [x for x in diffs(prev, mem) if x < TOP]
            if ch:
                if isinstance(got, int) and got != 0:
                    return bad(f'error wrote {f}', f'{f}{tuple(a)} failed with {got} and changed guest memory at {ch[0]:#x}', i)
                ar = areas(f, a, prev, abi)
                nar = reported(f, a, prev, mem) if got == 0 else None
                for x in ch:
                    if not any(p <= x < p + l for p, l in ar):
                        return bad(f'outside {f}', f'{f}{tuple(a)} = {got} changed guest memory at {x:#x}, outside of its output areas {ar[:6]}', i)
                    if nar is not None and not any(p <= x < p + l for p, l in nar):
                        return bad(f'beyond {f}', f'{f}{tuple(a)} changed guest memory at {x:#x}, more than it reported: {nar[:6]}', i)
            prev = mem
            os.unlink(f'{d}/out/m{i + 1:03d}')
        if run.crash:
            return bad('crash end', run.crash)
        res['sample'] = [f'{f}{tuple(a)} = {run.results[pre + 2 * i]}' for i, (f, a) in enumerate(calls[:4])]
        return res
    finally:
        wasifs.cleanup(d)


def untouched(r):
    """One call whose pointers reach parts of the memory never used before:
    (module, arguments, input, expected start of the output, expected memory,
    areas with any content)."""
    pages, grow = r.randint(1, 3), r.choice((0, 0, 1, 3))
    size = (pages + grow) * 65536
    img = bytearray(size)
    kind = r.choice(('write', 'read', 'read', 'poll', 'args', 'env', 'sizes', 'random', 'clock'))
    m = W.Module()
    w = 'wasi_snapshot_preview1'
    wr = m.import_func(w, 'fd_write', [I32] * 4, [I32])
    used = [(0, 2048)]

    def area(n, al=1):
        while True:
            a = r.choice((r.randrange(2048, 3000), r.randrange(2048, size - n), size - n, r.randrange(2048, size - n)))
            a &= -al
            if a >= 2048 and a + n <= size and all(a + n <= x or a >= x + k for x, k in used):
                used.append((a, n))
                return a
    out, loose, args, inp = b'', [], [], b''
    if kind in ('write', 'read'):
        n = r.randint(1, 7)
        vec = [(area(k), k) for k in [r.choice((0, 1, 7, 100, 3000)) for _ in range(n)]]
        va = r.choice((64, 64, area(8 * n, 4)))
        for i, (a, k) in enumerate(vec):
            struct.pack_into('<II', img, va + 8 * i, a, k)
        rp = area(4, 4)
        for a, k in vec:
            if kind == 'write' and r.random() < 0.5:
                img[a:a + k] = r.randbytes(k)
        f = wr if kind == 'write' else m.import_func(w, 'fd_read', [I32] * 4, [I32])
        args = [1 if kind == 'write' else 0, va, n, rp]
        start = bytes(img)
        tot = sum(k for _, k in vec)
        if kind == 'write':
            out = b''.join(bytes(img[a:a + k]) for a, k in vec)
            struct.pack_into('<I', img, rp, tot)
        else:
            inp = r.randbytes(r.choice((tot, max(0, tot - 5), tot + 9, 1)))
            d = inp[:tot]
            struct.pack_into('<I', img, rp, len(d))
            for a, k in vec:
                img[a:a + min(k, len(d))] = d[:k]
                d = d[k:]
    elif kind == 'poll':
        n = r.randint(1, 5)
        sa, ea, rp = r.choice((64, area(48 * n, 8))), area(32 * n, 8), area(4, 4)
        for i in range(n):
            struct.pack_into('<QB7xI28x', img, sa + 48 * i, 1000 + i, 2, 1)
        f = m.import_func(w, 'poll_oneoff', [I32] * 4, [I32])
        args = [sa, ea, n, rp]
        start = bytes(img)
        for i in range(n):
            struct.pack_into('<QHB5x', img, ea + 32 * i, 1000 + i, 0, 2)
            loose.append((ea + 32 * i + 11, 21))
        struct.pack_into('<I', img, rp, n)
    elif kind in ('args', 'env', 'sizes'):
        e = [x.encode() + b'\0' for x in (ENV if kind == 'env' else ['m.wasm', 'x', 'yy' * 30, ''])]
        f = m.import_func(w, dict(args='args_get', env='environ_get', sizes='args_sizes_get')[kind], [I32] * 2, [I32])
        tot = b''.join(e)
        start = None
        if kind == 'sizes':
            args = [area(4, 4), area(4, 4)]
            start = bytes(img)
            struct.pack_into('<I', img, args[0], len(e))
            struct.pack_into('<I', img, args[1], len(tot))
        else:
            args = [area(4 * len(e), 4), area(len(tot))]
            start = bytes(img)
            img[args[1]:args[1] + len(tot)] = tot
            q = args[1]
            for i, x in enumerate(e):
                struct.pack_into('<I', img, args[0] + 4 * i, q)
                q += len(x)
    elif kind == 'random':
        k = r.choice((1, 100, 5000))
        args = [area(k), k]
        loose = [(args[0], k)]
        f = m.import_func(w, 'random_get', [I32] * 2, [I32])
        start = bytes(img)
    else:
        f = m.import_func(w, 'clock_time_get', [I32, I64, I32], [I32])
        a = area(8, 8)
        loose = [(a, 8)]
        args = [r.choice((0, 1)), None, a]
        start = bytes(img)
    m.export('memory', 2, m.memory(pages))
    # the result goes to 32; the vector at 16 stands for the whole memory
    start = bytearray(start)
    start[16:24] = img[16:24] = struct.pack('<II', 0, size)
    p = 0
    late = b''
    while p < size:
        while p < size and not start[p]:
            p += 1
        q = p
        while q < size and start[q]:
            q += 1
        if q > p:
            if q <= pages * 65536:
                m.datas.append(b'\0' + W.i32c(p) + W.END + W.leb_u(q - p) + bytes(start[p:q]))
            else:
                late += b''.join(W.i32c(x) + W.i32c(start[x]) + b'\x3a\0\0' for x in range(p, q))
        p = q
    b = (W.i32c(grow) + b'\x40\0\x1a' if grow else b'') + late
    b += W.i32c(32) + b''.join(W.i64c(0) if x is None else W.i32c(x) for x in args) + W.call(f) + b'\x36\2\0'
    b += W.i32c(1) + W.i32c(16) + W.i32c(1) + W.i32c(24) + W.call(wr) + b'\x1a'
    m.efunc('_start', [], [], [], b)
    return kind, m.encode(), inp, out, bytes(img), loose + [(24, 4)]


def untouched_one(job):
    cfg, cli, seed, d = job
    kind, mod, inp, out, img, loose = untouched(random.Random(seed))
    fn = os.path.join(d, f'u{seed}-{cfg}')
    os.mkdir(fn)
    with open(fn + '/m.wasm', 'wb') as f:
        f.write(mod)
    with open(fn + '/in', 'wb') as f:
        f.write(inp)
    env = tool_env()
    env['MALLOC_PERTURB_'] = '85'
    # a file takes all of it at once
    with open(fn + '/in', 'rb') as f, open(fn + '/out', 'wb') as o:
        p = subprocess.run([cli, '--wasi'] + [x for e in ENV for x in ('--wasi-env', e)] + ['m.wasm', 'x', 'yy' * 30, ''], stdin=f,
                           stdout=o, stderr=subprocess.PIPE, cwd=fn, env=env, timeout=120)
    with open(fn + '/out', 'rb') as f:
        got = f.read()
    bad = None
    if p.returncode:
        bad = ('crash', f'status {p.returncode} {crash_summary(p.stderr, p.returncode)}')
    elif got[:len(out)] != out or len(got) != len(out) + len(img):
        i = next((i for i, (a, b) in enumerate(zip(got, out)) if a != b), min(len(got), len(out)))
        bad = ('data', f'bytes written differ at {i} of {len(out)} ({len(got)} bytes of output)')
    else:
        g, w = bytearray(got[len(out):]), bytearray(img)
        for a, n in loose:
            g[a:a + n] = w[a:a + n] = bytes(n)
        if g != w:
            i = next(i for i in range(len(w)) if g[i] != w[i])
            bad = ('memory', f'memory differs at {i}: {g[i:i + 8].hex()} want {w[i:i + 8].hex()}' if i != 32 else f'error {g[32]}')
    shutil.rmtree(fn)
    return cfg, seed, kind, bad, (mod.hex() if bad else None)


def fresh(c, clis):
    d = scratch_dir()
    st = {}
    jobs = [(cfg, clis[cfg], c.seed * 1_000_000 + i, d) for i in range(c.scale(400, 5000)) for cfg in (('asan',), ('asan',), ('asan', 'rel'), ('msan',))[i % 4]]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for cfg, seed, kind, bad, mod in ex.map(untouched_one, jobs):
            c.evaluations += 1
            st[kind] = st.get(kind, 0) + 1
            c.distinct(('untouched', kind, seed % 50))
            if bad:
                c.violation(f'untouched:{cfg}:{kind}:{bad[0]}', f'{cfg} seed {seed}: {kind} over memory never used before: {bad[1]}', dict(module=mod, seed=seed))
    c.coverage['calls_over_untouched_memory'] = st


def main(c):
    c.rule = 'distinct (function, outcome) pairs, an outcome being an error code or a kind of trap'
    cfgs = ['asan', 'msan', 'rel', 'dbg']
    base, clis = wasifs.prepare(cfgs)
    for a in ABIS.values():
        wasi.template(PAGES, a)
    jobs = []
    for i in range(c.scale(500, 10000)):
        cfg = cfgs[(0, 0, 1, 3, 0, 1, 2)[i % 7]]
        jobs.append((cfg, clis[cfg], c.seed * 1_000_000 + i, 60, 'u' if i % 5 == 4 else 'p', base))
    outcomes, lost = {}, 0
    with mp.get_context('fork').Pool(NPROC, wasifs._init) as pool:
        for r in pool.imap_unordered(one, jobs, chunksize=2):
            c.evaluations += r['n']
            lost += r.get('lost', 0)
            for k in r['outcomes']:
                outcomes[k] = outcomes.get(k, 0) + 1
                c.distinct(k)
            if r['sample']:
                c.sample(r['sample'])
            if r['bad']:
                c.violation(r['bad'][0], f'{r["cfg"]} seed {r["seed"]}: {r["bad"][1]}', r['replay'])
    c.coverage['histories_cut_short'] = lost
    if lost > len(jobs) // 10:
        raise RuntimeError(f'{lost} of {len(jobs)} histories lost their dumps')
    fresh(c, clis)
    c.coverage['outcomes'] = {f'{a}:{b}': n for (a, b), n in sorted(outcomes.items(), key=str)}
    never = [f for f in wasi.FUNCS if (f, 0) not in outcomes]
    c.coverage['never_successful'] = never
    c.coverage['functions'] = len({f for f, _ in outcomes})
    c.coverage['traps'] = sum(n for (f, k), n in outcomes.items() if isinstance(k, str))
    c.log('never successful: ' + ' '.join(never))


if __name__ == '__main__':
    run_check('C21', main)
