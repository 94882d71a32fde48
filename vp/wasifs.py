"""Random WASI file histories with a POSIX shadow.

A Scenario keeps two identical directory trees.  While a history is being
generated, every call is carried out on the shadow tree with the
corresponding POSIX call (descriptor-relative, so nothing of toywasm's own
path handling is assumed) and its error code, data and effect on guest memory
are predicted.  Then the history is executed by toywasm on the other tree and
compared: error codes call by call, the whole linear memory byte by byte, the
number of host descriptors left open, and both trees at the end.

Runs as an unprivileged user.
"""
import errno
import os
import random
import shutil
import stat
import struct
import time

from . import wasi
from .wasi import E

PAGES = 12
SIZE = PAGES * 65536
TOP = SIZE - wasi.RESERVED
FILL = 0xA5

FT = {stat.S_IFDIR: 3, stat.S_IFREG: 4, stat.S_IFLNK: 7, stat.S_IFCHR: 2, stat.S_IFBLK: 1}
R_READ, R_WRITE = 1 << 1, 1 << 6
NAMES = ['a', 'b', 'c', 'dd', 'e.txt', 'f f', 'd0', 'd1', 'l0', 'l1', 'lx', 'é', 'N' * 255]
DIRS = ['d0', 'd1', 'd0/s', 'dd', 'l0', 'd1/t/u']
OUT, FDS = 4, 5


class Obj:
    """An open file description behind a WASI descriptor."""
    def __init__(self, kind, fd, real=None, nonblock=False, append=False, guest=None):
        self.kind, self.fd, self.real = kind, fd, real
        self.nonblock, self.append, self.guest = nonblock, append, guest


class Full(Exception):
    pass


class Skip(Exception):
    pass


def populate(root, seed):
    r = random.Random(seed)
    os.makedirs(root)
    for d in ('d0', 'd0/s', 'd1', 'd1/t', 'd1/t/u', 'ro', 'noexec', 'big'):
        os.mkdir(f'{root}/{d}')
    for f in ('a', 'b', 'd0/a', 'd0/s/b', 'd1/c', 'd1/t/u/e.txt', 'ro/a', 'noexec/a', 'secret'):
        with open(f'{root}/{f}', 'wb') as fp:
            fp.write(r.randbytes(r.choice((0, 1, 10, 100, 5000))))
    for i in range(r.choice((3, 40, 90))):
        with open(f'{root}/big/{"n" * r.randrange(1, 40)}{i}', 'wb'):
            pass
    for l, t in (('l0', 'd0'), ('l1', 'a'), ('d0/l0', '../d1'), ('d1/lx', 'nowhere'), ('loop', 'loop'), ('d1/l1', '../b')):
        os.symlink(t, f'{root}/{l}')
    os.link(f'{root}/b', f'{root}/d1/b')
    os.chmod(f'{root}/secret', 0)
    os.chmod(f'{root}/noexec', 0o600)
    os.chmod(f'{root}/ro', 0o500)


class Scenario:
    def __init__(self, seed, wdir):
        self.seed, self.wdir = seed, wdir
        self.r = random.Random(seed)
        # two incompatibilities of the older interface: whence and the width of a link count
        self.abi = 'wasi_unstable' if seed % 4 == 2 else 'wasi_snapshot_preview1'
        self.statsize = 56 if self.abi == 'wasi_unstable' else 64
        self.img = bytearray(bytes([FILL])) * SIZE
        self.mem = None
        self.pos = 64
        self.writes = []        # [(addr, bytes)] predicted guest memory changes, in order
        self.checks = []        # [(addr, len, fn(bytes) -> error or None, step)]
        self.steps = []         # [(export, args)]
        self.expect = []        # errno, or a set of them
        self.what = []
        self.kinds = set()
        self.rroot, self.sroot = f'{wdir}/real/p/q/root', f'{wdir}/shadow/p/q/root'
        for x in (self.rroot, self.sroot):
            populate(x, seed)
        os.makedirs(f'{wdir}/out')
        self.t0 = time.time_ns()
        self.fds = {0: Obj('std', None), 1: Obj('std', None), 2: Obj('std', None),
                    3: Obj('pre', os.open(self.sroot, os.O_RDONLY), real=os.path.realpath(self.sroot), guest='/'),
                    4: Obj('keep', None), 5: Obj('keep', None)}
        self.ino = {}
        self.rev = {}
        self.dev = None
        self.epoch = 0

    # --- guest memory
    def alloc(self, n, align=1):
        p = (self.pos + align - 1) & -align
        # leave a gap, so that writing past an area is visible
        self.pos = p + n + self.r.randrange(0, 12)
        if self.pos > TOP - 64:
            raise Full()
        return p

    def put(self, b, align=1):
        p = self.alloc(len(b), align)
        self.img[p:p + len(b)] = b
        return p

    def wr(self, addr, b):
        self.writes.append((addr, bytes(b)))

    def step(self, fn, args, exp, note=''):
        self.steps.append((fn, args))
        self.expect.append(exp)
        self.what.append(note)

    # --- names and descriptors
    def path(self):
        r = self.r
        k = r.random()
        n = r.choice(NAMES)
        if k < 0.45:
            p = n
        elif k < 0.75:
            p = r.choice(DIRS) + '/' + n
        elif k < 0.8:
            p = r.choice(('.', 'd0', 'd1', 'l0', 'a', 'd0/s', 'big'))
        elif k < 0.84:
            p = r.choice(('ro/a', 'ro/n', 'noexec/a', 'secret', 'loop', 'loop/a', 'N' * 256, 'd0/' + 'N' * 256))
        elif k < 0.88:
            p = './' + n
        elif k < 0.92:
            p = 'd0/../' + n
        elif k < 0.95:
            p = 'd1//' + n
        elif k < 0.98:
            p = n + '/'
        else:
            p = '../' + r.choice(('x', 'root/a', 'root'))
        return p

    def dirfd(self, bad=0.08):
        r = self.r
        if r.random() < bad:
            return self.badfd()
        c = [n for n, o in self.fds.items() if o.kind in ('pre', 'dir')]
        if r.random() < 0.05:
            c = [n for n, o in self.fds.items() if o.kind == 'file'] or c
        if not c:
            return self.badfd()
        return r.choice(c)

    def badfd(self):
        r = self.r
        while True:
            n = r.choice((r.randrange(3, 24), r.randrange(3, 2000), 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 1 << 30))
            if n not in self.fds:
                return n

    def anyfd(self, kinds=('file', 'dir'), bad=0.12):
        r = self.r
        if r.random() < bad:
            return self.badfd()
        c = [n for n, o in self.fds.items() if o.kind in kinds]
        return r.choice(c) if c else self.badfd()

    def base(self, fd, p):
        """the error for the directory operand, or the shadow descriptor"""
        o = self.fds.get(fd)
        if o is None:
            return E['BADF'], None
        if o.kind == 'file':
            return E['NOTDIR'], None
        # stay inside the scratch area
        t = os.path.realpath(os.path.join(o.real, p))
        if not (t + '/').startswith(os.path.realpath(self.wdir) + '/shadow/'):
            raise Skip()
        return 0, o.fd

    def real_of(self, fd, p, follow=False):
        """the resolved name of the entry the path denotes"""
        o = self.fds[fd]
        full = os.path.join(o.real, p)
        if follow:
            return os.path.realpath(full)
        full = full.rstrip('/')
        d, n = os.path.split(full)
        if n in ('.', '..', ''):
            return os.path.realpath(full)
        return os.path.join(os.path.realpath(d), n)

    def pinned(self, real):
        """toywasm keeps directories by name: do not move them while open
        (checked separately)"""
        return any(o.real and (o.real == real or o.real.startswith(real + '/'))
                   for o in self.fds.values() if o.kind in ('pre', 'dir'))

    def do(self, f):
        try:
            return 0, f()
        except OSError as e:
            w = errno_w = wasi.errno_to_wasi(e.errno)
            if errno_w is None:
                raise Skip()
            return w, None
        except (OverflowError, ValueError):
            raise Skip()

    def lookup(self, fd, std=False):
        o = self.fds.get(fd)
        if o is None or o.kind in ('pre', 'keep') or (o.kind == 'std' and not std):
            return None
        return o

    # --- stat records
    def stat_check(self, st, n):
        typ = FT.get(stat.S_IFMT(st.st_mode), 0)
        t0, ep = self.t0, self.epoch

        def f(b):
            dev, ino, ty, nl, sz, at, mt, ct = struct.unpack('<QQB7xQQQQQ' if len(b) == 64 else '<QQB3xIQQQQ', b)
            if ty != typ:
                return f'file type {ty}, expected {typ}'
            if nl != st.st_nlink:
                return f'link count {nl}, expected {st.st_nlink}'
            if typ != 3 and sz != st.st_size:
                return f'size {sz}, expected {st.st_size}'
            x = self.inode(st.st_ino, ino, ep)
            if x:
                return x
            self.dev = self.dev or dev
            if self.dev != dev:
                return 'device number differs between files'
            for nm, got, want in (('atim', at, st.st_atime_ns), ('mtim', mt, st.st_mtime_ns)):
                if nm == 'atim' and typ != 4:
                    continue            # making predictions reads links and directories
                if want < 1_600_000_000 * 10**9 or want > 2_500_000_000 * 10**9:
                    if got != want:
                        return f'{nm} {got}, expected {want}'
                elif not t0 - 5 * 10**9 <= got <= time.time_ns() + 10**9:
                    return f'{nm} {got} is not the current time'
            if not t0 - 5 * 10**9 <= ct <= time.time_ns() + 10**9:
                return f'ctim {ct} is not the current time'
        return f

    def inode(self, model, got, epoch):
        # numbers can be reused once something was removed
        k = self.ino.get(model)
        if k and k[0] != got and k[1] == epoch:
            return 'the same file has two inode numbers'
        k = self.rev.get(got)
        if k and k[0] != model and k[1] == epoch:
            return 'different files have one inode number'
        self.ino[model] = (got, epoch)
        self.rev[got] = (model, epoch)

    # --- operations
    def op_open(self, directory=None):
        r = self.r
        fd, p = self.dirfd(), self.path()
        if directory:
            fd, p = 3, r.choice(('d0', 'd1', 'd0/s', '.', 'big', 'd1/t', 'd1/t/u'))
        err, base = self.base(fd, p)
        look = r.randrange(2)
        of = ff = 0
        rights = r.choice((R_READ, R_WRITE, R_READ | R_WRITE, R_READ | R_WRITE))
        if directory or r.random() < 0.15:
            of, rights = 2, R_READ
        else:
            of = r.choice((0, 1, 1, 1 | 8, 1 | 4, 8, 1 | 4 | 8))
            ff = r.choice((0, 0, 0, 1, 4, 5))
        rights |= r.choice((0, 1 << 2, 1 << 5 | 1 << 13))
        h = {R_READ: os.O_RDONLY, R_WRITE: os.O_WRONLY, R_READ | R_WRITE: os.O_RDWR}[rights & (R_READ | R_WRITE)]
        for bit, f in ((1, os.O_CREAT), (2, os.O_DIRECTORY), (4, os.O_EXCL), (8, os.O_TRUNC)):
            h |= f if of & bit else 0
        h |= os.O_APPEND if ff & 1 else 0
        h |= 0 if look else os.O_NOFOLLOW
        pa, retp = self.put(p.encode()), self.alloc(4, 4)
        note = f'path_open({fd}, {p!r}, look={look}, oflags={of}, rights={rights:#x}, fdflags={ff})'
        if not err:
            err, n = self.do(lambda: os.open(p, h | os.O_NONBLOCK, 0o666, dir_fd=base))
        if not err:
            isdir = stat.S_ISDIR(os.fstat(n).st_mode)
            real = None
            if isdir:
                real = os.readlink(f'/proc/self/fd/{n}')
                if real != os.path.normpath(os.path.join(self.fds[fd].real, p)) or '..' in p:
                    os.close(n)         # opened through a symbolic link
                    raise Skip()
            new = min(set(range(3, 4000)) - set(self.fds))
            self.fds[new] = Obj('dir' if isdir else 'file', n, real, bool(ff & 4), bool(ff & 1))
            self.wr(retp, struct.pack('<I', new))
            note += f' -> {new}'
        self.step('c_path_open', [fd, look, pa, len(p.encode()), of, rights, rights, ff, retp], err, note)

    def op_opendir(self):
        self.op_open(True)

    def op_close(self):
        fd = self.anyfd(('file', 'dir'), 0.2)
        if self.r.random() < 0.01:
            fd = 3
        o = self.fds.get(fd)
        if o is None:
            err = E['BADF']
        else:
            os.close(o.fd)
            del self.fds[fd]
            self.epoch += 1
            err = 0
        self.step('c_fd_close', [fd], err, f'fd_close({fd})')

    def op_renumber(self):
        r = self.r
        a, b = self.anyfd(('file', 'dir'), 0.1), self.anyfd(('file', 'dir'), 0.1)
        if r.random() < 0.1 and a in self.fds:
            b = a
        if a not in self.fds or b not in self.fds:
            err = E['BADF']
        else:
            err = 0
            if a != b:
                os.close(self.fds[b].fd)
                self.epoch += 1
                self.fds[b] = self.fds.pop(a)
        self.step('c_fd_renumber', [a, b], err, f'fd_renumber({a}, {b})')

    def iovs(self, sizes, fill=None):
        bufs = []
        for s in sizes:
            if fill:
                bufs.append(self.put(self.r.randbytes(s)))
            else:
                bufs.append(self.alloc(s))
        v = b''.join(struct.pack('<II', b, s) for b, s in zip(bufs, sizes))
        return self.put(v, 4), bufs

    def sizes(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return [r.choice((1, 3, 16, 100))]
        if k < 0.9:
            return [r.choice((0, 1, 2, 7, 64, 300)) for _ in range(r.randrange(1, 6))]
        if k < 0.95:
            return [r.choice((4096, 9000, 4097))]
        if k < 0.97:
            return [r.randrange(0, 3) for _ in range(1024)]
        return [1] * 1025

    def offset(self, o, neg=True):
        r = self.r
        k = r.random()
        sz = 0
        if o is not None and o.kind == 'file':
            sz = os.fstat(o.fd).st_size
        if k < 0.7:
            return max(0, sz + r.choice((-sz, -1, 0, 1, 5, -5, -sz // 2)))
        if k < 0.95:
            return r.choice((0, 1, 10, 4096, 70000))
        return r.choice((1 << 63, (1 << 64) - 1, (1 << 63) - 1, 1 << 62)) if neg else r.choice((1 << 40, 12345))

    def op_read(self, pos=None):
        fd = self.anyfd()
        o = self.lookup(fd)
        sizes = self.sizes()
        iov, bufs = self.iovs(sizes)
        retp = self.alloc(4, 4)
        off = self.offset(o) if pos else None
        soff = off - (1 << 64) if pos and off >= 1 << 63 else off
        err, n = E['BADF'], 0
        if o is not None:
            hb = [bytearray(s) for s in sizes]
            if pos:
                # (offset -1 would mean the current position to the python function)
                err, n = self.do(lambda: os.preadv(o.fd, hb, soff)) if soff >= 0 else (E['INVAL'], 0)
            else:
                err, n = self.do(lambda: os.readv(o.fd, hb))
                if o.kind == 'dir':
                    if not sum(sizes):
                        raise Skip()
                    # EINVAL when a listing left the position at its end
                    err = {E['ISDIR'], E['INVAL']}
            if not err:
                left = n
                for b, h in zip(bufs, hb):
                    self.wr(b, h[:left])
                    left -= min(left, len(h))
                self.wr(retp, struct.pack('<I', n))
        if pos:
            self.step('c_fd_pread', [fd, iov, len(sizes), off, retp], err, f'fd_pread({fd}, {sizes[:8]}, {off}) -> {n}')
        else:
            self.step('c_fd_read', [fd, iov, len(sizes), retp], err, f'fd_read({fd}, {sizes[:8]}) -> {n}')

    def op_pread(self):
        self.op_read(True)

    def op_write(self, pos=None):
        fd = self.anyfd()
        o = self.lookup(fd)
        sizes = self.sizes()
        iov, bufs = self.iovs(sizes, True)
        data = [bytes(self.img[b:b + s]) for b, s in zip(bufs, sizes)]
        retp = self.alloc(4, 4)
        off = self.offset(o) if pos else None
        soff = off - (1 << 64) if pos and off >= 1 << 63 else off
        err, n = E['BADF'], 0
        if o is not None:
            if pos:
                err, n = self.do(lambda: os.pwritev(o.fd, data, soff)) if soff >= 0 else (E['INVAL'], 0)
            else:
                err, n = self.do(lambda: os.writev(o.fd, data))
            if not err:
                self.wr(retp, struct.pack('<I', n))
        if pos:
            self.step('c_fd_pwrite', [fd, iov, len(sizes), off, retp], err, f'fd_pwrite({fd}, {sizes[:8]}, {off}) -> {n}')
        else:
            self.step('c_fd_write', [fd, iov, len(sizes), retp], err, f'fd_write({fd}, {sizes[:8]}) -> {n}')

    def op_pwrite(self):
        self.op_write(True)

    def op_seek(self):
        r = self.r
        fd = self.anyfd()
        o = self.lookup(fd)
        wh = r.choice((0, 0, 1, 2))
        whences = (os.SEEK_SET, os.SEEK_CUR, os.SEEK_END) if self.statsize == 64 else (os.SEEK_CUR, os.SEEK_END, os.SEEK_SET)
        off = r.choice((0, 1, 5, 100, 5000, -1, -3, -100)) if r.random() < 0.9 else r.choice((1 << 62, -(1 << 63), (1 << 63) - 1))
        retp = self.alloc(8, 8)
        err, n = E['BADF'], 0
        if o is not None and o.kind != 'dir':
            err, n = self.do(lambda: os.lseek(o.fd, off, whences[wh]))
            if not err:
                self.wr(retp, struct.pack('<q', n))
        self.step('c_fd_seek', [fd, off & (1 << 64) - 1, wh, retp], err, f'fd_seek({fd}, {off}, {wh}) -> {n}')

    def op_tell(self):
        fd = self.anyfd()
        o = self.lookup(fd)
        retp = self.alloc(8, 8)
        err = E['BADF']
        if o is not None and o.kind != 'dir':
            err, n = self.do(lambda: os.lseek(o.fd, 0, os.SEEK_CUR))
            if not err:
                self.wr(retp, struct.pack('<q', n))
        self.step('c_fd_tell', [fd, retp], err, f'fd_tell({fd})')

    def op_truncate(self):
        fd = self.anyfd()
        o = self.lookup(fd)
        sz = self.offset(o, False)
        if self.r.random() < 0.05:
            sz = self.r.choice((1 << 63, (1 << 64) - 1))
        s = sz - (1 << 64) if sz >= 1 << 63 else sz
        err = E['BADF']
        if o is not None:
            err, _ = self.do(lambda: os.ftruncate(o.fd, s))
        self.step('c_fd_filestat_set_size', [fd, sz], err, f'fd_filestat_set_size({fd}, {s})')

    def op_allocate(self):
        r = self.r
        fd = self.anyfd()
        o = self.lookup(fd)
        if o is not None and o.kind == 'dir':
            raise Skip()
        off, ln = r.choice((0, 1, 100, 5000)), r.choice((1, 10, 6000))
        if r.random() < 0.1:
            off, ln = r.choice(((0, 0), (1 << 63, 1), (0, 1 << 63), ((1 << 63) - 1, 1)))
        s = lambda v: v - (1 << 64) if v >= 1 << 63 else v
        err = E['BADF']
        if o is not None:
            err, _ = self.do(lambda: os.posix_fallocate(o.fd, s(off), s(ln)))
        self.step('c_fd_allocate', [fd, off, ln], err, f'fd_allocate({fd}, {s(off)}, {s(ln)})')

    def op_fstat(self):
        fd = self.anyfd()
        o = self.lookup(fd)
        retp = self.alloc(self.statsize, 8)
        err = E['BADF']
        if o is not None:
            err, st = self.do(lambda: os.fstat(o.fd))
            self.checks.append((retp, self.statsize, self.stat_check(st, 0), len(self.steps)))
        self.step('c_fd_filestat_get', [fd, retp], err, f'fd_filestat_get({fd})')

    def op_fdstat(self):
        fd = self.anyfd()
        o = self.lookup(fd)
        retp = self.alloc(24, 8)
        err = E['BADF']
        if o is not None:
            err = 0
            ty = FT.get(stat.S_IFMT(os.fstat(o.fd).st_mode), 0)
            fl = (1 if o.append else 0) | (4 if o.nonblock else 0)

            def f(b):
                t, g = struct.unpack('<BxH', b[:4])
                if t != ty or g != fl:
                    return f'type {t} flags {g}, expected type {ty} flags {fl}'
            self.checks.append((retp, 24, f, len(self.steps)))
        self.step('c_fd_fdstat_get', [fd, retp], err, f'fd_fdstat_get({fd})')

    def op_setflags(self):
        fd = self.anyfd(('file',))
        o = self.lookup(fd)
        fl = self.r.choice((0, 4))
        err = E['BADF']
        if o is not None:
            if o.append:
                raise Skip()
            o.nonblock = bool(fl)
            err = 0
        self.step('c_fd_fdstat_set_flags', [fd, fl], err, f'fd_fdstat_set_flags({fd}, {fl})')

    def times(self):
        r = self.r
        pick = lambda: r.choice((0, 10**9, 1_000_000_000_123_456_000, 999_999_999_999_000, 3_000_000_000_000_001_000))
        if r.random() < 0.15:
            return pick(), pick(), r.choice((0, 1, 4, 2, 8, 1 | 8, 2 | 4))
        return (pick(), pick(), 1 | 4) if r.random() < 0.7 else (7, 9, 2 | 8)

    def op_ftimes(self):
        fd = self.anyfd()
        o = self.lookup(fd)
        a, m, fl = self.times()
        err = E['BADF']
        if o is not None and fl not in (5, 10):
            err = E['NOTSUP']           # and nothing changes
        elif o is not None:
            err, _ = self.do(lambda: os.utime(o.fd, ns=(a, m)) if fl == 5 else os.utime(o.fd))
        self.step('c_fd_filestat_set_times', [fd, a, m, fl], err, f'fd_filestat_set_times({fd}, {a}, {m}, {fl})')

    def op_ptimes(self):
        fd, p = self.dirfd(), self.path()
        err, base = self.base(fd, p)
        look = self.r.randrange(2)
        a, m, fl = self.times()
        if not err:
            if fl not in (5, 10):
                err = E['NOTSUP']
            elif fl == 5:
                err, _ = self.do(lambda: os.utime(p, ns=(a, m), dir_fd=base, follow_symlinks=bool(look)))
            else:
                err, _ = self.do(lambda: os.utime(p, dir_fd=base, follow_symlinks=bool(look)))
        self.step('c_path_filestat_set_times', [fd, look, self.put(p.encode()), len(p.encode()), a, m, fl], err,
                  f'path_filestat_set_times({fd}, {look}, {p!r}, {a}, {m}, {fl})')

    def op_pstat(self):
        fd, p = self.dirfd(), self.path()
        err, base = self.base(fd, p)
        look = self.r.randrange(2)
        retp = self.alloc(self.statsize, 8)
        if not err:
            err, st = self.do(lambda: os.stat(p, dir_fd=base, follow_symlinks=bool(look)))
            if not err:
                self.checks.append((retp, self.statsize, self.stat_check(st, 0), len(self.steps)))
        self.step('c_path_filestat_get', [fd, look, self.put(p.encode()), len(p.encode()), retp], err,
                  f'path_filestat_get({fd}, {look}, {p!r})')

    def op_mkdir(self):
        fd, p = self.dirfd(), self.path()
        err, base = self.base(fd, p)
        if not err:
            err, _ = self.do(lambda: os.mkdir(p, 0o777, dir_fd=base))
        self.step('c_path_create_directory', [fd, self.put(p.encode()), len(p.encode())], err, f'path_create_directory({fd}, {p!r})')

    def op_rmdir(self):
        fd, p = self.dirfd(), self.path()
        err, base = self.base(fd, p)
        if not err:
            if self.pinned(self.real_of(fd, p)) or p == '.':
                raise Skip()
            err, _ = self.do(lambda: os.rmdir(p, dir_fd=base))
            self.epoch += 1
        self.step('c_path_remove_directory', [fd, self.put(p.encode()), len(p.encode())], err, f'path_remove_directory({fd}, {p!r})')

    def op_unlink(self):
        fd, p = self.dirfd(), self.path()
        err, base = self.base(fd, p)
        if not err:
            err, _ = self.do(lambda: os.unlink(p, dir_fd=base))
            self.epoch += 1
        self.step('c_path_unlink_file', [fd, self.put(p.encode()), len(p.encode())], err, f'path_unlink_file({fd}, {p!r})')

    def two(self):
        fd1, p1, fd2, p2 = self.dirfd(0.04), self.path(), self.dirfd(0.04), self.path()
        e1, b1 = self.base(fd1, p1)
        e2, b2 = self.base(fd2, p2)
        return fd1, p1, b1, fd2, p2, b2, e1 or e2, (e1, e2)

    def op_rename(self):
        fd1, p1, b1, fd2, p2, b2, err, es = self.two()
        exp = err
        if not err:
            if self.pinned(self.real_of(fd1, p1)) or self.pinned(self.real_of(fd2, p2)):
                raise Skip()
            exp, _ = self.do(lambda: os.rename(p1, p2, src_dir_fd=b1, dst_dir_fd=b2))
            self.epoch += 1
        elif all(es):
            exp = set(es)
        self.step('c_path_rename', [fd1, self.put(p1.encode()), len(p1.encode()), fd2, self.put(p2.encode()), len(p2.encode())],
                  exp, f'path_rename({fd1}, {p1!r}, {fd2}, {p2!r})')

    def op_link(self):
        fd1, p1, b1, fd2, p2, b2, err, es = self.two()
        exp = err
        if not err:
            # os.link() with follow_symlinks=True and descriptors is linkat(AT_SYMLINK_FOLLOW)
            exp, _ = self.do(lambda: os.link(p1, p2, src_dir_fd=b1, dst_dir_fd=b2, follow_symlinks=True))
        elif all(es):
            exp = set(es)
        self.step('c_path_link', [fd1, 1, self.put(p1.encode()), len(p1.encode()), fd2, self.put(p2.encode()), len(p2.encode())],
                  exp, f'path_link({fd1}, {p1!r}, {fd2}, {p2!r})')

    def op_symlink(self):
        fd, p = self.dirfd(), self.path()
        t = self.r.choice(('a', 'd0', '../b', 'nowhere', 'd1/c', 'l0', '.', '../d1', 'x' * 300))
        err, base = self.base(fd, p)
        if not err:
            err, _ = self.do(lambda: os.symlink(t, p, dir_fd=base))
        self.step('c_path_symlink', [self.put(t.encode()), len(t), fd, self.put(p.encode()), len(p.encode())], err,
                  f'path_symlink({t!r}, {fd}, {p!r})')

    def op_readlink(self):
        fd, p = self.dirfd(), self.path()
        if self.r.random() < 0.5:
            p = self.r.choice(('l0', 'l1', 'd0/l0', 'd1/lx', 'loop'))
        n = self.r.choice((1, 2, 5, 64, 400))
        err, base = self.base(fd, p)
        buf, retp = self.alloc(n), self.alloc(4, 4)
        if not err:
            err, t = self.do(lambda: os.readlink(p, dir_fd=base))
            if not err:
                t = t.encode()[:n]
                self.wr(buf, t)
                self.wr(retp, struct.pack('<I', len(t)))
        self.step('c_path_readlink', [fd, self.put(p.encode()), len(p.encode()), buf, n, retp], err, f'path_readlink({fd}, {p!r}, {n})')

    def op_list(self):
        fd = self.anyfd(('dir',), 0.02)
        o = self.lookup(fd)
        if o is None:
            raise Skip()
        want = {}
        err, names = self.do(lambda: os.listdir(o.fd))
        if err:
            raise Skip()
        for n in names + ['.', '..']:
            st = os.stat(n, dir_fd=o.fd, follow_symlinks=False)
            want[n.encode()] = (FT.get(stat.S_IFMT(st.st_mode), 0), st.st_ino if n != '..' else None)
        longest = max(map(len, want))
        bs = self.r.choice((24 + longest, 25 + longest, 24 + longest + self.r.randrange(100), 512, 4096, 1024))
        bs = max(bs, 24 + longest)
        n = sum(10 + len(x) for x in want) + 4
        out = self.alloc(n + 300, 8)
        ep = self.epoch

        def f(b):
            q, got = 4, []
            while q + 10 <= len(b) and len(got) < len(want):
                ino, ty, l = struct.unpack('<QBB', b[q:q + 10])
                got.append((b[q + 10:q + 10 + l], ty, ino))
                q += 10 + l
            gn = [g[0] for g in got]
            if sorted(gn) != sorted(want):
                return (f'directory listing (buffer {bs}): missing {sorted(set(want) - set(gn))[:3]} '
                        f'unexpected {sorted(set(gn) - set(want))[:3]} repeated {sorted(x for x in set(gn) if gn.count(x) > 1)[:3]}')
            for nm, ty, ino in got:
                if ty not in (want[nm][0], 0):
                    return f'entry {nm!r} has type {ty}, expected {want[nm][0]}'
                if want[nm][1] is not None:
                    x = self.inode(want[nm][1], ino, ep)
                    if x:
                        return f'entry {nm!r}: {x}'
        self.checks.append((out, n + 300, f, len(self.steps)))
        self.step('list', [fd, bs, out, out + n + 300], len(want), f'list({fd}, buffer={bs}) of {len(want)} entries')

    def op_sync(self):
        fd = self.anyfd()
        o = self.lookup(fd)
        d = self.r.choice(('fd_sync', 'fd_datasync'))
        self.step('c_' + d, [fd], 0 if o is not None else E['BADF'], f'{d}({fd})')

    def op_advise(self):
        fd = self.anyfd(('file',))
        o = self.lookup(fd)
        self.step('c_fd_advise', [fd, 0, 10, self.r.randrange(6)], 0 if o is not None else E['BADF'], f'fd_advise({fd})')

    def op_bad(self):
        """paths WASI itself rejects"""
        r = self.r
        p, e = r.choice(((b'/a', E['PERM']), (b'a\0b', E['INVAL']), (b'/', E['PERM']), (b'a\0', E['INVAL'])))
        fd = 3 if 3 in self.fds else FDS
        pa = self.put(p)
        k = r.randrange(6)
        if k == 5 and b'\0' in p:
            # no link to a part of what was asked for
            g = self.put(b'zl%d' % len(self.steps))
            n = len(b'zl%d' % len(self.steps))
            self.step('c_path_symlink', [pa, len(p), fd, g, n], e, f'path_symlink({p!r}, {fd})')
        elif k == 0:
            self.step('c_path_filestat_get', [fd, 1, pa, len(p), self.alloc(64, 8)], e, f'path_filestat_get({fd}, {p!r})')
        elif k == 1:
            self.step('c_path_unlink_file', [fd, pa, len(p)], e, f'path_unlink_file({fd}, {p!r})')
        elif k == 2:
            self.step('c_path_create_directory', [fd, pa, len(p)], e, f'path_create_directory({fd}, {p!r})')
        elif k == 3:
            self.step('c_path_open', [fd, 1, pa, len(p), 1, R_WRITE, 0, 0, self.alloc(4, 4)], e, f'path_open({fd}, {p!r})')
        else:
            g = self.put(b'zz')
            self.step('c_path_rename', [fd, pa, len(p), fd, g, 2], e, f'path_rename({fd}, {p!r}, {fd}, "zz")')

    def op_prestat(self):
        fd = self.r.choice((3, 4, 5, self.anyfd()))
        o = self.fds.get(fd)
        name = {'pre': b'/'}.get(o.kind if o else None)
        if o is not None and o.kind == 'keep':
            name = {4: b'/out', 5: b'/fds'}[fd]
        retp = self.alloc(8, 4)
        if name is None:
            self.step('c_fd_prestat_get', [fd, retp], E['BADF'], f'fd_prestat_get({fd})')
            return
        self.checks.append((retp, 8, lambda b: None if (b[0], b[4:]) == (0, struct.pack('<I', len(name))) else f'prestat {b!r}',
                            len(self.steps)))
        self.step('c_fd_prestat_get', [fd, retp], 0, f'fd_prestat_get({fd})')
        n = len(name) + self.r.randrange(3)
        buf = self.alloc(n)
        self.wr(buf, name)
        self.step('c_fd_prestat_dir_name', [fd, buf, n], 0, f'fd_prestat_dir_name({fd}, {n})')

    def op_count(self):
        self.step('count', [FDS], ('count', len([o for o in self.fds.values() if o.kind in ('file', 'dir')])), 'host descriptors')

    WEIGHTS = dict(open=20, opendir=5, close=8, renumber=4, read=10, pread=6, write=12, pwrite=6, seek=8, tell=3, truncate=4,
                   allocate=3, fstat=5, fdstat=4, setflags=2, ftimes=2, ptimes=4, pstat=8, mkdir=5, rmdir=4, unlink=6, rename=8,
                   link=5, symlink=5, readlink=4, list=6, sync=1, advise=1, bad=2, prestat=1, count=3)
    FDWEIGHTS = dict(open=30, opendir=8, close=22, renumber=18, read=6, pread=3, write=6, seek=6, tell=3, truncate=1, fstat=15, fdstat=6,
                     setflags=4, ftimes=1, list=5, sync=1, advise=1, allocate=1, prestat=3, count=6, pstat=1)

    def generate(self, n, weights=None):
        w = weights or self.WEIGHTS
        names, ws = list(w), list(w.values())
        self.step('count', [FDS], ('count', 0), 'host descriptors')
        tries = 0
        while len(self.steps) < n and tries < n * 4:
            tries += 1
            k = self.r.choices(names, ws)[0]
            s = (len(self.writes), len(self.checks), len(self.steps))
            try:
                getattr(self, 'op_' + k)()
            except Skip:
                del self.writes[s[0]:], self.checks[s[1]:], self.steps[s[2]:], self.expect[s[2]:], self.what[s[2]:]
                continue
            except Full:
                del self.writes[s[0]:], self.checks[s[1]:], self.steps[s[2]:], self.expect[s[2]:], self.what[s[2]:]
                break
            e = self.expect[-1]
            self.kinds.add((self.steps[-1][0], e if isinstance(e, int) and self.steps[-1][0] != 'list' else -1))
        self.op_count()
        self.nops = len(self.steps)
        self.step('dump', [OUT, 0], 0, 'dump memory')
        for o in self.fds.values():
            if o.fd is not None:
                os.close(o.fd)

    def opts(self):
        return ['--wasi-dir', self.rroot + '::/', '--wasi-dir', f'{self.wdir}/out::/out', '--wasi-dir', '/proc/self/fd::/fds']

    def compare(self, run):
        """-> None or (key, description)"""
        base = None
        for i, (got, exp) in enumerate(zip(run.results, self.expect)):
            ctx = f'call {i}: {self.what[i]}'
            fn = self.steps[i][0]
            if isinstance(exp, tuple):
                if not isinstance(got, int) or got >= 1 << 31:
                    return f'{fn}', f'{ctx}: {got}'
                if base is None:
                    base = got - exp[1]
                if got - base != exp[1]:
                    return 'hostfds', f'{ctx}: {got - base} host descriptors are open for {exp[1]} WASI descriptors'
                continue
            ok = got in exp if isinstance(exp, set) else got == exp
            if not ok:
                return f'errno {fn} {exp}', f'{ctx}: returned {got}, expected {exp}'
        if run.crash:
            return 'crash', run.crash
        with open(f'{self.wdir}/out/m000', 'rb') as f:
            mem = f.read()
        want = bytearray(self.img)
        mask = {}
        for a, b in self.writes:
            want[a:a + len(b)] = b
        for a, n, f, i in self.checks:
            x = f(mem[a:a + n])
            if x:
                return f'data {self.steps[i][0]}', f'call {i}: {self.what[i]}: {x}'
            want[a:a + n] = mem[a:a + n]
        if len(mem) != SIZE:
            return 'dump', f'memory dump has {len(mem)} bytes'
        if mem[:TOP] != want[:TOP]:
            a = next(i for i in range(TOP) if mem[i] != want[i])
            j = None
            for i, (fn, args) in enumerate(self.steps):
                for v in args:
                    if isinstance(v, int) and 0 <= a - v < 10000 and v >= 64:
                        if j is None or v > j[0]:
                            j = (v, i)
            k = j[1] if j else 0
            return f'memory {self.steps[k][0]}', (f'guest byte {a:#x} is {mem[a]:#x}, expected {want[a]:#x}; nearest call {k}: {self.what[k]} '
                                                  f'args {self.steps[k][1]}')
        x = treediff(self.rroot, self.sroot)
        if x:
            return 'tree', x
        x = treediff(os.path.dirname(self.rroot), os.path.dirname(self.sroot))
        return ('tree', x) if x else None

    def run(self, cli, **kw):
        return wasi.run(cli, self.wdir, self.img, self.steps, self.opts(), abi=self.abi, **kw)


def treediff(a, b, rel=''):
    la, lb = sorted(os.listdir(a)), sorted(os.listdir(b))
    if la != lb:
        return f'in {rel or "."}: only toywasm has {sorted(set(la) - set(lb))[:3]}, only POSIX has {sorted(set(lb) - set(la))[:3]}'
    for n in la:
        pa, pb, q = f'{a}/{n}', f'{b}/{n}', f'{rel}/{n}'
        sa, sb = os.lstat(pa), os.lstat(pb)
        if sa.st_mode != sb.st_mode:
            return f'{q}: mode {sa.st_mode:o}, expected {sb.st_mode:o}'
        if sa.st_nlink != sb.st_nlink:
            return f'{q}: link count {sa.st_nlink}, expected {sb.st_nlink}'
        if stat.S_ISLNK(sa.st_mode):
            if os.readlink(pa) != os.readlink(pb):
                return f'{q}: link to {os.readlink(pa)!r}, expected {os.readlink(pb)!r}'
        elif stat.S_ISREG(sa.st_mode):
            if sa.st_size != sb.st_size:
                return f'{q}: size {sa.st_size}, expected {sb.st_size}'
            if not sa.st_mode & 0o400:
                continue
            with open(pa, 'rb') as f, open(pb, 'rb') as g:
                x, y = f.read(1 << 20), g.read(1 << 20)
                if x != y:
                    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                    return f'{q}: contents differ at {i} ({x[i:i + 8]!r}, expected {y[i:i + 8]!r})'
        elif stat.S_ISDIR(sa.st_mode):
            if sa.st_mode & 0o500 == 0o500:
                x = treediff(pa, pb, q)
                if x:
                    return x
        for nm, ta, tb in (('mtime', sa.st_mtime_ns, sb.st_mtime_ns),):
            if (tb < 1_600_000_000 * 10**9 or tb > 2_500_000_000 * 10**9) and ta != tb:
                return f'{q}: {nm} {ta}, expected {tb}'
    return None


def cleanup(d):
    for root, dirs, files in os.walk(d):
        for x in dirs:
            try:
                p = os.path.join(root, x)
                if not os.path.islink(p):
                    os.chmod(p, 0o700)
            except OSError:
                pass
    shutil.rmtree(d, ignore_errors=True)


# --- batches of scenarios in unprivileged workers
def _one(job):
    """job: (tag, cli, sanitized, seed, nsteps, weights, base, wrapper) -> dict"""
    tag, cli, sanitized, seed, nsteps, weights, base, wrapper = job
    d = None
    try:
        res = None
        for attempt in range(2):
            d = os.path.join(base, f'{tag}-{seed}-{attempt}')
            os.mkdir(d)
            sc = Scenario(seed, d)
            sc.generate(nsteps, weights)
            run = sc.run(cli, timeout=45, sanitized=sanitized, wrapper=[w.replace('@', d) for w in wrapper])
            x = sc.compare(run)
            extra = None
            if wrapper:
                with open(os.path.join(d, 'strace'), errors='replace') as f:
                    extra = f.read()
            out = dict(tag=tag, seed=seed, n=sc.nops, hist=repr(list(zip((s[0] for s in sc.steps), run.results))),
                       some=[f'{w} = {r}' for w, r in zip(sc.what[1:7], run.results[1:7])], kinds=sorted(sc.kinds), bad=x, extra=extra)
            if x is None:
                if res is not None:
                    out['unconfirmed'] = res['bad']
                return out
            out['replay'] = dict(seed=seed, config=tag, calls=[f'{i}: {w} = {r} (expected {e})' for i, (w, r, e) in
                                                                enumerate(zip(sc.what, run.results, map(str, sc.expect)))],
                                 steps=sc.steps, stderr=run.err[-6000:])
            res = out
            if x[0] == 'crash' or run.crash:
                if run.crash and x[0] != 'crash':
                    res['bad'] = (f'crash {x[0]}', f'{x[1]}: {run.crash}')
                return res
            cleanup(d)
        return res
    finally:
        if d:
            cleanup(d)


def _init():
    from .common import drop_privs
    drop_privs()()
    os.umask(0o022)


def batch(jobs, par):
    import multiprocessing as mp
    with mp.get_context('fork').Pool(par, _init, maxtasksperchild=200) as pool:
        yield from pool.imap_unordered(_one, jobs)


def prepare(configs):
    """A scratch directory usable by the unprivileged user, with the tools."""
    from . import build
    from .common import scratch_dir
    base = scratch_dir()
    os.chmod(base, 0o777)
    build.build_many(configs)
    clis = {}
    for c in configs:
        clis[c] = os.path.join(base, 'toywasm-' + c)
        shutil.copy(build.cli(c), clis[c])
        os.chmod(clis[c], 0o755)
    wasi.template(PAGES)
    wasi.template(PAGES, 'wasi_unstable')
    return base, clis


def run_batch(c, jobs, what):
    """Runs scenarios and reports; returns the number of calls made."""
    from .common import NPROC
    calls = 0
    kinds = {}
    for r in batch(jobs, NPROC):
        calls += r['n']
        c.evaluations += r['n']
        c.distinct(r['hist'])
        c.sample(r['some'])
        for k in r['kinds']:
            kinds[tuple(k)] = kinds.get(tuple(k), 0) + 1
        if r.get('unconfirmed'):
            c.coverage['unconfirmed'] = c.coverage.get('unconfirmed', 0) + 1
            c.log(f'seed {r["seed"]} {r["tag"]}: {r["unconfirmed"]} did not happen again')
        if r['bad']:
            key, text = r['bad']
            c.violation(f'{what}:{key}', f'{r["tag"]} seed {r["seed"]}: {text}', r['replay'])
        yield r
    c.coverage[what] = dict(scenarios=len(jobs), calls=calls, call_outcomes=len(kinds),
                            outcomes={f'{a[2:] if a.startswith("c_") else a}:{b}': n for (a, b), n in sorted(kinds.items())})
