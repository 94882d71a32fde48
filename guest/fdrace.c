/* fdrace.wasm T ITER SEED
 * preopened: 3 a directory with f0..f15 (64 bytes: 16 times the number as u32),
 * e (a directory with n0..n4) ; 4 /proc/self/fd
 * Threads open, use, renumber, publish and close descriptors. */
#include "g.h"
void *memcpy(void *, const void *, size_t);
IMP(path_open) int path_open(int, int, const char *, size_t, int, u64, u64, int, int *);
IMP(fd_close) int fd_close(int);
IMP(fd_pread) int fd_pread(int, const struct iov *, size_t, u64, size_t *);
IMP(fd_readdir) int fd_readdir(int, void *, size_t, u64, size_t *);
IMP(fd_renumber) int fd_renumber(int, int);
IMP(fd_filestat_get) int fd_filestat_get(int, u64 *);
IMP(fd_seek) int fd_seek(int, i64, int, u64 *);
static i32 owner[4096];
static i32 pub[4];
static u64 inos[16];
static i32 nthreads, iters, done, ready;
static u64 seed, ops, stale, hits;
static i32 failed;
static void fail(const char *what, u64 a, u64 b)
{
        if (add(&failed, 1) == 0) {
                puts_("FAIL ");
                puts_(what);
                puts_(" ");
                puti(a, ' ');
                puti(b, '\n');
        }
}
static int open_(const char *p, size_t n, int of, u64 rights)
{
        int fd = -1;
        int e = path_open(3, 0, p, n, of, rights, 0, 0, &fd);
        if (e) {
                fail("open", e, 0);
                return -1;
        }
        if ((u32)fd >= 4096) {
                fail("fd", fd, 0);
                return -1;
        }
        i32 o = __atomic_exchange_n(&owner[fd], 1, __ATOMIC_SEQ_CST);
        if (o)
                fail("collision", fd, o);
        return fd;
}
static int openf(u32 k)
{
        char nm[3] = { 'f', k < 10 ? '0' + k : '1', k < 10 ? 0 : '0' + k - 10 };
        return open_(nm, k < 10 ? 2 : 3, 0, 2);
}
static void close_(int fd)
{
        st(&owner[fd], 0);
        int e = fd_close(fd);
        if (e)
                fail("close", e, fd);
}
static void check(int fd, u32 k, const char *what)
{
        u32 b[16];
        u64 s[8];
        struct iov v = { b, 64 };
        size_t n = 99;
        int e = fd_pread(fd, &v, 1, 0, &n);
        if (e || n != 64)
                fail(what, 1000 + e, n);
        for (int i = 0; i < 16; i++)
                if (b[i] != k)
                        fail(what, b[i], k);
        e = fd_filestat_get(fd, s);
        if (e)
                fail(what, 2000 + e, 0);
        else if (s[1] != inos[k])
                fail("inode", s[1], inos[k]);
}
static void list(int fd)
{
        u8 b[600];
        size_t n = 0;
        int e = fd_readdir(fd, b, sizeof(b), 0, &n);
        if (e) {
                fail("readdir", e, fd);
                return;
        }
        u32 cnt = 0, names = 0;
        for (size_t p = 0; p + 24 <= n; cnt++) {
                u32 l;
                memcpy(&l, b + p + 16, 4);
                if (l == 2 && b[p + 24] == 'n')
                        names |= 1u << (b[p + 25] - '0');
                p += 24 + l;
        }
        if (cnt != 7 || names != 31)
                fail("listing", cnt, names);
}
static void worker(int id)
{
        u64 s = seed + id * 7919;
        char wn[3] = { 'w', 'a' + id / 16, 'a' + id % 16 };
        for (int it = 0; it < iters && !ld(&failed); it++) {
                u32 r = rnd(&s), k = (r >> 8) & 15, j = (r >> 12) & 15;
                int a, b;
                add(&ops, 1);
                switch (r % 10) {
                case 0:
                case 1:
                        if ((a = openf(k)) < 0)
                                return;
                        check(a, k, "data");
                        close_(a);
                        break;
                case 2:
                case 3:
                        if ((a = open_("e", 1, 2, 2)) < 0)
                                return;
                        list(a);
                        list(a);
                        close_(a);
                        break;
                case 4:
                case 5: {
                        if ((a = openf(k)) < 0 || (b = openf(j)) < 0)
                                return;
                        check(b, j, "before renumber");
                        st(&owner[a], 0);
                        int e = fd_renumber(a, b);
                        if (e)
                                fail("renumber", e, 0);
                        check(b, k, "after renumber");
                        close_(b);
                        break;
                }
                case 6: {
                        /* let the others use it while it is being closed */
                        if ((a = openf(k)) < 0)
                                return;
                        st(&pub[r >> 30], a);
                        check(a, k, "published");
                        close_(a);
                        break;
                }
                case 7:
                case 8: {
                        i32 fd = ld(&pub[r >> 30]);
                        u32 q[16];
                        struct iov v = { q, 64 };
                        size_t n = 99;
                        int e = fd_pread(fd, &v, 1, 0, &n);
                        if (e == 0) {
                                /* some file, but a whole and consistent one */
                                if (n == 64) {
                                        for (int i = 1; i < 16; i++)
                                                if (q[i] != q[0] || q[i] > 15)
                                                        fail("mixed", q[i], q[0]);
                                        add(&hits, 1);
                                } else if (n % 8)
                                        fail("short", n, 0);
                        } else if (e == 8) {
                                add(&stale, 1);
                        } else if (e != 31 && e != 28) {
                                fail("stale pread", e, fd);
                        }
                        break;
                }
                case 9: {
                        u64 rec[4] = { id, it, id, it };
                        struct iov v = { rec, 32 };
                        size_t n;
                        u64 pos;
                        if ((a = open_(wn, 3, 1, 64)) < 0)
                                return;
                        int e = fd_seek(a, 0, 2, &pos);
                        if (e || pos % 32)
                                fail("seek", e, pos);
                        e = fd_write(a, &v, 1, &n);
                        if (e || n != 32)
                                fail("write", e, n);
                        close_(a);
                        break;
                }
                }
        }
}
void thread_main(int tid, int a)
{
        while (!ld(&ready))
                wait32(&ready, 0, 1000000);
        worker(a);
        add(&done, 1);
        notify(&done, 100);
}
static u32 hostfds(void)
{
        static u8 b[8192];
        int fd;
        size_t n;
        u32 cnt = 0;
        u64 cookie = 0;
        if (path_open(4, 0, ".", 1, 2, 2, 0, 0, &fd))
                trap();
        if (fd_readdir(fd, b, sizeof(b), 0, &n))
                trap();
        for (size_t p = 0; p + 24 <= n; cnt++) {
                u32 l;
                memcpy(&l, b + p + 16, 4);
                p += 24 + l;
        }
        fd_close(fd);
        return cnt;
}
void _start(void)
{
        g_args();
        nthreads = arg(1);
        iters = arg(2);
        seed = arg(3);
        u64 s[8];
        for (int k = 0; k < 16; k++) {
                int fd = openf(k);
                if (fd < 0 || fd_filestat_get(fd, s))
                        trap();
                inos[k] = s[1];
                close_(fd);
        }
        for (int i = 0; i < 4; i++)
                pub[i] = 100;
        u32 before = hostfds();
        int n = 0;
        for (int i = 0; i < nthreads; i++)
                if (thread_spawn(i) > 0)
                        n++;
        st(&ready, 1);
        notify(&ready, 100);
        for (;;) {
                i32 d = ld(&done);
                if (d == n)
                        break;
                wait32(&done, d, 5000000);
        }
        u32 after = hostfds();
        puts_(ld(&failed) ? "BAD " : "OK ");
        puti(n, ' ');
        puti(ld(&ops), ' ');
        puti(ld(&stale), ' ');
        puti(ld(&hits), ' ');
        puti(before, ' ');
        puti(after, '\n');
}
