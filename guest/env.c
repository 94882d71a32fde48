/* Reports arguments, environment and preopened directories, echoes its input
   on both output streams, and ends as told by the first words of the input. */
#include "g.h"
void *memset(void *, int, size_t);
IMP(environ_sizes_get) int environ_sizes_get(size_t *, size_t *);
IMP(environ_get) int environ_get(char **, char *);
struct prestat {
        u8 tag;
        u8 pad[3];
        u32 len;
};
IMP(fd_prestat_get) int fd_prestat_get(int, struct prestat *);
IMP(fd_prestat_dir_name) int fd_prestat_dir_name(int, char *, size_t);
static u8 space[3 << 20];
static char *ptrs[5000];
static u8 buf[1 << 16], inv[1 << 16];

static void
out(int fd, const void *p, size_t n)
{
        while (n) {
                struct iov v = { p, n };
                size_t w = 0;
                int e = fd_write(fd, &v, 1, &w);
                if (e == 6)
                        continue;
                if (e || w > n)
                        trap();
                p = (const u8 *)p + w;
                n -= w;
        }
}
static void
w(u32 v)
{
        out(1, &v, 4);
}
static void
strings(int (*sizes)(size_t *, size_t *), int (*get)(char **, char *))
{
        size_t n = 77, sz = 77;
        int e = sizes(&n, &sz);
        w(e), w(n), w(sz);
        if (n > 4990 || sz > (2 << 20))
                trap();
        memset(space, 0xa7, sizeof(space));
        memset(ptrs, 0xa7, sizeof(ptrs));
        e = get(ptrs, (char *)space + 100);
        u32 bad = 0;
        for (size_t i = 0; i < 100; i++)
                if (space[i] != 0xa7 || space[100 + sz + i] != 0xa7)
                        bad++;
        for (size_t i = n; i < n + 10; i++)
                if (ptrs[i] != (char *)0xa7a7a7a7)
                        bad++;
        w(e), w(bad);
        for (size_t i = 0; i < n; i++)
                w((u32)(ptrs[i] - (char *)space - 100));
        out(1, space + 100, sz);
}
static size_t
in(void *p, size_t n)
{
        struct iov v = { p, n };
        size_t r = 0;
        int e;
        while ((e = fd_read(0, &v, 1, &r)) == 6)
                ;
        if (e || r > n)
                trap();
        return r;
}
static int depth(volatile int *p, int n) { return n ? depth(p, n - 1) + *p : (proc_exit(*p), 0); }
static int forever(volatile int *p) { volatile int q = *p; return forever(&q) + q; }
static u32 ctl[4];
void
thread_main(int tid, int a)
{
        if (a == 8)
                proc_exit(ctl[1]);
        trap();
}
EXP(_start) void _start(void)
{
        size_t have = 0;
        while (have < sizeof(ctl)) {
                size_t k = in((u8 *)ctl + have, sizeof(ctl) - have);
                if (k == 0)
                        trap();
                have += k;
        }
        strings(args_sizes_get, args_get);
        strings(environ_sizes_get, environ_get);
        for (int fd = 3;; fd++) {
                struct prestat p = { 9, { 9, 9, 9 }, 9 };
                int e = fd_prestat_get(fd, &p);
                w(e);
                if (e)
                        break;
                w(p.tag), w(p.len);
                if (p.len > sizeof(buf) - 8)
                        trap();
                memset(buf, 0xa7, p.len + 8);
                w(fd_prestat_dir_name(fd, (char *)buf, p.len));
                out(1, buf, p.len + 1);
        }
        u64 s = ctl[2];
        for (;;) {
                size_t n = in(buf, 1 + rnd(&s) % sizeof(buf));
                if (n == 0)
                        break;
                for (size_t i = 0; i < n; i++)
                        inv[i] = ~buf[i];
                if (ctl[3] & 1)
                        out(2, inv, n);
                out(1, buf, n);
                if (ctl[3] & 2)
                        out(2, inv, n);
        }
        volatile int v = ctl[1];
        volatile int zero = 0;
        switch (ctl[0]) {
        case 0:
                return;
        case 1:
                proc_exit(v);
        case 2:
                trap();
        case 3:
                *(volatile int *)0x7fffffff = 1;
        case 4:
                v = forever(&v);
        case 5:
                depth(&v, 100);
        case 6:
                ((void (*)(void))(volatile size_t)(0x12345 + zero))();
        case 7:
                v = 5 / zero;
        case 8:
        case 9:
                if (thread_spawn(ctl[0]) < 0)
                        trap();
                wait32(&zero, 0, -1);
        }
}
