/* Interprets a script of polls, transfers and clock readings ("s" in the
   preopened directory) and logs what each gave (to "log"). */
#include "g.h"
struct event {
        u64 userdata;
        u16 error;
        u8 type;
        u8 pad[5];
        u64 nbytes;
        u16 flags;
        u8 pad2[6];
};
struct sub {
        u64 userdata;
        u8 type;
        u8 pad[7];
        union {
                struct {
                        u32 id;
                        u32 pad;
                        u64 timeout, precision;
                        u16 flags;
                } clock;
                u32 fd;
        } u;
};
_Static_assert(sizeof(struct sub) == 48 && sizeof(struct event) == 32, "layout");
void *memset(void *, int, size_t);
IMP(path_open) int path_open(int, int, const char *, size_t, int, u64, u64, int, int *);
IMP(fd_close) int fd_close(int);
IMP(fd_fdstat_set_flags) int fd_fdstat_set_flags(int, int);
IMP(poll_oneoff) int poll_oneoff(const struct sub *, struct event *, size_t, size_t *);
IMP(clock_res_get) int clock_res_get(int, u64 *);
IMP(sock_accept) int sock_accept(int, int, int *);
IMP(sock_recv) int sock_recv(int, const struct iov *, size_t, int, size_t *, u16 *);
IMP(sock_send) int sock_send(int, const struct iov *, size_t, int, size_t *);
IMP(sock_shutdown) int sock_shutdown(int, int);

static u64 script[8192];
static u8 buf[1 << 18];
static struct sub subs[32];
static struct event evs[32];
static int logfd;

static void
lg(const void *p, size_t n)
{
        while (n) {
                struct iov v = { p, n };
                size_t w;
                if (fd_write(logfd, &v, 1, &w))
                        trap();
                p = (const u8 *)p + w;
                n -= w;
        }
}
static void
w(u64 v)
{
        lg(&v, 8);
}
static u64
clk(int id)
{
        u64 t;
        int e = clock_time_get(id, 1, &t);
        if (e)
                trap();
        return t;
}
/* the bytes of a stream: position dependent, hard to confuse */
static u8
gen(u64 seed, u64 i)
{
        u64 s = seed * 1000003 + i;
        return rnd(&s);
}
static void
wait_fd(int fd, int type)
{
        struct sub s;
        struct event e;
        size_t n;
        memset(&s, 0, sizeof(s));
        s.type = type;
        s.u.fd = fd;
        if (poll_oneoff(&s, &e, 1, &n) || n != 1)
                trap();
}
static u64 grow_period, grow_count;
static i32 dummy;
void
thread_main(int tid, int a)
{
        for (u64 i = 0; i < grow_count; i++) {
                wait32(&dummy, 0, grow_period);
                __builtin_wasm_memory_grow(0, 1);
        }
}
static struct iov iovs[8];
static size_t
split(u8 *p, size_t n, int k, u64 *r)
{
        int i;
        for (i = 0; i < k - 1; i++) {
                size_t m = n ? rnd(r) % (n + 1) : 0;
                iovs[i].p = p;
                iovs[i].n = m;
                p += m;
                n -= m;
        }
        iovs[i].p = p;
        iovs[i].n = n;
        return k;
}
EXP(_start) void _start(void)
{
        int fd;
        size_t n = 0;
        u64 r = 1;
        if (path_open(3, 0, "s", 1, 0, 2, 0, 0, &fd))
                trap();
        struct iov v = { script, sizeof(script) };
        if (fd_read(fd, &v, 1, &n) || n == 0)
                trap();
        fd_close(fd);
        if (path_open(3, 0, "log", 3, 9, 64, 0, 0, &logfd))
                trap();
        for (u64 *p = script;;) {
                u64 op = *p++;
                int e;
                u64 t0, t1, q0, q1;
                switch (op) {
                case 0:
                        w(0);
                        return;
                case 1: {
                        u64 ns = *p++, go = *p++;
                        memset(subs, 0, sizeof(subs));
                        memset(evs, 0xee, sizeof(evs));
                        for (u64 i = 0; i < ns; i++, p += 5) {
                                subs[i].type = p[0];
                                subs[i].userdata = p[1];
                                if (p[0] == 0) {
                                        subs[i].u.clock.id = p[2];
                                        subs[i].u.clock.timeout = p[3];
                                        if (p[4])
                                                subs[i].u.clock.timeout += clk(p[2]);
                                        subs[i].u.clock.flags = p[4];
                                } else
                                        subs[i].u.fd = p[2];
                        }
                        if (go)
                                put("G", 1);
                        n = 0;
                        q0 = clk(0);
                        t0 = clk(1);
                        e = poll_oneoff(subs, evs, ns, &n);
                        t1 = clk(1);
                        q1 = clk(0);
                        w(1), w(e), w(n), w(t0), w(t1), w(q0), w(q1);
                        for (u64 i = 0; i < ns; i++)
                                w(subs[i].u.clock.timeout);
                        for (u64 i = 0; i < n && i < 32; i++)
                                w(evs[i].userdata), w(evs[i].error), w(evs[i].type);
                        break;
                }
                case 2: /* read: fd len niov go */
                        split(buf, p[1], p[2], &r);
                        n = 0;
                        if (p[3])
                                put("G", 1);
                        t0 = clk(1);
                        e = fd_read(p[0], iovs, p[2], &n);
                        t1 = clk(1);
                        w(2), w(e), w(n), w(t0), w(t1);
                        if (!e)
                                lg(buf, n);
                        p += 4;
                        break;
                case 3: /* fill a non-blocking pipe: fd seed chunk */
                        t0 = 0;
                        for (;;) {
                                for (u64 i = 0; i < p[2]; i++)
                                        buf[i] = gen(p[1], t0 + i);
                                split(buf, p[2], 1 + rnd(&r) % 3, &r);
                                iovs[0].p = buf;
                                iovs[0].n = p[2];
                                e = fd_write(p[0], iovs, 1, &n);
                                if (e)
                                        break;
                                t0 += n;
                        }
                        w(3), w(e), w(t0);
                        p += 3;
                        break;
                case 4:
                        e = clock_time_get(p[0], 1, &t0);
                        w(4), w(e), w(t0);
                        p++;
                        break;
                case 5:
                        e = clock_res_get(p[0], &t0);
                        w(5), w(e), w(t0);
                        p++;
                        break;
                case 6: { /* open: name rights fdflags */
                        char nm[2] = { 'f', '0' + p[0] };
                        fd = 0;
                        e = path_open(3, 0, nm, 2, 0, p[1], 0, p[2], &fd);
                        w(6), w(e), w(fd);
                        p += 3;
                        break;
                }
                case 7:
                        e = fd_close(*p++);
                        w(7), w(e);
                        break;
                case 8:
                        e = fd_fdstat_set_flags(p[0], p[1]);
                        w(8), w(e);
                        p += 2;
                        break;
                case 9: { /* token */
                        u8 b;
                        struct iov t = { &b, 1 };
                        e = fd_read(0, &t, 1, &n);
                        if (e || n != 1)
                                trap();
                        q0 = clk(0);
                        t0 = clk(1);
                        q1 = clk(2);
                        t1 = clk(3);
                        put("T", 1);
                        w(9), w(q0), w(t0), w(q1), w(t1);
                        break;
                }
                case 10:
                        for (volatile u64 i = 0; i < p[0]; i++)
                                ;
                        p++;
                        break;
                case 11:
                        grow_period = p[0];
                        grow_count = p[1];
                        w(11), w(thread_spawn(1));
                        p += 2;
                        break;
                case 12: /* accept: fd flags go */
                        fd = 0;
                        if (p[2])
                                put("G", 1);
                        t0 = clk(1);
                        e = sock_accept(p[0], p[1], &fd);
                        t1 = clk(1);
                        w(12), w(e), w(fd), w(t0), w(t1);
                        p += 3;
                        break;
                case 13: { /* receive: fd len flags */
                        u16 ro = 0;
                        split(buf, p[1], 1 + rnd(&r) % 4, &r);
                        iovs[0].p = buf;
                        iovs[0].n = p[1];
                        n = 0;
                        e = sock_recv(p[0], iovs, 1, p[2], &n, &ro);
                        w(13), w(e), w(n), w(ro);
                        if (!e)
                                lg(buf, n);
                        p += 3;
                        break;
                }
                case 15:
                        e = sock_shutdown(p[0], p[1]);
                        w(15), w(e);
                        p += 2;
                        break;
                case 17: { /* read to the end: fd max seed; logs each piece */
                        u64 rs = p[2];
                        w(17);
                        for (;;) {
                                size_t l = 1 + rnd(&rs) % p[1];
                                int k = 1 + rnd(&rs) % 5;
                                split(buf, l, k, &rs);
                                n = 0;
                                if (p[3] && (rnd(&rs) & 1))
                                        e = sock_recv(p[0], iovs, k, 0, &n, &(u16){ 0 });
                                else
                                        e = fd_read(p[0], iovs, k, &n);
                                if (e == 6) {
                                        wait_fd(p[0], 1);
                                        continue;
                                }
                                w(e), w(n), w(l);
                                if (e || n == 0)
                                        break;
                                lg(buf, n);
                        }
                        p += 4;
                        break;
                }
                case 18: { /* write all: fd total seed max */
                        u64 rs = p[2] + 7, done = 0, waits = 0;
                        while (done < p[1]) {
                                size_t l = 1 + rnd(&rs) % p[3];
                                int k = 1 + rnd(&rs) % 5;
                                if (l > p[1] - done)
                                        l = p[1] - done;
                                for (u64 i = 0; i < l; i++)
                                        buf[i] = gen(p[2], done + i);
                                split(buf, l, k, &rs);
                                n = 0;
                                if (p[4] && (rnd(&rs) & 1))
                                        e = sock_send(p[0], iovs, k, 0, &n);
                                else
                                        e = fd_write(p[0], iovs, k, &n);
                                if (e == 6) {
                                        waits++;
                                        wait_fd(p[0], 2);
                                        continue;
                                }
                                if (e || n > l)
                                        break;
                                done += n;
                        }
                        w(18), w(done < p[1] ? e : 0), w(done), w(waits);
                        p += 5;
                        break;
                }
                default:
                        trap();
                }
        }
}
