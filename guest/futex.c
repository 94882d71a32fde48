/* futex.wasm MODE SEED THREADS ITERS
 * 0 waits with short timeouts against notifies of random counts
 * 1 waits with long timeouts; a notifier wakes everybody bit by bit
 * 3 waits of all lengths which nobody wakes
 * 4 the value changes without a notify while waits are blocked
 * 2 tokens passed around rings; a timeout is a lost wakeup
 * Records: kind addr a b res t0 t1 (one line each). */
#include "g.h"
struct rec {
        u32 kind, addr;
        i64 a, b, res;
        u64 t0, t1;
};
#define NA 12
static u32 mode, T, N;
static u64 seed;
static i32 done, stop, waiting;
static struct rec recs[16][4096];
static u32 nrec[16];
static u8 area[70000] __attribute__((aligned(65536)));
static u64 *cell(u32 k)
{
        /* neighbours, and far apart */
        return (u64 *)(area + (k & 3) * 8 + (k >> 2) * 32768);
}
static void rec(u32 me, u32 kind, u32 addr, i64 a, i64 b, i64 res, u64 t0, u64 t1)
{
        if (nrec[me] < 4096) {
                struct rec *r = &recs[me][nrec[me]++];
                r->kind = kind, r->addr = addr, r->a = a, r->b = b, r->res = res, r->t0 = t0, r->t1 = t1;
        }
}
/* the same with the address split between the operand and the offset */
static int wait32o(const void *p, u32 v, i64 t)
{
        int r;
        __asm__("local.get %1\nlocal.get %2\nlocal.get %3\nmemory.atomic.wait32 24\nlocal.set %0" : "=r"(r) : "r"((const u8 *)p - 24), "r"(v), "r"(t) : "memory");
        return r;
}
static int wait64o(const void *p, u64 v, i64 t)
{
        int r;
        __asm__("local.get %1\nlocal.get %2\nlocal.get %3\nmemory.atomic.wait64 16\nlocal.set %0" : "=r"(r) : "r"((const u8 *)p - 16), "r"(v), "r"(t) : "memory");
        return r;
}
static u32 notifyo(const void *p, u32 n)
{
        u32 r;
        __asm__("local.get %1\nlocal.get %2\nmemory.atomic.notify 8\nlocal.set %0" : "=r"(r) : "r"((const u8 *)p - 8), "r"(n) : "memory");
        return r;
}
static int dowait(u32 me, u32 k, u64 expect, i64 timeout, int wide)
{
        u64 *p = cell(k);
        u64 t0 = now();
        int split = (t0 >> 10 & 3) == 0;
        int r = wide ? split ? wait64o(p, expect, timeout) : wait64(p, expect, timeout)
                     : split ? wait32o(p, expect, timeout) : wait32(p, expect, timeout);
        rec(me, wide, k, expect, timeout, r, t0, now());
        return r;
}
static u32 donotify(u32 me, u32 k, u32 n)
{
        u64 t0 = now();
        u32 r = t0 >> 10 & 1 ? notify(cell(k), n) : notifyo(cell(k), n);
        rec(me, 2, k, n, 0, r, t0, now());
        return r;
}
static const i64 forever[8] = {
        -1, 20000000000ll, INT64_MIN, INT64_MAX, -1000000, 20000000000ll, INT64_MAX / 2, 1000000000ll * 0x7fffffff,
};
static void work(u32 me)
{
        u64 s = seed * 131 + me;
        barrier(T);
        if (mode == 0) {
                for (u32 i = 0; i < N; i++) {
                        u64 x = rnd(&s);
                        u32 k = x % 3 ? (x >> 8) % 2 : (x >> 8) % NA;
                        if (x >> 40 & 1)
                                donotify(me, k, x >> 41 & 1 ? 1 : x >> 42 & 1 ? 0xffffffff : x >> 43 & 3);
                        else
                                /* the cells hold 0 all the time */
                                dowait(me, k, (x >> 44 & 7) == 0, (x >> 44 & 7) == 1 ? 0 : (x >> 48) * 20, x >> 45 & 1);
                }
        } else if (mode == 1) {
                for (u32 i = 0; i < N; i++) {
                        u32 k = i % NA;
                        u64 is = seed * 17 + i, y = rnd(&is);
                        if (me == 0) {
                                u32 got = 0;
                                while (ld(&waiting) != T - 1)
                                        sched_yield();
                                if (y & 1)
                                        for (u64 t = now(); now() < t + 300000;)
                                                ;
                                donotify(me, (k + 4) % NA, 0xffffffff); /* nobody there */
                                while (got < T - 1) {
                                        u32 n = y & 2 ? 1 : y & 4 ? 2 : 0xffffffff;
                                        u32 r = donotify(me, k, n);
                                        if (r > n)
                                                trap();
                                        got += r;
                                        if (r == 0) {
                                                nrec[me]--;
                                                sched_yield();
                                        }
                                }
                                st(&waiting, 0);
                        } else {
                                add(&waiting, 1);
                                dowait(me, k, 0, forever[y >> 8 & 7], y >> 4 & 1);
                        }
                        barrier(T);
                }
        } else if (mode == 4) {
                for (u32 i = 0; i < N; i++) {
                        u64 x = rnd(&s);
                        if (me == 0) {
                                while (ld(&waiting) != T - 1)
                                        sched_yield();
                                wait32(&stop, 0, 100000000);
                                u64 t0 = now();
                                for (u32 k = 0; k < NA; k++)
                                        st(cell(k), x | 1);
                                rec(me, 4, 0, 0, 0, 0, t0, now());
                                wait32(&stop, 0, 100000000);
                                st(&waiting, 0);
                        } else {
                                add(&waiting, 1);
                                dowait(me, me % NA, 0, 700000000 + x % 300000000, x >> 40 & 1);
                        }
                        barrier(T);
                        for (u32 k = 0; me == 0 && k < NA; k++)
                                st(cell(k), 0);
                        barrier(T);
                }
        } else if (mode == 3) {
                for (u32 i = 0; i < N; i++) {
                        u64 x = rnd(&s), lim = 1ull << (10 + x % 20);
                        dowait(me, me % NA, 0, (x >> 8) % (lim * 2), x >> 60 & 1);
                        if (x >> 50 & 1)
                                donotify(me, (me + T) % NA, 0xffffffff);
                }
        } else {
                /* ring of semaphores: cell k holds the tokens of thread k */
                u32 k = me;
                u32 *p = (u32 *)cell(k), *q = (u32 *)cell((k + 1) % T);
                u32 tok = me == 0 ? 2 : 0;
                for (u32 i = 0; i < N; i++) {
                        if (i >= tok) {
                                for (;;) {
                                        u32 v = ld(p);
                                        if (v) {
                                                __atomic_fetch_sub(p, 1, __ATOMIC_SEQ_CST);
                                                break;
                                        }
                                        u64 t0 = now();
                                        int r = wait32(p, 0, 20000000000ll);
                                        if (r == 2 || i < 200)
                                                rec(me, 0, k, 0, 20000000000ll, r, t0, now());
                                        if (r == 2)
                                                break;
                                }
                        }
                        add(q, 1);
                        notify(q, 1);
                }
        }
}
static u32 grows;
void thread_main(int tid, int a)
{
        if (a == 100) {
                /* growth interrupts the waiters */
                while (!ld(&stop)) {
                        __builtin_wasm_memory_grow(0, 1);
                        grows++;
                        wait32(&stop, 0, 500000);
                }
                add(&done, 1);
                notify(&done, 1);
                return;
        }
        work(a);
        add(&done, 1);
        notify(&done, 1);
}
EXP(_start) void _start(void)
{
        g_args();
        mode = arg(1), seed = arg(2), T = arg(3), N = arg(4);
        u32 grow = mode / 10;
        mode %= 10;
        for (u32 i = 1; i < T; i++)
                if (thread_spawn(i) < 0)
                        trap();
        if (grow && thread_spawn(100) < 0)
                trap();
        work(0);
        for (i32 d; (d = ld(&done)) != T - 1;)
                wait32(&done, d, 10000000);
        if (grow) {
                st(&stop, 1);
                notify(&stop, 1);
                for (i32 d; (d = ld(&done)) != T;)
                        wait32(&done, d, 10000000);
                rec(0, 3, 0, 0, 0, grows, 0, 0);
        }
        for (u32 i = 0; i < T; i++)
                put(recs[i], nrec[i] * sizeof(struct rec));
}
