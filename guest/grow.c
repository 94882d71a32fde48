/* grow.wasm SEED THREADS ITERS BUSY MAXDELTA: threads grow the memory, look at
 * its size and use it at the same time.  Output: lines "g old delta", "s size"
 * per thread, then totals. */
#include "g.h"
struct rec {
        u32 kind, a, b;
};
static u32 T, N, B, D;
static u64 seed;
static i32 done, stop, bell;
static struct rec recs[16][4096];
static u32 nrec[16];
static u32 nonzero, lost, shrunk, busyops;
static u64 priv[16][64];
static u32 ctr;
static void rec(u32 me, u32 k, u32 a, u32 b)
{
        if (nrec[me] < 4096)
                recs[me][nrec[me]++] = (struct rec){ k, a, b };
}
static void work(u32 me)
{
        u64 s = seed * 977 + me;
        u32 last = 0;
        barrier(T);
        for (u32 i = 0; i < N; i++) {
                u64 x = rnd(&s);
                u32 sz = __builtin_wasm_memory_size(0);
                if (sz < last)
                        add(&shrunk, 1);
                last = sz;
                if ((x & 3) == 0)
                        rec(me, 1, sz, 0);
                u32 d = (x >> 8) % (D + 1);
                u32 old = __builtin_wasm_memory_grow(0, d);
                rec(me, 0, old, d);
                if (old != 0xffffffff) {
                        if (old < last)
                                add(&shrunk, 1);
                        last = old + d;
                        /* the pages are ours: zero, and they keep what we put */
                        for (u32 p = old; p < old + d; p++) {
                                u32 *q = (u32 *)((size_t)p * 65536);
                                for (u32 k = 0; k < 16384; k += 509) {
                                        if (q[k])
                                                add(&nonzero, 1);
                                        q[k] = p * 3 + k + 1;
                                }
                                q[16383] = 7;
                        }
                }
                for (int k = 0; k < 64; k++) {
                        if (priv[me][k] != i * (u64)(k + 1))
                                add(&lost, 1);
                        priv[me][k] += k + 1;
                }
                add(&ctr, 1);
                if ((x >> 20 & 15) == 0)
                        sched_yield();
                if ((x >> 24 & 31) == 0)
                        wait32(&bell, 0, 100000);
                if ((x >> 29 & 15) == 0)
                        notify(&bell, 0xffffffffu);
        }
}
static void busy(u32 me)
{
        /* uses memory, waits and sleeps all the time, never grows */
        u64 s = seed * 7 + me, n = 0;
        barrier(T + B);
        while (!ld(&stop)) {
                u64 x = rnd(&s);
                n++;
                for (int k = 0; k < 64; k++) {
                        if (priv[me][k] != (n - 1) * (u64)(k + 1))
                                add(&lost, 1);
                        priv[me][k] = n * (u64)(k + 1);
                }
                if ((x & 63) == 0)
                        wait32(&bell, 0, x >> 40);
                add(&busyops, 1);
        }
}
void thread_main(int tid, int a)
{
        if (a >= (int)T) {
                busy(a);
        } else {
                if (B)
                        barrier(T + B);
                work(a);
        }
        add(&done, 1);
        notify(&done, 1);
}
EXP(_start) void _start(void)
{
        g_args();
        seed = arg(1), T = arg(2), N = arg(3), B = arg(4), D = arg(5);
        u32 first = __builtin_wasm_memory_size(0);
        for (u32 i = 1; i < T + B; i++)
                if (thread_spawn(i) < 0)
                        trap();
        if (B)
                barrier(T + B);
        work(0);
        for (i32 d; (d = ld(&done)) < (i32)T - 1;)
                wait32(&done, d, 10000000);
        st(&stop, 1);
        st(&bell, 1);
        notify(&bell, 0xffffffffu);
        for (i32 d; (d = ld(&done)) < (i32)(T + B) - 1;)
                wait32(&done, d, 10000000);
        u32 last = __builtin_wasm_memory_size(0), badpage = 0;
        for (u32 p = first; p < last; p++) {
                u32 *q = (u32 *)((size_t)p * 65536);
                for (u32 k = 0; k < 16384; k += 509)
                        if (q[k] != p * 3 + k + 1)
                                badpage++;
                if (q[16383] != 7)
                        badpage++;
        }
        for (u32 t = 0; t < T; t++)
                for (u32 i = 0; i < nrec[t]; i++) {
                        puti(t, ' '), puti(recs[t][i].kind, ' '), puti(recs[t][i].a, ' '), puti(recs[t][i].b, '\n');
                }
        puts_("end "), puti(first, ' '), puti(last, ' '), puti(nonzero, ' '), puti(lost, ' '), puti(shrunk, ' '), puti(badpage, ' '), puti(ctr, ' ');
        puti(busyops, '\n');
}
