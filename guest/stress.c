/* stress.wasm MODE SEED THREADS ITERS
 * 0 counters of all widths next to each other, old values checked for
 *   uniqueness through a bitmap
 * 1 spin lock around plain data
 * 2 store buffering and message passing with atomics
 * 3 wait/notify mutex around plain data
 * 4 sticky bits: or/and/xor on shared words, each thread owns a bit */
#include "g.h"
static u32 mode, T, N;
static u64 seed;
static i32 done;
static struct {
        u8 g0;
        u8 b[3];
        u16 g1;
        u16 h[3];
        u32 g2;
        u32 w[2];
        u32 g3;
        u64 d[2];
        u64 g4;
} c = { .g0 = 0xa5, .g1 = 0xa5a5, .g2 = 0xa5a5a5a5, .g3 = 0xa5a5a5a5, .g4 = 0xa5a5a5a5a5a5a5a5ull };
static u32 bitmap[(8 * 40000 + 31) / 32];
static u32 dup, bad;
static i32 lock_;
static u64 shared_[16];
static u32 X[2][16], Y[2][16], bothzero, rounds_seen[4];
static u32 bits[2];
static u64 bits64;
static u32 mpdata, mpflag, mpbad;

static void lock(void)
{
        i32 z = 0;
        while (!__atomic_compare_exchange_n(&lock_, &z, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
                z = 0;
}
static void unlock(void) { st(&lock_, 0); }
static void flock_(void)
{
        i32 z = 0;
        if (__atomic_compare_exchange_n(&lock_, &z, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
                return;
        while (__atomic_exchange_n(&lock_, 2, __ATOMIC_SEQ_CST) != 0)
                if (wait32(&lock_, 2, 60000000000ll) == 2)
                        add(&bad, 1000000);
}
static void funlock(void)
{
        if (__atomic_exchange_n(&lock_, 0, __ATOMIC_SEQ_CST) == 2)
                notify(&lock_, 1);
}
static void crit(u64 x)
{
        /* all words move together */
        u64 v = shared_[0];
        for (int i = 1; i < 16; i++)
                if (shared_[i] != v + i)
                        add(&bad, 1);
        for (int i = 0; i < 16; i++)
                shared_[i] = v + 1 + i;
}
static void work(u32 me)
{
        u64 s = seed * 31 + me;
        barrier(T);
        for (u32 i = 0; i < N; i++) {
                u64 x = rnd(&s);
                if (mode == 0) {
                        u32 old = add(&c.w[0], 1);
                        if (old < 8 * 40000 && (__atomic_fetch_or(&bitmap[old / 32], 1u << (old & 31), __ATOMIC_SEQ_CST) >> (old & 31) & 1))
                                add(&dup, 1);
                        add(&c.b[0], 1);
                        add(&c.b[1], 3);
                        __atomic_fetch_sub(&c.b[2], 1, __ATOMIC_SEQ_CST);
                        add(&c.h[0], 1);
                        add(&c.h[1], 257);
                        __atomic_fetch_sub(&c.h[2], 5, __ATOMIC_SEQ_CST);
                        __atomic_fetch_sub(&c.w[1], 65537, __ATOMIC_SEQ_CST);
                        add(&c.d[0], 0x100000001ull);
                        u64 e = ld(&c.d[1]);
                        while (!__atomic_compare_exchange_n(&c.d[1], &e, e * 1 + 3, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
                                ;
                } else if (mode == 1) {
                        lock();
                        crit(x);
                        unlock();
                } else if (mode == 3) {
                        flock_();
                        crit(x);
                        funlock();
                        if ((x & 63) == 0)
                                sched_yield();
                } else if (mode == 4) {
                        u32 b = 1u << me;
                        u32 o = __atomic_fetch_or(&bits[0], b, __ATOMIC_SEQ_CST);
                        if (o & b)
                                add(&bad, 1);
                        o = __atomic_fetch_xor(&bits[1], b, __ATOMIC_SEQ_CST);
                        if (!!(o & b) != (i & 1))
                                add(&bad, 1);
                        o = __atomic_fetch_and(&bits[0], ~b, __ATOMIC_SEQ_CST);
                        if (!(o & b))
                                add(&bad, 1);
                        u64 q = __atomic_fetch_xor(&bits64, (u64)b << 30, __ATOMIC_SEQ_CST);
                        if (!!(q & (u64)b << 30) != (i & 1))
                                add(&bad, 1);
                        u8 o8 = __atomic_fetch_xor((u8 *)&bits64 + 7, 1 << me, __ATOMIC_SEQ_CST);
                        if (!!(o8 & 1 << me) != (i & 1))
                                add(&bad, 1);
                } else if (mode == 2) {
                        /* pairs of threads; slots alternate between rounds */
                        u32 pair = me / 2, *x0 = &X[i & 1][pair], *y0 = &Y[i & 1][pair];
                        static u32 r[16][2];
                        if (pair * 2 + 1 >= T) {
                                barrier(T);
                                barrier(T);
                                continue;
                        }
                        if (me & 1) {
                                st(y0, 1);
                                st(&r[pair][1], ld(x0));
                        } else {
                                st(x0, 1);
                                st(&r[pair][0], ld(y0));
                        }
                        barrier(T);
                        if (!(me & 1)) {
                                u32 a = ld(&r[pair][0]), b = ld(&r[pair][1]);
                                add(&rounds_seen[a * 2 + b], 1);
                                if (!a && !b)
                                        add(&bothzero, 1);
                                st(x0, 0);
                                st(y0, 0);
                        }
                        barrier(T);
                }
        }
        barrier(T);
        /* message passing: plain data published by an atomic flag */
        if (mode == 1 || mode == 3) {
                for (u32 i = 1; i <= N / 4; i++) {
                        if (me == 0) {
                                while (ld(&mpflag) != 2 * i - 2)
                                        sched_yield();
                                mpdata = i * 3;
                                st(&mpflag, 2 * i - 1);
                        } else if (me == 1) {
                                while (ld(&mpflag) != 2 * i - 1)
                                        sched_yield();
                                if (mpdata != i * 3)
                                        mpbad++;
                                st(&mpflag, 2 * i);
                        }
                }
        }
}
void thread_main(int tid, int a)
{
        work(a);
        add(&done, 1);
        notify(&done, 1);
}
EXP(_start) void _start(void)
{
        g_args();
        mode = arg(1), seed = arg(2), T = arg(3), N = arg(4);
        for (int i = 0; i < 16; i++)
                shared_[i] = i;
        for (u32 i = 1; i < T; i++)
                if (thread_spawn(i) < 0)
                        trap();
        work(0);
        for (i32 d; (d = ld(&done)) != T - 1;)
                wait32(&done, d, 10000000);
        puti(c.b[0], ' '), puti(c.b[1], ' '), puti(c.b[2], ' ');
        puti(c.h[0], ' '), puti(c.h[1], ' '), puti(c.h[2], ' ');
        puti(c.w[0], ' '), puti(c.w[1], ' '), puti(c.d[0], ' '), puti(c.d[1], ' ');
        puti(c.g0, ' '), puti(c.g1, ' '), puti(c.g2, ' '), puti(c.g3, ' '), puti(c.g4, '\n');
        u32 n = 0;
        for (u32 i = 0; i < sizeof(bitmap) / 4; i++)
                n += __builtin_popcount(bitmap[i]);
        puti(n, ' '), puti(dup, ' '), puti(bad, ' '), puti(shared_[0], ' '), puti(bothzero, ' '), puti(mpbad, ' '), puti(bits[0], ' '), puti(bits[1], ' '), puti(bits64, '\n');
        for (int i = 0; i < 4; i++)
                puti(rounds_seen[i], ' ');
        puts_("end\n");
}
