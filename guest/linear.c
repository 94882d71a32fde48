/* linear.wasm SEED THREADS ROUNDS OPS STAMP: rounds of random atomic operations
 * of all widths on one 8-byte cell (with guard cells), recorded per thread.
 * Output: the records, then the final value of each round's cell and guards. */
#include "g.h"
struct rec {
        u32 round;
        u8 tid, op, width, off;
        u64 a, b, res, t0, t1;
};
static u32 T, R, K, stamp, nrec;
static u64 seed;
static struct rec *recs; /* [T][R*K] */
static u64 *cells;       /* [R][3] */
static i32 done;
static u64 clk;
#define W(t)                                                                                  \
        case sizeof(t) * 16 + 0: return __atomic_load_n((t *)p, __ATOMIC_SEQ_CST);            \
        case sizeof(t) * 16 + 1: __atomic_store_n((t *)p, (t)a, __ATOMIC_SEQ_CST); return 0;  \
        case sizeof(t) * 16 + 2: return __atomic_fetch_add((t *)p, (t)a, __ATOMIC_SEQ_CST);   \
        case sizeof(t) * 16 + 3: return __atomic_fetch_sub((t *)p, (t)a, __ATOMIC_SEQ_CST);   \
        case sizeof(t) * 16 + 4: return __atomic_fetch_and((t *)p, (t)a, __ATOMIC_SEQ_CST);   \
        case sizeof(t) * 16 + 5: return __atomic_fetch_or((t *)p, (t)a, __ATOMIC_SEQ_CST);    \
        case sizeof(t) * 16 + 6: return __atomic_fetch_xor((t *)p, (t)a, __ATOMIC_SEQ_CST);   \
        case sizeof(t) * 16 + 7: return __atomic_exchange_n((t *)p, (t)a, __ATOMIC_SEQ_CST);  \
        case sizeof(t) * 16 + 8: {                                                            \
                t e = (t)b;                                                                   \
                __atomic_compare_exchange_n((t *)p, &e, (t)a, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
                return e;                                                                     \
        }
static u64 doit(u8 *p, int width, int op, u64 a, u64 b)
{
        switch (width * 16 + op) {
                W(u8) W(u16) W(u32) W(u64)
        }
        trap();
}
static void work(u32 me)
{
        u64 s = seed * 1000003 + me * 7919;
        struct rec *r = recs + (size_t)me * R * K;
        for (u32 i = 0; i < R; i++) {
                u64 *c = cells + 3 * i;
                /* what kind of round is the same for all threads */
                u64 rs = seed * 77 + i;
                u64 kind = rnd(&rs);
                u64 seen = 0;
                barrier(T);
                for (u32 k = 0; k < K; k++, r++) {
                        u64 x = rnd(&s);
                        int w = (kind & 3) == 3 ? 1 << (x & 3) : 1 << (kind >> 4 & 3);
                        int off = (kind & 4) ? 0 : (x >> 4) & (8 - w);
                        int op = (x >> 8) % 9;
                        if ((kind >> 8 & 3) == 0)
                                op = 2 + (x >> 8) % 2;
                        if ((kind >> 8 & 3) == 1)
                                op = (x >> 8) & 1 ? 8 : 0;
                        u64 a = (u64)(i * 64 + me * 16 + k + 1) * 0x0123456789abcdefull, b = x & 16384 ? seen : 0;
                        if (w < 8 && op != 4)
                                a = (x >> 20 & 1) ? a >> 11 : me * 8 + k + 1;
                        if (w < 8) /* cmpxchg compares the whole operand */
                                b &= (1ull << 8 * w) - 1;
                        r->round = i, r->tid = me, r->op = op, r->width = w, r->off = off, r->a = a, r->b = b;
                        if (stamp)
                                r->t0 = add(&clk, 1);
                        r->res = doit((u8 *)&c[1] + off, w, op, a, b);
                        if (stamp)
                                r->t1 = add(&clk, 1);
                        if (op != 1)
                                seen = r->res;
                        else
                                seen = a;
                }
        }
}
void thread_main(int tid, int arg)
{
        work(arg);
        add(&done, 1);
        notify(&done, 1);
}
EXP(_start) void _start(void)
{
        g_args();
        seed = arg(1), T = arg(2), R = arg(3), K = arg(4), stamp = arg(5);
        nrec = T * R * K;
        size_t need = (size_t)nrec * sizeof(struct rec) + (size_t)R * 24;
        size_t pg = __builtin_wasm_memory_grow(0, (need + 65535) / 65536);
        if (pg == (size_t)-1)
                trap();
        recs = (void *)(pg * 65536);
        cells = (void *)(recs + nrec);
        for (u32 i = 0; i < R; i++) {
                u64 s = seed + i;
                cells[3 * i] = cells[3 * i + 2] = 0x5a5a5a5a5a5a5a5aull;
                cells[3 * i + 1] = i & 1 ? rnd(&s) : 0;
        }
        put(cells, (size_t)R * 24);
        for (u32 i = 1; i < T; i++)
                if (thread_spawn(i) < 0)
                        trap();
        work(0);
        while (ld(&done) != T - 1) {
                int d = ld(&done);
                if (d != T - 1)
                        wait32(&done, d, 10000000);
        }
        put(recs, (size_t)nrec * sizeof(struct rec));
        put(cells, (size_t)R * 24);
}
