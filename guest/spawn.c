/* spawn.wasm
 *   tree SEED WAVES MAX      threads spawn threads; every spawn and start is recorded
 *   end SEED T ACTION WHO CODE DELAY_US   T threads are busy in many ways when
 *                            thread WHO does ACTION
 *   full N                   keeps spawning waiting threads until it fails, ends
 *                            them, and does it again */
#include "g.h"
struct rec {
        u32 kind;
        i32 tid, arg;
        u32 pad;
        u64 t0, t1;
};
#define NR 60000
static struct rec recs[NR];
static u32 nrec, nextarg = 1;
static u64 clk;
static i32 live, gate, mode;
static u32 maxlive, budget;
static u64 seed;
struct sub {
        u64 userdata;
        u8 tag, pad[7];
        u32 id, pad2;
        u64 timeout, precision;
        u16 flags, pad3[3];
};
IMP(poll_oneoff) int poll_oneoff(const struct sub *, void *, size_t, size_t *);
static struct rec *newrec(void)
{
        u32 i = add(&nrec, 1);
        if (i >= NR)
                trap();
        return &recs[i];
}
static void dosleep(u64 ns)
{
        struct sub s = { 0 };
        u8 ev[32];
        size_t n;
        s.id = 1;
        s.timeout = ns;
        poll_oneoff(&s, ev, 1, &n);
}
static void spawn1(void)
{
        struct rec *r = newrec();
        r->arg = add(&nextarg, 1);
        r->kind = 1;
        add(&live, 1);
        r->t0 = add(&clk, 1);
        r->tid = thread_spawn(r->arg * 2654435761u);
        r->t1 = add(&clk, 1);
        if (r->tid < 0)
                add(&live, -1);
}
static void tree(i32 tid, i32 a)
{
        struct rec *r = newrec();
        u64 s = seed ^ (u32)a;
        u64 x = rnd(&s);
        r->kind = 2;
        r->tid = tid;
        r->arg = a;
        r->t0 = add(&clk, 1);
        u32 kids = x & 3;
        while (kids--) {
                if ((i32)add(&budget, -1) <= 0)
                        break;
                spawn1();
                if (x >> 8 & 1)
                        for (volatile u32 i = 0; i < (x >> 32 & 1023); i++)
                                ;
                if (x >> 9 & 1)
                        sched_yield();
        }
        if ((x >> 10 & 15) == 0)
                dosleep(x >> 45);
        r->t1 = add(&clk, 1);
        add(&live, -1);
        notify(&live, 1);
}
static void tree_main(void)
{
        u32 waves = arg(3);
        for (u32 w = 0; w < waves; w++) {
                g_reset_stacks();
                budget = arg(4);
                while ((i32)ld(&budget) > 0) {
                        add(&budget, -1);
                        spawn1();
                        if ((w & 3) == 0)
                                for (i32 d; (d = ld(&live)) != 0;)
                                        wait32(&live, d, 1000000);
                }
                for (i32 d; (d = ld(&live)) != 0;)
                        wait32(&live, d, 1000000);
        }
        put(recs, nrec * sizeof(*recs));
}
/* ---- */
static u32 T, action, who, code;
static u64 delay;
static i32 ready, retd, never;
static u64 spins[64];
static volatile u32 zero;
static u32 deep(u32 n) { return n == 0 ? 0 : 1 + deep(n - 1) + (u32)ld(&spins[n & 63]); }
static void act(u32 me)
{
        /* everybody should be at it */
        while (ld(&ready) != T)
                sched_yield();
        if (delay < 1000)
                for (volatile u32 i = 0; i < delay; i++)
                        ;
        else
                dosleep(delay * 1000);
        switch (action) {
        case 0: trap();
        case 1:
        case 5: proc_exit(code + (me != who));
        case 3: zero = 12345 / (i32)zero; break;
        case 4: *(volatile u32 *)0xfffffff0u = 1; break;
        case 7: {
                void (*volatile f)(void) = (void (*)(void))(size_t)0x7fff0000;
                f();
        }
        }
}
static void behave(u32 me)
{
        u64 s = seed * 131 + me;
        u64 x = rnd(&s);
        static char buf[64];
        struct iov v = { buf, sizeof(buf) };
        size_t n;
        for (;;) {
                add(&spins[me], 1);
                switch (x % 9) {
                case 0: for (;;) add(&spins[me], 1);
                case 1: for (;;) wait32(&never, 0, -1);
                case 2: for (;;) dosleep(1000000000000ull);
                case 3: fd_read(0, &v, 1, &n); break;
                case 4: __builtin_wasm_memory_grow(0, add(&never, 0)); dosleep(100000); break;
                case 5: deep(200); break;
                case 6: for (;;) wait64(&never, 0, 3000000); break;
                case 7: sched_yield(); break;
                case 8:
                        if (action == 6 || me == 0)
                                for (;;) add(&spins[me], 1);
                        return;
                }
        }
}
static void endthread(u32 me)
{
        add(&ready, 1);
        if (me == who || (action == 5 && me == (who + 1) % T)) {
                if (action == 6) {
                        /* just return: nobody else is affected */
                        if (me != 0) {
                                st(&retd, 1);
                                return;
                        }
                        trap();
                }
                act(me);
                return;
        }
        if (action == 6 && me == 0) {
                u32 ok = 1;
                while (!ld(&retd))
                        sched_yield();
                dosleep(delay * 1000);
                for (u32 i = 1; i < T; i++)
                        if (i != who) {
                                u64 s = seed * 131 + i;
                                u32 b = rnd(&s) % 9;
                                if (b != 0 && b != 5 && b != 7 && b != 8)
                                        continue;
                                u64 v = ld(&spins[i]);
                                u64 t = now();
                                while (ld(&spins[i]) == v)
                                        if (now() > t + 20000000000ull) {
                                                ok = 0;
                                                break;
                                        }
                        }
                proc_exit(ok ? code : 111);
        }
        behave(me);
}
/* ---- */
static i32 nfull;
static void full(u32 n)
{
        for (u32 rep = 0; rep < 3; rep++) {
                u32 ok = 0, bad = 0;
                g_reset_stacks();
                st(&gate, 0);
                st(&nfull, 0);
                for (u32 i = 0; i < n; i++) {
                        add(&live, 1);
                        i32 r = thread_spawn(i);
                        if (r < 0) {
                                bad++;
                                add(&live, -1);
                                if (bad > 4)
                                        break;
                        } else if (r == 0 || r > 0x1fffffff) {
                                trap();
                        } else {
                                ok++;
                        }
                }
                st(&gate, 1);
                notify(&gate, 0xffffffff);
                for (i32 d; (d = ld(&live)) != 0;)
                        wait32(&live, d, 1000000);
                puti(ok, ' '), puti(bad, ' '), puti(ld(&nfull), '\n');
                /* threads take a moment to go away after our last word */
                dosleep(50000000);
        }
        puts_("end\n");
}
void thread_main(int tid, int a)
{
        if (mode == 0) {
                tree(tid, a);
        } else if (mode == 1) {
                endthread(a);
        } else {
                add(&nfull, 1);
                while (!ld(&gate))
                        wait32(&gate, 0, -1);
                add(&live, -1);
                notify(&live, 1);
        }
}
EXP(_start) void _start(void)
{
        g_args();
        switch (argstr(1)[0]) {
        case 't':
                seed = arg(2);
                tree_main();
                return;
        case 'e':
                mode = 1;
                seed = arg(2), T = arg(3), action = arg(4), who = arg(5), code = arg(6), delay = arg(7);
                for (u32 i = 1; i < T; i++)
                        if (thread_spawn(i) < 0)
                                trap();
                if (action == 2 && who == 0) {
                        add(&ready, 1);
                        act(0);
                        return;
                }
                endthread(0);
                for (;;)
                        add(&spins[0], 1);
        case 'f':
                mode = 2;
                full(arg(2));
                return;
        }
}
