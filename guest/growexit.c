/* growexit.wasm SEED ROUNDS: short-lived threads grow the memory and end at
 * once while the others run.  Output: "g old" lines, "end first last". */
#include "g.h"
static i32 live, res[4096], nres, fin;
static u32 spins;
void thread_main(int tid, int a)
{
        if (a & 1) {
                u64 t = now();
                while (ld(&fin) < (a >> 1))
                        add(&spins, 1);
        } else {
                u32 o = __builtin_wasm_memory_grow(0, 1);
                res[add(&nres, 1)] = o;
                add(&fin, 1);
        }
        add(&live, -1);
        notify(&live, 1);
}
EXP(_start) void _start(void)
{
        g_args();
        u64 s = arg(1);
        u32 R = arg(2), grows = 0;
        u32 first = __builtin_wasm_memory_size(0);
        for (u32 i = 0; i < R; i++) {
                u64 x = rnd(&s);
                u32 n = x % 3 + 1, m = x >> 8 & 3;
                g_reset_stacks();
                for (u32 k = 0; k < m; k++) {
                        add(&live, 1);
                        if (thread_spawn((grows + n) * 2 + 1) < 0)
                                trap();
                }
                for (u32 k = 0; k < n; k++, grows++) {
                        add(&live, 1);
                        if (thread_spawn(0) < 0)
                                trap();
                }
                for (i32 d; (d = ld(&live)) != 0;)
                        if (x >> 16 & 1)
                                wait32(&live, d, 1000000);
        }
        for (i32 i = 0; i < nres; i++)
                puti(res[i], '\n');
        puts_("end "), puti(first, ' '), puti(__builtin_wasm_memory_size(0), '\n');
}
