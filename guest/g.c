#include "g.h"
void *memset(void *p, int c, size_t n) { __builtin_memset(p, c, n); return p; }
void *memcpy(void *p, const void *q, size_t n) { __builtin_memcpy(p, q, n); return p; }

/* each thread is an instance of its own: the stack pointer is private */
u8 g_stacks[MAXT][STACK] __attribute__((aligned(16)));
i32 g_stack_next;
void g_reset_stacks(void) { st(&g_stack_next, 0); }

static char argbuf[4096];
static char *argv_[64];
size_t argc_;
void g_args(void)
{
        size_t sz;
        if (args_sizes_get(&argc_, &sz) || argc_ > 64 || sz > sizeof(argbuf))
                trap();
        args_get(argv_, argbuf);
}
u64 arg(unsigned i)
{
        u64 v = 0;
        if (i >= argc_)
                trap();
        for (const char *p = argv_[i]; *p; p++)
                v = v * 10 + (*p - '0');
        return v;
}
const char *argstr(unsigned i) { return argv_[i]; }
void put(const void *p, size_t n)
{
        while (n) {
                struct iov v = { p, n };
                size_t w;
                int e = fd_write(1, &v, 1, &w);
                if (e == 6)
                        continue;
                if (e)
                        trap();
                p = (const char *)p + w;
                n -= w;
        }
}
void puti(u64 v, char end)
{
        char b[24];
        int i = 24;
        b[--i] = end;
        do {
                b[--i] = '0' + v % 10;
                v /= 10;
        } while (v);
        put(b + i, 24 - i);
}
void puts_(const char *s)
{
        size_t n = 0;
        while (s[n])
                n++;
        put(s, n);
}
u64 now(void)
{
        u64 t;
        if (clock_time_get(1, 1, &t))
                trap();
        return t;
}
u64 rnd(u64 *s)
{
        u64 z = (*s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
}
/* reusable barrier; spins a little, then waits */
i32 g_bar_n, g_bar_gen;
void barrier(int n)
{
        i32 gen = ld(&g_bar_gen);
        if (add(&g_bar_n, 1) == n - 1) {
                st(&g_bar_n, 0);
                add(&g_bar_gen, 1);
                notify(&g_bar_gen, 0xffffffffu);
                return;
        }
        for (int i = 0; i < 2000; i++)
                if (ld(&g_bar_gen) != gen)
                        return;
        while (ld(&g_bar_gen) == gen)
                wait32(&g_bar_gen, gen, 5000000);
}
