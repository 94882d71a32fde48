/*
 * LD_PRELOAD: record the peak of live heap bytes in $MEMTRACK_OUT at exit,
 * as "HIGH LOW ...".  HIGH counts what the allocator set aside, LOW what was
 * asked for at least.
 */
#include <fcntl.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);

static atomic_llong live, peak, llive, lpeak, count;

static void
bump(atomic_llong *v, atomic_llong *max, long long d)
{
        long long n = atomic_fetch_add(v, d) + d;
        long long p = atomic_load(max);
        while (n > p && !atomic_compare_exchange_weak(max, &p, n)) {
        }
}

static long long
low(long long n)
{
        return n > 24 ? n - 15 : 0;
}

static void
change(long long before, long long after)
{
        atomic_fetch_add(&count, 1);
        bump(&live, &peak, after - before);
        bump(&llive, &lpeak, low(after) - low(before));
}

void *
malloc(size_t n)
{
        void *p = __libc_malloc(n);
        if (p != NULL) {
                change(0, malloc_usable_size(p));
        }
        return p;
}

void *
calloc(size_t a, size_t b)
{
        void *p = __libc_calloc(a, b);
        if (p != NULL) {
                change(0, malloc_usable_size(p));
        }
        return p;
}

void *
realloc(void *o, size_t n)
{
        long long before = o != NULL ? (long long)malloc_usable_size(o) : 0;
        void *p = __libc_realloc(o, n);
        if (p != NULL) {
                change(before, malloc_usable_size(p));
        } else if (n == 0) {
                change(before, 0);
        }
        return p;
}

void
free(void *p)
{
        if (p != NULL) {
                change(malloc_usable_size(p), 0);
        }
        __libc_free(p);
}

static void __attribute__((destructor)) fini(void)
{
        const char *f = getenv("MEMTRACK_OUT");
        char buf[100];
        int fd;
        if (f == NULL || (fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0666)) < 0) {
                return;
        }
        int n = snprintf(buf, sizeof(buf), "%lld %lld %lld %lld\n", (long long)peak, (long long)lpeak, (long long)live, (long long)count);
        if (write(fd, buf, n) < 0) {
                _exit(99);
        }
        close(fd);
}
