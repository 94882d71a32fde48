/*
 * Linked into the command with --wrap: fails the K-th allocation made by
 * toywasm's own code (VP_OOM=K: alone; VP_OOM=K+: all later ones too).  The
 * number of allocations goes to the file VP_OOM_OUT, with the numbers of failed
 * ones and of descriptors still open at the end.
 */
#include <fcntl.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t n);
void *__real_realloc(void *p, size_t n);

static long at;
static int all;
static atomic_long count;
static atomic_long failed;

__attribute__((constructor)) static void
init(void)
{
        const char *s = getenv("VP_OOM");
        if (s != NULL) {
                at = atol(s);
                all = strchr(s, '+') != NULL;
        }
}

__attribute__((destructor)) static void
fini(void)
{
        const char *s = getenv("VP_OOM_OUT");
        if (s == NULL) {
                return;
        }
        int left = 0;
        int i;
        for (i = 3; i < 256; i++) {
                left += fcntl(i, F_GETFD) >= 0;
        }
        int fd = open(s, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        char b[64];
        int n = snprintf(b, sizeof(b), "%ld %ld %d\n", (long)count, (long)failed, left);
        if (fd < 0 || write(fd, b, n) != n) {
                abort();
        }
        close(fd);
}

static int
fail(void)
{
        long n = ++count;
        if (at != 0 && (n == at || (all && n > at))) {
                failed++;
                return 1;
        }
        return 0;
}

void *
__wrap_malloc(size_t n)
{
        return fail() ? NULL : __real_malloc(n);
}

void *
__wrap_calloc(size_t a, size_t n)
{
        return fail() ? NULL : __real_calloc(a, n);
}

void *
__wrap_realloc(void *p, size_t n)
{
        return fail() ? NULL : __real_realloc(p, n);
}
