/*
 * Load every module of a batch with a fresh memory context.
 *
 * batch file: repeated (u32 length little endian, bytes)
 * output: one line "index ret message" per module
 *
 * usage: loader FILE [first]
 */
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <toywasm/load_context.h>
#include <toywasm/mem.h>
#include <toywasm/module.h>
#include <toywasm/name.h>
#include <toywasm/report.h>
#include <toywasm/type.h>

static void
names(const struct module *m)
{
        struct nametable t;
        struct name n;
        nametable_init(&t);
        uint32_t i;
        uint32_t nf = m->nimportedfuncs + m->nfuncs;
        nametable_lookup_module(&t, m, &n);
        volatile char sink = 0;
        for (i = 0; i < nf && i < 64; i++) {
                nametable_lookup_func(&t, m, i, &n);
                for (uint32_t k = 0; k < n.nbytes; k++) {
                        sink ^= n.data[k];
                }
        }
        nametable_lookup_global(&t, m, 0, &n);
        nametable_lookup_data(&t, m, 0, &n);
        nametable_clear(&t);
}

static int
load(const uint8_t *p, uint32_t n, char *msg, size_t msgsz)
{
        struct mem_context mctx;
        mem_context_init(&mctx);
#if defined(TOYWASM_ENABLE_HEAP_TRACKING)
        if (mem_context_setlimit(&mctx, 1024 * 1024 * 1024)) {
                abort();
        }
#endif
        /* an exact-size copy so that overreads are seen */
        uint8_t *b = malloc(n ? n : 1);
        memcpy(b, p, n);
        struct load_context ctx;
        load_context_init(&ctx, &mctx);
        struct module *m = NULL;
        int ret = module_create(&m, b, b + n, &ctx);
        snprintf(msg, msgsz, "%s", report_getmessage(&ctx.report));
        load_context_clear(&ctx);
        if (ret == 0) {
                names(m);
                module_destroy(&mctx, m);
        }
        /* asserts that everything has been freed */
        mem_context_clear(&mctx);
        free(b);
        return ret;
}

int
main(int argc, char **argv)
{
        FILE *f = fopen(argv[1], "rb");
        if (f == NULL) {
                return 2;
        }
        uint32_t first = argc > 2 ? atoi(argv[2]) : 0;
        uint32_t i;
        setvbuf(stdout, NULL, _IONBF, 0);
        for (i = 0;; i++) {
                uint8_t h[4];
                if (fread(h, 4, 1, f) != 1) {
                        break;
                }
                uint32_t n = h[0] | h[1] << 8 | h[2] << 16 | (uint32_t)h[3] << 24;
                uint8_t *p = malloc(n ? n : 1);
                if (n && fread(p, n, 1, f) != 1) {
                        return 2;
                }
                if (i >= first) {
                        char msg[200], msg2[200];
                        int r1 = load(p, n, msg, sizeof(msg));
                        int r2 = load(p, n, msg2, sizeof(msg2));
                        for (char *q = msg; *q; q++) {
                                if (*q == '\n') {
                                        *q = ' ';
                                }
                        }
                        if ((r1 == 0) != (r2 == 0)) {
                                printf("%" PRIu32 " -999 second load returned %d after %d\n", i, r2, r1);
                        } else {
                                printf("%" PRIu32 " %d %s\n", i, r1, msg);
                        }
                }
                free(p);
        }
        return 0;
}
