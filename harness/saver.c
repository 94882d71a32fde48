/*
 * Load every module of a batch, write it out, load and write out that again.
 *
 * batch file: repeated (u32 length little endian, bytes)
 * output: one line "index load-error save-error reload-error resave-error"
 * per module; the saved modules are DIR/index.1 and DIR/index.2
 *
 * usage: saver FILE first DIR [nojump]
 */
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <toywasm/load_context.h>
#include <toywasm/mem.h>
#include <toywasm/module.h>
#include <toywasm/module_writer.h>
#include <toywasm/type.h>

static int nojump;

static int
load_and_save(const uint8_t *p, size_t n, const char *fn, int *save)
{
        struct mem_context mctx;
        mem_context_init(&mctx);
#if defined(TOYWASM_ENABLE_HEAP_TRACKING)
        if (mem_context_setlimit(&mctx, 1024 * 1024 * 1024)) {
                abort();
        }
#endif
        uint8_t *b = malloc(n ? n : 1);
        memcpy(b, p, n);
        struct load_context ctx;
        load_context_init(&ctx, &mctx);
        if (nojump) {
                ctx.options.generate_jump_table = false;
        }
        struct module *m = NULL;
        int ret = module_create(&m, b, b + n, &ctx);
        load_context_clear(&ctx);
        if (ret == 0) {
                *save = module_write(fn, m);
                module_destroy(&mctx, m);
        }
        mem_context_clear(&mctx);
        free(b);
        return ret;
}

static uint8_t *
slurp(const char *fn, size_t *np)
{
        FILE *f = fopen(fn, "rb");
        if (f == NULL) {
                return NULL;
        }
        fseek(f, 0, SEEK_END);
        *np = ftell(f);
        rewind(f);
        uint8_t *b = malloc(*np ? *np : 1);
        if (*np && fread(b, *np, 1, f) != 1) {
                abort();
        }
        fclose(f);
        return b;
}

int
main(int argc, char **argv)
{
        FILE *f = fopen(argv[1], "rb");
        if (f == NULL || argc < 4) {
                return 2;
        }
        uint32_t first = atoi(argv[2]);
        nojump = argc > 4;
        setvbuf(stdout, NULL, _IONBF, 0);
        for (uint32_t i = 0;; i++) {
                uint8_t h[4];
                if (fread(h, 4, 1, f) != 1) {
                        break;
                }
                uint32_t n = h[0] | h[1] << 8 | h[2] << 16 | (uint32_t)h[3] << 24;
                uint8_t *p = malloc(n ? n : 1);
                if (n && fread(p, n, 1, f) != 1) {
                        return 2;
                }
                if (i >= first) {
                        char f1[4096], f2[4096];
                        int l1, s1 = -1, l2 = -1, s2 = -1;
                        snprintf(f1, sizeof(f1), "%s/%" PRIu32 ".1", argv[3], i);
                        snprintf(f2, sizeof(f2), "%s/%" PRIu32 ".2", argv[3], i);
                        l1 = load_and_save(p, n, f1, &s1);
                        if (l1 == 0 && s1 == 0) {
                                size_t n1;
                                uint8_t *b1 = slurp(f1, &n1);
                                if (b1 != NULL) {
                                        l2 = load_and_save(b1, n1, f2, &s2);
                                        free(b1);
                                }
                        }
                        printf("%" PRIu32 " %d %d %d %d\n", i, l1, s1, l2, s2);
                }
                free(p);
        }
        return 0;
}
