/*
 * Scripted embedder: loads, links and calls modules through the library API,
 * optionally interrupting execution or failing allocations.
 *
 * usage: runner SCRIPT FIRST [key=value...]
 *
 * script lines:
 *   case
 *   load NAME HEX
 *   register NAME AS
 *   invoke NAME FUNCNAMEHEX [type:value...]
 *   global NAME NAMEHEX
 *   oom K A        from here count allocations and fail the K-th (0: none),
 *                  and with A all the following ones
 *   oomoff 0 0     stop that; prints "O <counted> <failed>"
 *   end
 * output: one line per step:
 *   "S" ok | "I" invalid | "U" unlinkable | "T id msg" trap | "X" timed out |
 *   "E errno" other error | "N" no such thing | "R v:t v:t..." results
 * "C n" ends case n.
 *
 * options:
 *   alarm=MS       stop a call after MS milliseconds ("X")
 *   intr=SEED      interrupt at random points and continue
 *   tick=MS        raise the interrupt flag every MS milliseconds, lower it
 *                  when an interrupt is delivered, and continue
 *   mem=BYTES      limit of the memory context
 *   frames=N cells=N   limits of an execution
 *   wasi=MS        (built with -DWASI) provide WASI to the modules; the memory
 *                  used is that of the module loaded last.  Descriptor 0 is a
 *                  pipe which gets "a", "b", ... "j", MS milliseconds apart,
 *                  and then ends; 1 is the null device.
 */
#include <errno.h>
#include <inttypes.h>
#include <signal.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>

#include <toywasm/exec_context.h>
#include <toywasm/instance.h>
#include <toywasm/load_context.h>
#include <toywasm/mem.h>
#include <toywasm/module.h>
#include <toywasm/report.h>
#include <toywasm/type.h>
#include <toywasm/xlog.h>
#if defined(WASI)
#include <fcntl.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>

#include <toywasm/wasi.h>

static struct wasi_instance *wasi;
static struct import_object *wasi_imports;
static long opt_wasi = -1;
static int pipefd[2];
static int nullfd;
static int have_writer;
static pthread_t writer;

static void *
feed(void *arg)
{
        char c;
        for (c = 'a'; c <= 'j'; c++) {
                struct timespec ts = {.tv_sec = opt_wasi / 1000, .tv_nsec = opt_wasi % 1000 * 1000000};
                while (nanosleep(&ts, &ts) != 0) {
                }
                if (write(pipefd[1], &c, 1) != 1) {
                        break;
                }
        }
        close(pipefd[1]);
        return NULL;
}
#endif

#if defined(OOM)
static long oom_at = -1;  /* remaining allocations until the failure */
static int oom_all;
static int oom_on;
static int oom_armed;
static long oom_count;
static long oom_failed;

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);

static int
oom(void)
{
        if (!oom_on || !oom_armed) {
                return 0;
        }
        oom_count++;
        if (oom_at > 0 && (oom_count == oom_at || (oom_all && oom_count > oom_at))) {
                oom_failed++;
                return 1;
        }
        return 0;
}
void *
__wrap_malloc(size_t n)
{
        if (oom()) {
                errno = ENOMEM;
                return NULL;
        }
        return __real_malloc(n);
}
void *
__wrap_calloc(size_t a, size_t n)
{
        if (oom()) {
                errno = ENOMEM;
                return NULL;
        }
        return __real_calloc(a, n);
}
void *
__wrap_realloc(void *p, size_t n)
{
        if (oom()) {
                errno = ENOMEM;
                return NULL;
        }
        return __real_realloc(p, n);
}
#define OOM_ON(x) (oom_on = (x))
#else
#define OOM_ON(x) ((void)0)
#endif

#define MAXMOD 32
struct mod {
        char name[64];
        uint8_t *buf;
        struct module *m;
        struct instance *inst;
};
static struct mod mods[MAXMOD];
static int nmods;
static struct import_object *imports;
static struct name *regnames[64];
static int nreg;
static struct mem_context mctx;

static long opt_alarm = 0;
static long opt_intr = 0;
static long opt_max = 0;
static long opt_tick = 0;
static long opt_mem = 0;
static long opt_frames = 0;
static long opt_cells = 0;
static uint64_t rnd_state;
static atomic_uint flag;
static unsigned long nintr;

static void
onalarm(int s)
{
        flag = 1;
}

static uint32_t
rnd(void)
{
        rnd_state = rnd_state * 6364136223846793005ULL + 1442695040888963407ULL;
        return (uint32_t)(rnd_state >> 33);
}

static uint8_t *
unhex(const char *s, size_t *np)
{
        size_t n = strlen(s) / 2;
        uint8_t *b = malloc(n + !n);
        size_t i;
        for (i = 0; i < n; i++) {
                unsigned int x;
                sscanf(s + 2 * i, "%2x", &x);
                b[i] = (uint8_t)x;
        }
        *np = n;
        return b;
}

/* the common loop: returns 0, ETOYWASMTRAP, an errno or -100 for a timeout */
static int
drive(struct exec_context *ctx, int (*start)(struct exec_context *, void *),
      void *arg)
{
        static const atomic_uint one = 1;
        int ret;
        if (opt_frames) {
                ctx->options.max_frames = (uint32_t)opt_frames;
        }
        if (opt_cells) {
                ctx->options.max_stackcells = (uint32_t)opt_cells;
        }
        if (opt_tick) {
                flag = 0;
                ctx->intrp = &flag;
#if !defined(WASI) /* there it is a thread, as signals end system calls */
                struct itimerval it = {.it_value = {0, opt_tick * 1000}, .it_interval = {0, opt_tick * 1000}};
                setitimer(ITIMER_REAL, &it, NULL);
#endif
        } else if (opt_intr) {
                ctx->intrp = &one;
                /* an interval of 1 makes no progress while interrupted */
                ctx->check_interval = 2 + rnd() % 3;
        } else if (opt_alarm) {
                flag = 0;
                ctx->intrp = &flag;
                struct itimerval it = {.it_value = {opt_alarm / 1000, opt_alarm % 1000 * 1000}};
                setitimer(ITIMER_REAL, &it, NULL);
        }
        OOM_ON(1);
        ret = start(ctx, arg);
        unsigned long n = 0;
        while (IS_RESTARTABLE(ret)) {
                if (ret == ETOYWASMUSERINTERRUPT) {
                        nintr++;
                        n++;
                        if (opt_tick) {
                                flag = 0;
                        } else if (!opt_intr || (opt_max && n > (unsigned long)opt_max)) {
                                ret = -100;
                                break;
                        }
                }
                if (opt_intr) {
                        static const uint32_t iv[] = {1, 2, 2, 2, 3, 5, 17, 100};
                        ctx->check_interval = iv[rnd() % 8];
                }
                ret = instance_execute_handle_restart_once(ctx, ret);
        }
        OOM_ON(0);
        if (opt_tick || (opt_alarm && !opt_intr)) {
                struct itimerval it = {.it_value = {0, 0}};
                setitimer(ITIMER_REAL, &it, NULL);
        }
        return ret;
}

static void
outcome(struct exec_context *ctx, int ret)
{
        if (ret == ETOYWASMTRAP) {
                const char *msg = report_getmessage(ctx->report);
                printf("T %u %s\n", (unsigned)ctx->trap.trapid, msg ? msg : "");
        } else if (ret == -100) {
                printf("X\n");
        } else {
                printf("E %d\n", ret);
        }
}

static int
start_init(struct exec_context *ctx, void *arg)
{
        return instance_execute_init(ctx);
}

static void
do_load(const char *name, const char *hex)
{
        if (nmods == MAXMOD) {
                abort();
        }
        struct mod *mod = &mods[nmods];
        memset(mod, 0, sizeof(*mod));
        snprintf(mod->name, sizeof(mod->name), "%s", name);
        size_t n;
        mod->buf = unhex(hex, &n);
        struct load_context lctx;
        load_context_init(&lctx, &mctx);
        OOM_ON(1);
        int ret = module_create(&mod->m, mod->buf, mod->buf + n, &lctx);
        OOM_ON(0);
        load_context_clear(&lctx);
        if (ret != 0) {
                printf("I %d\n", ret);
                free(mod->buf);
                return;
        }
        struct report rep;
        report_init(&rep);
        OOM_ON(1);
        ret = instance_create_no_init(&mctx, mod->m, &mod->inst, imports, &rep);
        OOM_ON(0);
        report_clear(&rep);
        if (ret != 0) {
                printf("U %d\n", ret);
                module_destroy(&mctx, mod->m);
                free(mod->buf);
                return;
        }
        nmods++;
#if defined(WASI)
        if (wasi != NULL && mod->m->nmems + mod->m->nimportedmems > 0) {
                wasi_instance_set_memory(wasi, VEC_ELEM(mod->inst->mems, 0));
        }
#endif
        struct exec_context ctx;
        exec_context_init(&ctx, mod->inst, &mctx);
        ret = drive(&ctx, start_init, NULL);
        if (ret == 0) {
                printf("S\n");
        } else {
                outcome(&ctx, ret);
        }
        exec_context_clear(&ctx);
}

static struct mod *
find(const char *name)
{
        int i;
        for (i = nmods - 1; i >= 0; i--) {
                if (!strcmp(mods[i].name, name)) {
                        return &mods[i];
                }
        }
        return NULL;
}

static void
do_register(const char *name, const char *as)
{
        struct mod *mod = find(name);
        if (mod == NULL || nreg == 64) {
                printf("N\n");
                return;
        }
        struct name *nm = malloc(sizeof(*nm));
        char *s = malloc(strlen(as) + 1);
        strcpy(s, as);
        nm->data = s;
        nm->nbytes = (uint32_t)strlen(s);
        regnames[nreg++] = nm;
        struct import_object *im;
        OOM_ON(1);
        int ret = import_object_create_for_exports(&mctx, mod->inst, nm, &im);
        OOM_ON(0);
        if (ret != 0) {
                printf("E %d\n", ret);
                return;
        }
        im->next = imports;
        imports = im;
        printf("S\n");
}

static void
print_val(const struct val *v, enum valtype t)
{
        switch (t) {
        case TYPE_i32:
        case TYPE_f32:
                printf(" %" PRIu32 ":%s", v->u.i32, t == TYPE_i32 ? "i32" : "f32");
                break;
        case TYPE_i64:
        case TYPE_f64:
                printf(" %" PRIu64 ":%s", v->u.i64, t == TYPE_i64 ? "i64" : "f64");
                break;
        case TYPE_v128: {
                int i;
                printf(" ");
                for (i = 15; i >= 0; i--) {
                        printf("%02x", ((const uint8_t *)&v->u)[i]);
                }
                printf(":v128");
                break;
        }
        case TYPE_funcref:
                printf(" %s:funcref", v->u.funcref.func ? "nonnull" : "null");
                break;
        case TYPE_externref:
                if (v->u.externref == NULL) {
                        printf(" null:externref");
                } else {
                        printf(" %" PRIuPTR ":externref", (uintptr_t)v->u.externref);
                }
                break;
        default:
                printf(" ?:exnref");
        }
}

struct call {
        uint32_t funcidx;
        const struct functype *ft;
};

static int
start_call(struct exec_context *ctx, void *arg)
{
        struct call *c = arg;
        return instance_execute_func(ctx, c->funcidx, &c->ft->parameter, &c->ft->result);
}

static void
do_invoke(const char *name, const char *func, char *args)
{
        struct mod *mod = find(name);
        if (mod == NULL) {
                printf("N\n");
                return;
        }
        size_t n;
        uint8_t *fn = unhex(func, &n);
        struct name nm = {.data = (const char *)fn, .nbytes = (uint32_t)n};
        struct call c;
        int ret = module_find_export(mod->m, &nm, EXTERNTYPE_FUNC, &c.funcidx);
        free(fn);
        if (ret != 0) {
                printf("N\n");
                return;
        }
        c.ft = module_functype(mod->m, c.funcidx);
        uint32_t i;
        struct val *a = calloc(c.ft->parameter.ntypes + 1, sizeof(*a));
        struct val *r = calloc(c.ft->result.ntypes + 1, sizeof(*r));
        for (i = 0; i < c.ft->parameter.ntypes; i++) {
                char *tok = strtok(args, " ");
                args = NULL;
                if (tok == NULL) {
                        break;
                }
                const char *v = strchr(tok, ':') + 1;
                enum valtype t = c.ft->parameter.types[i];
                if (t == TYPE_v128) {
                        size_t k, vn;
                        uint8_t *b = unhex(v, &vn);
                        for (k = 0; k < 16; k++) {
                                ((uint8_t *)&a[i].u)[k] = k < vn ? b[vn - 1 - k] : 0;
                        }
                        free(b);
                } else if (t == TYPE_i32 || t == TYPE_f32) {
                        a[i].u.i32 = (uint32_t)strtoull(v, NULL, 0);
                } else if (t == TYPE_i64 || t == TYPE_f64) {
                        a[i].u.i64 = strtoull(v, NULL, 0);
                } else if (t == TYPE_externref) {
                        a[i].u.externref = (void *)(uintptr_t)strtoull(v, NULL, 0);
                } /* else null */
        }
        struct exec_context ctx;
        exec_context_init(&ctx, mod->inst, &mctx);
        OOM_ON(1);
        ret = exec_push_vals(&ctx, &c.ft->parameter, a);
        OOM_ON(0);
        if (ret == 0) {
                ret = drive(&ctx, start_call, &c);
        }
        if (ret == 0) {
                exec_pop_vals(&ctx, &c.ft->result, r);
                printf("R");
                for (i = 0; i < c.ft->result.ntypes; i++) {
                        print_val(&r[i], c.ft->result.types[i]);
                }
                printf("\n");
        } else {
                outcome(&ctx, ret);
        }
        exec_context_clear(&ctx);
        free(a);
        free(r);
}

static void
do_global(const char *name, const char *gn)
{
        struct mod *mod = find(name);
        if (mod == NULL) {
                printf("N\n");
                return;
        }
        size_t n;
        uint8_t *fn = unhex(gn, &n);
        struct name nm = {.data = (const char *)fn, .nbytes = (uint32_t)n};
        uint32_t idx;
        int ret = module_find_export(mod->m, &nm, EXTERNTYPE_GLOBAL, &idx);
        free(fn);
        if (ret != 0) {
                printf("N\n");
                return;
        }
        const struct globalinst *g = VEC_ELEM(mod->inst->globals, idx);
        printf("R");
        print_val(&g->val, g->type->t);
        printf("\n");
}

#if defined(WASI)
static void *
ticker(void *arg)
{
        while (1) {
                struct timespec ts = {.tv_nsec = opt_tick * 1000000};
                nanosleep(&ts, NULL);
                flag = 1;
        }
        return NULL;
}

static void
wasi_start(void)
{
        static pthread_t tt;
        static int started;
        if (opt_tick && !started) {
                started = 1;
                if (pthread_create(&tt, NULL, ticker, NULL)) {
                        abort();
                }
        }
        signal(SIGPIPE, SIG_IGN);
        if (pipe(pipefd) != 0) {
                abort();
        }
        nullfd = open("/dev/null", O_WRONLY);
        sigset_t all, old;
        sigfillset(&all);
        pthread_sigmask(SIG_BLOCK, &all, &old);
        if (pthread_create(&writer, NULL, feed, NULL)) {
                abort();
        }
        pthread_sigmask(SIG_SETMASK, &old, NULL);
        have_writer = 1;
        OOM_ON(1);
        int ret = wasi_instance_create(&mctx, &wasi);
        if (ret == 0) {
                ret = wasi_instance_add_hostfd(wasi, 0, pipefd[0]);
        }
        if (ret == 0) {
                ret = wasi_instance_add_hostfd(wasi, 1, nullfd);
        }
        if (ret == 0) {
                ret = import_object_create_for_wasi(&mctx, wasi, &wasi_imports);
        }
        OOM_ON(0);
        if (ret != 0) {
                printf("E %d\n", ret);
                exit(2);
        }
        wasi_imports->next = NULL;
        imports = wasi_imports;
}

static void
wasi_end(void)
{
        wasi_instance_destroy(wasi);
        wasi = NULL;
        close(pipefd[0]);
        close(nullfd);
        pthread_join(writer, NULL);
}
#endif

static void
reset(void)
{
        while (imports != NULL) {
                struct import_object *im = imports;
                imports = im->next;
                import_object_destroy(&mctx, im);
        }
        while (nmods > 0) {
                struct mod *m = &mods[--nmods];
                instance_destroy(m->inst);
                module_destroy(&mctx, m->m);
                free(m->buf);
        }
        while (nreg > 0) {
                struct name *nm = regnames[--nreg];
                free((void *)nm->data);
                free(nm);
        }
#if defined(WASI)
        if (wasi != NULL) {
                wasi_end();
        }
#endif
        mem_context_clear(&mctx);
}

int
main(int argc, char **argv)
{
        FILE *f = fopen(argv[1], "r");
        if (f == NULL || argc < 3) {
                return 2;
        }
        long first = atol(argv[2]);
        int i;
        uint64_t seed = 0;
        for (i = 3; i < argc; i++) {
                char *v = strchr(argv[i], '=');
                if (v == NULL) {
                        return 2;
                }
                long x = atol(v + 1);
                if (!strncmp(argv[i], "alarm=", 6)) {
                        opt_alarm = x;
                } else if (!strncmp(argv[i], "intr=", 5)) {
                        opt_intr = 1;
                        seed = (uint64_t)x;
                } else if (!strncmp(argv[i], "max=", 4)) {
                        opt_max = x;
                } else if (!strncmp(argv[i], "tick=", 5)) {
                        opt_tick = x;
                } else if (!strncmp(argv[i], "mem=", 4)) {
                        opt_mem = x;
                } else if (!strncmp(argv[i], "frames=", 7)) {
                        opt_frames = x;
                } else if (!strncmp(argv[i], "cells=", 6)) {
                        opt_cells = x;
#if defined(WASI)
                } else if (!strncmp(argv[i], "wasi=", 5)) {
                        opt_wasi = x;
#endif
                } else {
                        return 2;
                }
        }
        setvbuf(stdout, NULL, _IOLBF, 0);
        struct sigaction sa;
        memset(&sa, 0, sizeof(sa));
        sa.sa_handler = onalarm;
        sigaction(SIGALRM, &sa, NULL);
        char *line = NULL;
        size_t cap = 0;
        long n = -1;
        int on = 0;
        while (getline(&line, &cap, f) > 0) {
                line[strcspn(line, "\n")] = 0;
                if (!strcmp(line, "case")) {
                        n++;
                        on = n >= first;
                        if (on) {
                                mem_context_init(&mctx);
                                if (opt_mem && mem_context_setlimit(&mctx, (size_t)opt_mem)) {
                                        return 2;
                                }
                                rnd_state = seed * 1000003 + (uint64_t)n;
                                rnd();
#if defined(WASI)
                                if (opt_wasi >= 0) {
                                        wasi_start();
                                }
#endif
                        }
                        continue;
                }
                if (!on) {
                        continue;
                }
                if (!strcmp(line, "end")) {
                        reset();
                        printf("C %ld %lu\n", n, nintr);
                        nintr = 0;
                        continue;
                }
                char *p = strchr(line, ' ');
                *p++ = 0;
                char *q = strchr(p, ' ');
                *q++ = 0;
                if (!strcmp(line, "load")) {
                        do_load(p, q);
                } else if (!strcmp(line, "register")) {
                        do_register(p, q);
                } else if (!strcmp(line, "invoke")) {
                        char *a = strchr(q, ' ');
                        if (a != NULL) {
                                *a++ = 0;
                        } else {
                                a = q + strlen(q);
                        }
                        do_invoke(p, q, a);
                } else if (!strcmp(line, "global")) {
                        do_global(p, q);
#if defined(OOM)
                } else if (!strcmp(line, "oom")) {
                        oom_at = atol(p);
                        oom_all = atoi(q);
                        oom_count = 0;
                        oom_failed = 0;
                        oom_armed = 1;
                        printf("S\n");
                } else if (!strcmp(line, "oomoff")) {
                        oom_armed = 0;
                        printf("O %ld %ld\n", oom_count, oom_failed);
#endif
                } else {
                        return 2;
                }
        }
        free(line);
        fclose(f);
        return 0;
}
