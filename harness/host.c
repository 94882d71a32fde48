/*
 * Scripted embedder with host functions: each host function interprets a list
 * of steps (calling other functions, touching guest memory, failing) and logs
 * what it was given.
 *
 * usage: host SCRIPT FIRST [intr=SEED]
 *
 * script lines:
 *   case
 *   host IDX SIG FLAGS NSTEPS   a host function, its steps on the next lines;
 *                               FLAGS: - or m (no memory) or t (no table)
 *   load NAME HEX               create an instance (exports visible to later
 *                               ones under NAME)
 *   fidx IDX FUNCIDX            function IDX is FUNCIDX in the last module
 *   ready                       take memory and table of instance "b"
 *   invoke IDX ARG...           call function IDX through the last module
 *   end
 * steps: see step(). Values: lN a local, x<hex> bits, fN function N, n null.
 * output: "S" loaded | "H IDX vals" host function entered | "B vals" results
 * of a call it made | "M crc" guest bytes it read | "P IDX" function pointer
 * resolved | "! what" API misbehaviour | "R vals" | "T trap" | "E errno" |
 * "D crc size" the memory after a call | "C n interrupts callbacks".
 */
#include <errno.h>
#include <inttypes.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <toywasm/cconv.h>
#include <toywasm/cell.h>
#include <toywasm/exec_context.h>
#include <toywasm/host_instance.h>
#include <toywasm/instance.h>
#include <toywasm/load_context.h>
#include <toywasm/mem.h>
#include <toywasm/module.h>
#include <toywasm/report.h>
#include <toywasm/restart.h>
#include <toywasm/type.h>

#define MAXF 256
#define MAXSTEP 32
#define MAXLOCAL 1024

struct host {
        struct host_instance hi; /* must be first */
        int idx;
        char *steps[MAXSTEP];
        int nsteps;
        char namebuf[16];
        char *sig;
        struct name name;
        struct host_func hf;
        struct host_module hm;
        struct functype ft;
        struct funcinst fi;
        int again; /* calls left to be answered with a restart */
        int manual;
        int nomem, notable;
        struct host *next;
};

struct st {
        int used;
        int host;
        int step;
        int nl;
        struct val l[MAXLOCAL];
        enum valtype t[MAXLOCAL];
};

struct mod {
        char name[16];
        struct name nm;
        uint8_t *buf;
        struct module *m;
        struct instance *inst;
};

static struct host *hosts;
static struct mod mods[4];
static int nmods;
static struct import_object *imports;
static struct mem_context mctx;
static uint32_t fidx[MAXF];
static int nf;
static struct meminst *gmem;
static struct tableinst *gtable;
static struct st **sts;
static int nsts;
static const struct name name_h = NAME_FROM_CSTR_LITERAL("h");

static int opt_intr;
static uint64_t rnd_state;
static unsigned long nintr, ncallbacks;
static uint8_t buf[1 << 20];

static uint32_t
rnd(void)
{
        rnd_state = rnd_state * 6364136223846793005ULL + 1442695040888963407ULL;
        return (uint32_t)(rnd_state >> 33);
}

static uint32_t
crc(const uint8_t *p, size_t n)
{
        static uint32_t tab[256];
        uint32_t i, k, c;
        if (tab[1] == 0) {
                for (i = 0; i < 256; i++) {
                        c = i;
                        for (k = 0; k < 8; k++) {
                                c = c & 1 ? 0xedb88320U ^ (c >> 1) : c >> 1;
                        }
                        tab[i] = c;
                }
        }
        c = 0xffffffffU;
        while (n-- > 0) {
                c = tab[(c ^ *p++) & 0xff] ^ (c >> 8);
        }
        return c ^ 0xffffffffU;
}

static uint8_t *
unhex(const char *s, size_t *np)
{
        size_t n = strlen(s) / 2;
        uint8_t *b = malloc(n + !n);
        size_t i;
        for (i = 0; i < n; i++) {
                unsigned int x;
                sscanf(s + 2 * i, "%2x", &x);
                b[i] = (uint8_t)x;
        }
        *np = n;
        return b;
}

static struct mod *
last(void)
{
        return &mods[nmods - 1];
}

static const struct funcinst *
funcof(int i)
{
        return VEC_ELEM(last()->inst->funcs, fidx[i]);
}

static const struct functype *
typeof_(int i)
{
        return module_functype(last()->m, fidx[i]);
}

static void
print_val(const struct val *v, enum valtype t)
{
        int i;
        switch (t) {
        case TYPE_i32:
        case TYPE_f32:
                printf(" x%" PRIx32, v->u.i32);
                break;
        case TYPE_i64:
        case TYPE_f64:
                printf(" x%" PRIx64, v->u.i64);
                break;
        case TYPE_v128:
                printf(" x");
                for (i = 15; i >= 0; i--) {
                        printf("%02x", ((const uint8_t *)&v->u)[i]);
                }
                break;
        case TYPE_funcref:
                if (v->u.funcref.func == NULL) {
                        printf(" n");
                        break;
                }
                for (i = 0; i < nf; i++) {
                        if (funcof(i) == v->u.funcref.func) {
                                printf(" f%d", i);
                                return;
                        }
                }
                printf(" f?");
                break;
        case TYPE_externref:
                if (v->u.externref == NULL) {
                        printf(" n");
                } else {
                        printf(" x%" PRIxPTR, (uintptr_t)v->u.externref);
                }
                break;
        default:
                printf(" ?");
        }
}

static void
parse_val(const char *s, enum valtype t, const struct st *st, struct val *v)
{
        memset(v, 0, sizeof(*v));
        if (*s == 'l') {
                *v = st->l[atoi(s + 1)];
                return;
        }
        if (*s == 'n') {
                return;
        }
        if (*s == 'f') {
                v->u.funcref.func = funcof(atoi(s + 1));
                return;
        }
        s++;
        switch (t) {
        case TYPE_i32:
        case TYPE_f32:
                v->u.i32 = (uint32_t)strtoull(s, NULL, 16);
                break;
        case TYPE_i64:
        case TYPE_f64:
                v->u.i64 = strtoull(s, NULL, 16);
                break;
        case TYPE_v128: {
                size_t k, n;
                uint8_t *b = unhex(s, &n);
                for (k = 0; k < 16; k++) {
                        ((uint8_t *)&v->u)[k] = b[15 - k];
                }
                free(b);
                break;
        }
        default:
                v->u.externref = (void *)(uintptr_t)strtoull(s, NULL, 16);
        }
}

static void
add_local(struct st *st, const struct val *v, enum valtype t)
{
        if (st->nl == MAXLOCAL) {
                abort();
        }
        st->l[st->nl] = *v;
        st->t[st->nl] = t;
        st->nl++;
}

static int
same_val(const struct val *a, const struct val *b, enum valtype t)
{
        switch (t) {
        case TYPE_i32:
        case TYPE_f32:
                return a->u.i32 == b->u.i32;
        case TYPE_i64:
        case TYPE_f64:
                return a->u.i64 == b->u.i64;
        case TYPE_v128:
                return !memcmp(&a->u, &b->u, 16);
        case TYPE_funcref:
                return a->u.funcref.func == b->u.funcref.func;
        default:
                return a->u.externref == b->u.externref;
        }
}

static void
set_result(const struct functype *ft, struct cell *results, uint32_t i, const struct val *v)
{
        switch (ft->result.types[i]) {
        case TYPE_i32:
                HOST_FUNC_RESULT_SET(ft, results, i, i32, v->u.i32);
                break;
        case TYPE_f32:
                HOST_FUNC_RESULT_SET(ft, results, i, f32, v->u.f32);
                break;
        case TYPE_i64:
                HOST_FUNC_RESULT_SET(ft, results, i, i64, v->u.i64);
                break;
        case TYPE_f64:
                HOST_FUNC_RESULT_SET(ft, results, i, f64, v->u.f64);
                break;
#if defined(TOYWASM_ENABLE_WASM_SIMD)
        case TYPE_v128:
                HOST_FUNC_RESULT_SET(ft, results, i, v128, v->u.v128);
                break;
#endif
        case TYPE_funcref:
                HOST_FUNC_RESULT_SET(ft, results, i, funcref, v->u.funcref);
                break;
        default:
                HOST_FUNC_RESULT_SET(ft, results, i, externref, v->u.externref);
                break;
        }
}

#define MAXTOK 600
static int
split(char *s, char **tok)
{
        int n = 0;
        char *save, *p;
        for (p = strtok_r(s, " ", &save); p != NULL; p = strtok_r(NULL, " ", &save)) {
                if (n == MAXTOK) {
                        abort();
                }
                tok[n++] = p;
        }
        return n;
}

/*
 * the type of a pending call's results: steps call, rec and callref all have
 * the callee at a fixed position
 */
static int
target_of(const char *step)
{
        int t;
        if (sscanf(step, "callref %*s %d", &t) == 1 || sscanf(step, "call %d", &t) == 1 ||
            sscanf(step, "rec %d", &t) == 1) {
                return t;
        }
        abort();
}

static void
default_results(struct st *st, const struct functype *ft)
{
        struct val v;
        memset(&v, 0, sizeof(v));
        uint32_t i;
        for (i = 0; i < ft->result.ntypes; i++) {
                add_local(st, &v, ft->result.types[i]);
        }
}

static int
schedule(struct exec_context *ctx, int slot, const struct funcinst *func, const struct functype *ft, char **tok)
{
        struct st *st = sts[slot];
        struct val *a = calloc(ft->parameter.ntypes + 1, sizeof(*a));
        uint32_t i;
        for (i = 0; i < ft->parameter.ntypes; i++) {
                if (!strcmp(tok[i], "-")) {
                        a[i].u.i32 = st->l[0].u.i32 - 1;
                } else {
                        parse_val(tok[i], ft->parameter.types[i], st, &a[i]);
                }
        }
        int ret = exec_push_vals(ctx, &ft->parameter, a);
        free(a);
        if (ret != 0) {
                return ret;
        }
        struct restart_info *restart = &VEC_NEXTELEM(ctx->restarts);
        ret = schedule_call_from_hostfunc(ctx, restart, func);
        restart->restart_u.hostfunc.user1 = (uint32_t)slot;
        restart->restart_u.hostfunc.user2 = (uint32_t)(slot * 31 + st->host);
        ncallbacks++;
        return ret;
}

/* returns 1 to go on with the next step, otherwise *retp is the answer */
static int
step(struct exec_context *ctx, struct host *h, const struct functype *ft, struct cell *results, int slot,
     char *s, int *retp)
{
        struct st *st = sts[slot];
        char *tok[MAXTOK];
        int n = split(s, tok);
        const struct funcinst *func;
        const struct functype *tft;
        struct val v;
        int ret;
        uint32_t i;
        (void)n;
        memset(&v, 0, sizeof(v));
        if (!strcmp(tok[0], "call") || !strcmp(tok[0], "rec")) {
                /* call T ARG... | rec T ARG... (only when local 0 is not zero) */
                int t = atoi(tok[1]);
                tft = typeof_(t);
                if (tok[0][0] == 'r' && st->l[0].u.i32 == 0) {
                        default_results(st, tft);
                        return 1;
                }
                ret = cconv_deref_func_ptr(ctx, gtable, (uint32_t)t, tft, &func);
                if (ret == 0) {
                        ret = schedule(ctx, slot, func, tft, tok + 2);
                }
                *retp = ret;
                return 0;
        }
        if (!strcmp(tok[0], "callref")) {
                /* callref LOCAL T ARG...: if it has the type of T */
                tft = typeof_(atoi(tok[2]));
                parse_val(tok[1], TYPE_funcref, st, &v);
                func = v.u.funcref.func;
                if (func == NULL || compare_functype(funcinst_functype(func), tft)) {
                        default_results(st, tft);
                        return 1;
                }
                *retp = schedule(ctx, slot, func, tft, tok + 3);
                return 0;
        }
        if (!strcmp(tok[0], "in") || !strcmp(tok[0], "ptr")) {
                /* in|ptr ADDR LEN ALIGN */
                parse_val(tok[1], TYPE_i32, st, &v);
                uint32_t addr = v.u.i32;
                uint32_t len = (uint32_t)strtoul(tok[2], NULL, 16);
                uint32_t align = (uint32_t)strtoul(tok[3], NULL, 16);
                const uint8_t *p = buf;
                if (tok[0][0] == 'i') {
                        ret = host_func_copyin(ctx, host_func_memory(&h->hi), buf, addr, len, align);
                } else {
                        void *vp;
                        ret = host_func_check_align(ctx, addr, align);
                        if (ret == 0) {
                                ret = host_func_getptr(ctx, host_func_memory(&h->hi), addr, len, &vp);
                                p = vp;
                        }
                }
                if (ret != 0) {
                        *retp = ret;
                        return 0;
                }
                uint32_t c = crc(p, len);
                printf("M %" PRIx32 "\n", c);
                v.u.i32 = c;
                add_local(st, &v, TYPE_i32);
                return 1;
        }
        if (!strcmp(tok[0], "out")) {
                /* out ADDR LEN ALIGN BYTE */
                parse_val(tok[1], TYPE_i32, st, &v);
                uint32_t addr = v.u.i32;
                uint32_t len = (uint32_t)strtoul(tok[2], NULL, 16);
                uint32_t align = (uint32_t)strtoul(tok[3], NULL, 16);
                memset(buf, (int)strtoul(tok[4], NULL, 16), len < sizeof(buf) ? len : sizeof(buf));
                ret = host_func_copyout(ctx, host_func_memory(&h->hi), buf, addr, len, align);
                if (ret != 0) {
                        *retp = ret;
                        return 0;
                }
                return 1;
        }
        if (!strcmp(tok[0], "deref")) {
                /* deref TABLEINDEX T: as a pointer to a function of T's type */
                parse_val(tok[1], TYPE_i32, st, &v);
                ret = cconv_deref_func_ptr(ctx, host_func_func_table(&h->hi), v.u.i32,
                                           typeof_(atoi(tok[2])), &func);
                if (ret != 0) {
                        *retp = ret;
                        return 0;
                }
                printf("P");
                v.u.funcref.func = func;
                print_val(&v, TYPE_funcref);
                printf("\n");
                return 1;
        }
        if (!strcmp(tok[0], "ret")) {
                /* results may overlap the parameters: locals are copies */
                for (i = 0; i < ft->result.ntypes; i++) {
                        parse_val(tok[1 + i], ft->result.types[i], st, &v);
                        set_result(ft, results, i, &v);
                }
                *retp = 0;
                return 0;
        }
        if (!strcmp(tok[0], "trap")) {
                *retp = host_func_trap(ctx, "host function %d", h->idx);
                return 0;
        }
        if (!strcmp(tok[0], "err")) {
                *retp = atoi(tok[1]);
                return 0;
        }
        if (!strcmp(tok[0], "tail")) {
                /* tail T: with the arguments as they are */
                ctx->event_u.call.func = funcof(atoi(tok[1]));
                ctx->event = EXEC_EVENT_CALL;
                *retp = ETOYWASMRESTART;
                return 0;
        }
        abort();
}

static int
hostfn(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params,
       struct cell *results)
{
        struct host *h = (struct host *)hi;
        uint32_t i;
        int slot;
        int ret = restart_info_prealloc(ctx);
        if (ret != 0) {
                return ret;
        }
        HOST_FUNC_CONVERT_PARAMS(ft, params);
        struct restart_info *restart = &VEC_NEXTELEM(ctx->restarts);
        struct st *st;
        if (restart->restart_type != RESTART_NONE) {
                if (restart->restart_type != RESTART_HOSTFUNC) {
                        printf("! restart type %d\n", (int)restart->restart_type);
                        exit(3);
                }
                struct restart_hostfunc *hf = &restart->restart_u.hostfunc;
                slot = (int)hf->user1;
                if (slot < 0 || slot >= nsts || !sts[slot]->used ||
                    hf->user2 != (uint32_t)(slot * 31 + sts[slot]->host) || sts[slot]->host != h->idx) {
                        printf("! saved context lost\n");
                        exit(3);
                }
                st = sts[slot];
                uint32_t adj = hf->stack_adj;
                restart_info_clear(ctx);
                if (ctx->stack.psize - ctx->stack.lsize < adj) {
                        printf("! results out of the stack\n");
                        exit(3);
                }
                for (i = 0; i < ft->parameter.ntypes; i++) {
                        if (!same_val(&converted_params[i], &st->l[i], ft->parameter.types[i])) {
                                printf("! parameter %u changed over a call\n", (unsigned)i);
                        }
                }
                const struct functype *tft = typeof_(target_of(h->steps[st->step]));
                struct val *r = calloc(tft->result.ntypes + 1, sizeof(*r));
                ctx->stack.lsize += adj;
                exec_pop_vals(ctx, &tft->result, r);
                printf("B");
                for (i = 0; i < tft->result.ntypes; i++) {
                        print_val(&r[i], tft->result.types[i]);
                        add_local(st, &r[i], tft->result.types[i]);
                }
                printf("\n");
                free(r);
                st->step++;
        } else {
                int first = 0;
                if (!strncmp(h->steps[0], "again ", 6)) {
                        /* again N E: ask N times to be called again */
                        first = 1;
                        int cnt, how;
                        sscanf(h->steps[0], "again %d %d", &cnt, &how);
                        if (h->again == 0) {
                                h->again = cnt + 1;
                        }
                        if (--h->again > 0) {
                                HOST_FUNC_FREE_CONVERTED_PARAMS();
                                return how ? ETOYWASMUSERINTERRUPT : ETOYWASMRESTART;
                        }
                }
                for (slot = 0; slot < nsts && sts[slot]->used; slot++) {
                }
                if (slot == nsts) {
                        sts = realloc(sts, sizeof(*sts) * (size_t)(nsts + 1));
                        sts[nsts++] = calloc(1, sizeof(struct st));
                }
                st = sts[slot];
                st->used = 1;
                st->host = h->idx;
                st->step = first;
                st->nl = 0;
                printf("H %d", h->idx);
                for (i = 0; i < ft->parameter.ntypes; i++) {
                        print_val(&converted_params[i], ft->parameter.types[i]);
                        add_local(st, &converted_params[i], ft->parameter.types[i]);
                }
                printf("\n");
        }
        HOST_FUNC_FREE_CONVERTED_PARAMS();
        for (;; st->step++) {
                if (st->step >= h->nsteps) {
                        abort();
                }
                char *s = strdup(h->steps[st->step]);
                int pending = !strncmp(s, "call", 4) || !strncmp(s, "rec", 3);
                int more = step(ctx, h, ft, results, slot, s, &ret);
                free(s);
                if (!more) {
                        if (!(pending && ret == ETOYWASMRESTART)) {
                                st->used = 0;
                        }
                        return ret;
                }
        }
}

static int
drive(struct exec_context *ctx, int (*start)(struct exec_context *, void *), void *arg)
{
        static const atomic_uint one = 1;
        int ret;
        if (opt_intr) {
                ctx->intrp = &one;
                ctx->check_interval = 2 + rnd() % 3;
        }
        ret = start(ctx, arg);
        while (IS_RESTARTABLE(ret)) {
                if (ret == ETOYWASMUSERINTERRUPT) {
                        nintr++;
                }
                if (opt_intr) {
                        static const uint32_t iv[] = {1, 2, 2, 2, 3, 5, 17, 100};
                        ctx->check_interval = iv[rnd() % 8];
                }
                ret = instance_execute_handle_restart_once(ctx, ret);
        }
        return ret;
}

static const char *
trapname(enum trapid id)
{
        switch (id) {
        case TRAP_MISC:
                return "misc";
        case TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS:
                return "oob-memory";
        case TRAP_UNREACHABLE:
                return "unreachable";
        case TRAP_CALL_INDIRECT_OUT_OF_BOUNDS_TABLE_ACCESS:
                return "call-oob";
        case TRAP_CALL_INDIRECT_NULL_FUNCREF:
                return "call-null";
        case TRAP_CALL_INDIRECT_FUNCTYPE_MISMATCH:
                return "call-type";
        case TRAP_UNALIGNED_MEMORY_ACCESS:
                return "unaligned";
        case TRAP_INDIRECT_FUNCTION_TABLE_NOT_FOUND:
                return "no-table";
        case TRAP_UNCAUGHT_EXCEPTION:
                return "uncaught";
        case TRAP_MEMORY_NOT_FOUND:
                return "no-memory";
        default:
                return "other";
        }
}

static void
outcome(struct exec_context *ctx, int ret)
{
        if (ret == ETOYWASMTRAP) {
                const char *msg = report_getmessage(ctx->report);
                printf("T %s %s\n", trapname(ctx->trap.trapid), msg ? msg : "");
        } else {
                printf("E %d\n", ret);
        }
}

static int
start_init(struct exec_context *ctx, void *arg)
{
        return instance_execute_init(ctx);
}

static void
forget(void)
{
        int k;
        for (k = 0; k < nsts; k++) {
                sts[k]->used = 0;
        }
        struct host *h;
        for (h = hosts; h != NULL; h = h->next) {
                h->again = 0;
        }
}

static void
do_load(const char *name, const char *hex)
{
        if (nmods == 4) {
                abort();
        }
        struct mod *mod = &mods[nmods];
        memset(mod, 0, sizeof(*mod));
        snprintf(mod->name, sizeof(mod->name), "%s", name);
        set_name_cstr(&mod->nm, mod->name);
        size_t n;
        mod->buf = unhex(hex, &n);
        struct load_context lctx;
        load_context_init(&lctx, &mctx);
        int ret = module_create(&mod->m, mod->buf, mod->buf + n, &lctx);
        if (ret != 0) {
                printf("I %d %s\n", ret, report_getmessage(&lctx.report));
                exit(2);
        }
        load_context_clear(&lctx);
        struct report rep;
        report_init(&rep);
        ret = instance_create_no_init(&mctx, mod->m, &mod->inst, imports, &rep);
        if (ret != 0) {
                printf("U %d %s\n", ret, report_getmessage(&rep));
                exit(2);
        }
        report_clear(&rep);
        nmods++;
        struct exec_context ctx;
        exec_context_init(&ctx, mod->inst, &mctx);
        ret = drive(&ctx, start_init, NULL);
        if (ret == 0) {
                printf("S\n");
        } else {
                outcome(&ctx, ret);
        }
        exec_context_clear(&ctx);
        forget();
        struct import_object *im;
        if (import_object_create_for_exports(&mctx, mod->inst, &mod->nm, &im)) {
                exit(2);
        }
        im->next = imports;
        imports = im;
}

static void
set_types(struct resulttype *rt, const char *s, size_t n)
{
        size_t i;
        rt->types = calloc(n + 1, sizeof(*rt->types));
        rt->ntypes = (uint32_t)n;
        rt->is_static = true;
        for (i = 0; i < n; i++) {
                switch (s[i]) {
                case 'i':
                        rt->types[i] = TYPE_i32;
                        break;
                case 'I':
                        rt->types[i] = TYPE_i64;
                        break;
                case 'f':
                        rt->types[i] = TYPE_f32;
                        break;
                case 'F':
                        rt->types[i] = TYPE_f64;
                        break;
                case 'v':
                        rt->types[i] = TYPE_v128;
                        break;
                case 'c':
                        rt->types[i] = TYPE_funcref;
                        break;
                default:
                        rt->types[i] = TYPE_externref;
                }
        }
}

static struct host *
do_host(char *args)
{
        struct host *h = calloc(1, sizeof(*h));
        char sig[1024], flags[8];
        int n;
        if (sscanf(args, "%d %1023s %7s %d", &h->idx, sig, flags, &n) != 4 || n > MAXSTEP) {
                exit(2);
        }
        h->nomem = strchr(flags, 'm') != NULL;
        h->notable = strchr(flags, 't') != NULL;
        h->sig = strdup(sig);
        snprintf(h->namebuf, sizeof(h->namebuf), "%d", h->idx);
        set_name_cstr(&h->name, h->namebuf);
        struct import_object *im;
        if (strpbrk(sig, "vce") == NULL) {
                h->hf.name = h->name;
                h->hf.type = h->sig;
                h->hf.func = hostfn;
                h->hm.module_name = &name_h;
                h->hm.funcs = &h->hf;
                h->hm.nfuncs = 1;
                if (import_object_create_for_host_funcs(&mctx, &h->hm, 1, &h->hi, &im)) {
                        exit(2);
                }
        } else {
                /* functype_from_string has no letter for these types */
                h->manual = 1;
                const char *close = strchr(sig, ')');
                set_types(&h->ft.parameter, sig + 1, (size_t)(close - sig - 1));
                set_types(&h->ft.result, close + 1, strlen(close + 1));
                h->fi.is_host = true;
                h->fi.u.host.func = hostfn;
                h->fi.u.host.type = &h->ft;
                h->fi.u.host.instance = &h->hi;
                if (import_object_alloc(&mctx, 1, &im)) {
                        exit(2);
                }
                im->entries[0].module_name = &name_h;
                im->entries[0].name = &h->name;
                im->entries[0].type = EXTERNTYPE_FUNC;
                im->entries[0].u.func = &h->fi;
        }
        im->next = imports;
        imports = im;
        h->nsteps = n;
        h->next = hosts;
        hosts = h;
        return h;
}

static int
start_call(struct exec_context *ctx, void *arg)
{
        int i = *(int *)arg;
        const struct functype *ft = typeof_(i);
        return instance_execute_func(ctx, fidx[i], &ft->parameter, &ft->result);
}

static void
do_invoke(char *args)
{
        char *tok[MAXTOK];
        split(args, tok);
        int f = atoi(tok[0]);
        const struct functype *ft = typeof_(f);
        struct val *a = calloc(ft->parameter.ntypes + 1, sizeof(*a));
        struct val *r = calloc(ft->result.ntypes + 1, sizeof(*r));
        uint32_t i;
        for (i = 0; i < ft->parameter.ntypes; i++) {
                parse_val(tok[1 + i], ft->parameter.types[i], NULL, &a[i]);
        }
        struct exec_context ctx;
        exec_context_init(&ctx, last()->inst, &mctx);
        int ret = exec_push_vals(&ctx, &ft->parameter, a);
        if (ret == 0) {
                ret = drive(&ctx, start_call, &f);
        }
        if (ret == 0) {
                exec_pop_vals(&ctx, &ft->result, r);
                printf("R");
                for (i = 0; i < ft->result.ntypes; i++) {
                        print_val(&r[i], ft->result.types[i]);
                }
                printf("\n");
                if (ctx.stack.lsize != 0) {
                        printf("! %u cells left on the stack\n", (unsigned)ctx.stack.lsize);
                }
                int k;
                for (k = 0; k < nsts; k++) {
                        if (sts[k]->used) {
                                printf("! a host function did not finish\n");
                        }
                }
        } else {
                outcome(&ctx, ret);
        }
        exec_context_clear(&ctx);
        free(a);
        free(r);
        forget();
        uint32_t pages = gmem->size_in_pages;
        size_t size = (size_t)pages * 65536;
        uint32_t c;
        void *p = NULL;
        struct exec_context c2;
        exec_context_init(&c2, last()->inst, &mctx);
        if (host_func_getptr(&c2, gmem, 0, (uint32_t)size, &p)) {
                printf("! cannot map the whole memory\n");
                c = 0;
        } else {
                c = crc(p, size);
        }
        exec_context_clear(&c2);
        printf("D %" PRIx32 " %u\n", c, (unsigned)pages);
}

static void
reset(void)
{
        while (imports != NULL) {
                struct import_object *im = imports;
                imports = im->next;
                import_object_destroy(&mctx, im);
        }
        while (nmods > 0) {
                struct mod *m = &mods[--nmods];
                instance_destroy(m->inst);
                module_destroy(&mctx, m->m);
                free(m->buf);
        }
        while (hosts != NULL) {
                struct host *h = hosts;
                hosts = h->next;
                int i;
                for (i = 0; i < h->nsteps; i++) {
                        free(h->steps[i]);
                }
                free(h->ft.parameter.types);
                free(h->ft.result.types);
                free(h->sig);
                free(h);
        }
        while (nsts > 0) {
                free(sts[--nsts]);
        }
        free(sts);
        sts = NULL;
        gmem = NULL;
        gtable = NULL;
        nf = 0;
        mem_context_clear(&mctx);
}

int
main(int argc, char **argv)
{
        FILE *f = fopen(argv[1], "r");
        if (f == NULL || argc < 3) {
                return 2;
        }
        long first = atol(argv[2]);
        uint64_t seed = 0;
        if (argc > 3) {
                if (strncmp(argv[3], "intr=", 5)) {
                        return 2;
                }
                opt_intr = 1;
                seed = strtoull(argv[3] + 5, NULL, 0);
        }
        setvbuf(stdout, NULL, _IOFBF, 1 << 16);
        char *line = NULL;
        size_t cap = 0;
        long n = -1;
        int on = 0;
        while (getline(&line, &cap, f) > 0) {
                line[strcspn(line, "\n")] = 0;
                if (!strcmp(line, "case")) {
                        n++;
                        on = n >= first;
                        if (on) {
                                mem_context_init(&mctx);
                                rnd_state = seed * 1000003 + (uint64_t)n;
                                rnd();
                        }
                        continue;
                }
                if (!on) {
                        continue;
                }
                if (!strcmp(line, "end")) {
                        reset();
                        printf("C %ld %lu %lu\n", n, nintr, ncallbacks);
                        fflush(stdout);
                        nintr = 0;
                        ncallbacks = 0;
                        continue;
                }
                if (!strcmp(line, "ready")) {
                        struct mod *b = &mods[0];
                        gmem = cconv_memory(b->inst);
                        gtable = cconv_func_table(b->inst);
                        if (gmem == NULL || gtable == NULL) {
                                printf("! memory or table not found\n");
                                return 3;
                        }
                        struct host *h;
                        for (h = hosts; h != NULL; h = h->next) {
                                h->hi.memory = h->nomem ? NULL : gmem;
                                h->hi.func_table = h->notable ? NULL : gtable;
                        }
                        continue;
                }
                char *p = strchr(line, ' ');
                *p++ = 0;
                if (!strcmp(line, "host")) {
                        struct host *h = do_host(p);
                        int i;
                        for (i = 0; i < h->nsteps; i++) {
                                if (getline(&line, &cap, f) <= 0) {
                                        return 2;
                                }
                                line[strcspn(line, "\n")] = 0;
                                h->steps[i] = strdup(line);
                        }
                } else if (!strcmp(line, "load")) {
                        char *q = strchr(p, ' ');
                        *q++ = 0;
                        do_load(p, q);
                } else if (!strcmp(line, "fidx")) {
                        int i, j;
                        sscanf(p, "%d %d", &i, &j);
                        fidx[i] = (uint32_t)j;
                        if (i >= nf) {
                                nf = i + 1;
                        }
                } else if (!strcmp(line, "invoke")) {
                        fflush(stdout);
                        do_invoke(p);
                } else {
                        return 2;
                }
        }
        free(line);
        fclose(f);
        return 0;
}
