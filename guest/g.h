/* Freestanding guests for wasi + wasi-threads. */
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int32_t i32;
typedef int64_t i64;
#define IMP(n) __attribute__((import_module("wasi_snapshot_preview1"), import_name(#n)))
#define EXP(n) __attribute__((export_name(#n)))
struct iov {
        const void *p;
        size_t n;
};
IMP(fd_write) int fd_write(int, const struct iov *, size_t, size_t *);
IMP(fd_read) int fd_read(int, const struct iov *, size_t, size_t *);
IMP(proc_exit) _Noreturn void proc_exit(int);
IMP(clock_time_get) int clock_time_get(int, u64, u64 *);
IMP(args_sizes_get) int args_sizes_get(size_t *, size_t *);
IMP(args_get) int args_get(char **, char *);
IMP(sched_yield) int sched_yield(void);
__attribute__((import_module("wasi"), import_name("thread-spawn"))) int thread_spawn(int);

void thread_main(int tid, int arg);
#define STACK (16 * 1024)
#define MAXT 300
#define ld(p) __atomic_load_n(p, __ATOMIC_SEQ_CST)
#define st(p, v) __atomic_store_n(p, v, __ATOMIC_SEQ_CST)
#define add(p, v) __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST)
#define wait32(p, v, t) __builtin_wasm_memory_atomic_wait32((int *)(p), v, t)
#define wait64(p, v, t) __builtin_wasm_memory_atomic_wait64((long long *)(p), v, t)
#define notify(p, n) __builtin_wasm_memory_atomic_notify((int *)(p), n)
#define trap() __builtin_trap()
extern size_t argc_;
void g_args(void);
u64 arg(unsigned);
const char *argstr(unsigned);
void put(const void *, size_t);
void puti(u64, char);
void puts_(const char *);
u64 now(void);
u64 rnd(u64 *);
void barrier(int);
void g_reset_stacks(void);
