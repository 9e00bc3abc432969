// internal declarations shared by the simulator's own files
#pragma once
#include "sim.h"
#include <sys/types.h>
#include <atomic>
namespace sim {
enum { MAXFIBERS = 48, MAXPROBES = 64, MAXDEC = 1 << 19 };
enum FState : uint8_t { F_FREE, F_RUN, F_BLOCKED, F_DONE, F_DEAD };
struct Fiber {
    int id, node;
    FState state;
    void *sp;            // saved stack pointer
    unsigned long fs;    // thread pointer
    char *stack_lo, *stack_hi;
    void *wait_addr; u64 deadline; bool timed_out;
    u64 stall_until;
    void *(*start)(void *); void *arg; void *ret; bool detached, joined;
    int insim; int locks; bool sigpipe_blocked, sigpipe_pending; bool kill_pending;
    u64 last_run; u64 prio;
    char name[24];
    std::function<void()> *fn;
};
extern Fiber fibers[MAXFIBERS];
extern Fiber *cur;
extern u64 vnow;
struct Dec { u32 idx; u32 kind; u64 val; };
struct Result {
    volatile u32 status;          // 0 running, 1 ok, 2 violation, 3 inconclusive, 4 internal error
    char tag[32];
    char msg[2048];
    u64 hash, state_hash, vtime, steps;
    u64 counters[C_NCOUNTERS];
    u64 kindcount[K_NKINDS];
    u32 nops; u32 nprobes; struct { char name[40]; u64 n; } probes[MAXPROBES];
    u32 ndec; u32 dec_overflow;
    u32 nother; char other[8][64];
    u64 bt[32]; u32 nbt;
    Dec dec[MAXDEC];
};
extern Result *res;
void schedule();
void sys_enter(int kind, u64 a = 0);
void sys_exit(int kind, u64 r);
void run_due_events();
void zygote_init();
void run_begin(u64 seed, const std::vector<Dec> *replay);
extern "C" void sim_switch(void **save_sp, void *new_sp, unsigned long new_fs);
void kernel_reset();
void kernel_crash_node(int node, bool silent);
void heap_configure();
u64 mix(u64 h, u64 v);
long real_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
void fatal_report(const char *tag, const char *msg) __attribute__((noreturn));
extern int real_stderr;
extern std::vector<Scenario> &scenarios();
extern Dec *g_replay_dummy;
void *real_sym(const char *name);
void mem_fault(const void *p, int sz, bool w, const char *what);
extern bool cfg_trace_dec;
}
