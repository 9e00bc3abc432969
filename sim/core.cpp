#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"
#include <pthread.h>
#include <dlfcn.h>
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <csignal>
#include <climits>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <execinfo.h>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

extern char __executable_start, etext;
namespace sim {
const char *kind_name[K_NKINDS] = {"next","slice","cas","spur","wake","lat","seg","shortw","shortr","epord","connimm",
    "rand","nonce","port","stall","f_socket","f_accept","f_setsockopt","f_fcntl","f_connect","f_bind","f_eventfd",
    "f_epollctl","f_reset","f_loss","f_syndrop","f_eagain","f_alloc","crashpt","app"};
const char *counter_name[C_NCOUNTERS] = {"context_switches","preemptions","syscalls","memory_access_points","weak_cas_failures",
    "spurious_wakeups","thread_stalls","short_writes","short_reads","send_would_block","small_segments","latency_spikes",
    "segment_loss_retransmit","partitions","heals","resets","refused_connects","dropped_syn","immediate_connects",
    "connect_errors","accept_errors","socket_errors","setsockopt_errors","fcntl_errors","bind_errors","eventfd_errors",
    "epoll_ctl_errors","node_crashes","node_restarts","nonce_collisions_forced","port_reuses","zero_windows",
    "corrupted_messages","sigpipe","allocations","clock_jumps"};

Rng kind_rng[K_NKINDS];
Cfg cfg;
bool faults_on = true;
bool active = false;
bool trace_on = false;
int insim = 0;
u64 run_seed = 0; int run_variant = 0;
u64 vnow = 0;
u64 g_steps = 0; static u64 g_step_limit = 2500000, g_hook_limit = 200000000;
Result *res;
Fiber fibers[MAXFIBERS];
Fiber *cur = &fibers[0];
static int nfibers = 1;
static u64 run_seq = 0;
static u64 thash = 0;
static bool is_replay = false;
static std::vector<Dec> *replay_by_kind; // array[K_NKINDS]
static size_t replay_pos[K_NKINDS];
static u32 kind_idx[K_NKINDS];
int real_stderr = 2;
static std::vector<std::string> *wanted_tags;
int b_hook = INT_MAX, b_atomic = INT_MAX, b_sys = INT_MAX;
static int slice_hook0;
static u64 hook_total = 0;
enum { FORCE_HOOKS = 20000, FORCE_SYS = 120 };

void set_wanted(std::vector<std::string> *w) { wanted_tags = w; }
bool tag_wanted(const char *t) {
    if (!wanted_tags || wanted_tags->empty()) return true;
    for (auto &s : *wanted_tags) if (s == t) return true;
    return false;
}

u64 mix(u64 h, u64 v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
    return h;
}
static u64 splitmix(u64 &x) {
    u64 z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
void Rng::seed(u64 x) { s[0] = splitmix(x); s[1] = splitmix(x); }
u64 Rng::next() {
    u64 s1 = s[0]; const u64 s0 = s[1];
    u64 r = s0 + s1;
    s[0] = s0; s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
u64 Rng::logrange(u64 lo, u64 hi) {
    int bl = 63 - __builtin_clzll(lo | 1), bh = 63 - __builtin_clzll(hi | 1);
    int b = bl + below(bh - bl + 1);
    u64 v = (1ULL << b) + below(1ULL << b);
    return v < lo ? lo : v > hi ? hi : v;
}

bool replaying() { return is_replay; }
u64 decide_slow(Kind k, u64 dflt, bool have, u64 val) {
    u32 i = kind_idx[k]++;
    if (have) {
        if (val != dflt) {
            if (res->ndec < MAXDEC) { res->dec[res->ndec] = Dec{i, (u32)k, val}; res->ndec++; }
            else res->dec_overflow = 1;
            res->kindcount[k]++;
        }
        return val;
    }
    auto &v = replay_by_kind[k]; auto &p = replay_pos[k];
    while (p < v.size() && v[p].idx < i) p++;
    if (p < v.size() && v[p].idx == i) {
        if (res->ndec < MAXDEC) { res->dec[res->ndec++] = v[p]; }
        res->kindcount[k]++;
        return v[p].val;
    }
    return dflt;
}

void count(Counter c, u64 n) { res->counters[c] += n; }
void probe(const char *name) {
    InSim _;
    for (u32 i = 0; i < res->nprobes; i++)
        if (!strcmp(res->probes[i].name, name)) { res->probes[i].n++; return; }
    if (res->nprobes < MAXPROBES) {
        auto &p = res->probes[res->nprobes++];
        snprintf(p.name, sizeof p.name, "%s", name); p.n = 1;
    }
}
void note(u64 a, u64 b, u64 c) { thash = mix(mix(mix(thash, a), b), c); }
void set_state_hash(u64 h) { res->state_hash = h; }

void tracef(const char *fmt, ...) {
    if (!trace_on) return;
    InSim _;
    char buf[1024];
    int n = snprintf(buf, sizeof buf, "[%12.6f f%d n%d %s] ", vnow / 1e9, cur->id, cur->node, cur->name);
    va_list ap; va_start(ap, fmt); n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap); va_end(ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    real_syscall(SYS_write, real_stderr, (long)buf, n);
}

static void publish(u32 st) {
    res->hash = thash; res->vtime = vnow > 1000000000ULL ? vnow - 1000000000ULL : 0; res->steps = g_steps;
    res->counters[C_HOOK] = hook_total + (slice_hook0 - b_hook);
    if (trace_on) {
        char b[200]; int n = snprintf(b, sizeof b, "[end status=%u t=%.6f steps=%llu hash=%016llx]\n", st, vnow / 1e9,
            (unsigned long long)g_steps, (unsigned long long)thash);
        real_syscall(SYS_write, real_stderr, (long)b, n);
        if (st != 1) for (int i = 0; i < nfibers; i++) { // where every thread is (addresses found on its stack)
            auto &f = fibers[i]; if (f.state == F_FREE || f.state == F_DONE || &f == cur) continue;
            char l[1200]; int k = snprintf(l, sizeof l, "  f%d n%d %s state=%d wait=%p deadline=%.6f stack:", f.id, f.node, f.name, f.state, f.wait_addr, f.deadline / 1e9);
            int cnt = 0;
            for (char **q = (char **)f.sp; (char *)q < f.stack_hi && cnt < 40; q++) if (*q > &__executable_start && *q < &etext && k < 1100) { k += snprintf(l + k, sizeof l - k, " %p", *q); cnt++; }
            k += snprintf(l + k, sizeof l - k, "\n"); real_syscall(SYS_write, real_stderr, (long)l, k);
        }
    }
    res->status = st;
}
void finish_run() { publish(1); real_syscall(SYS_exit_group, 0); __builtin_unreachable(); }
static void limit_hit(const char *what, u64 n);
void inconclusive(const char *why) {
    snprintf(res->msg, sizeof res->msg, "%s", why);
    snprintf(res->tag, sizeof res->tag, "INCONCLUSIVE");
    publish(3); real_syscall(SYS_exit_group, 0); __builtin_unreachable();
}
// A run that does not come to an end: more than ten times the work of the longest run ever seen on a correct tree.
// What this breaks is for the scenario to say.
static std::vector<std::string> *limit_tags;
void endless_means(const char *csv) {
    InSim _; limit_tags = new std::vector<std::string>(); std::string t;
    for (const char *q = csv;; q++) { if (*q && *q != ' ') t += *q; else { if (!t.empty()) limit_tags->push_back(t); t.clear(); if (!*q) break; } }
}
static void limit_hit(const char *what, u64 n) {
    static bool again = false; InSim _;
    if (limit_tags && !again) { again = true; for (auto &t : *limit_tags) violation(t.c_str(), "no end in sight after %llu %s: the system spins without getting anywhere", (unsigned long long)n, what); }
    inconclusive("step limit");
}
static void capture_bt() {
    insim++;
    void *b[32]; int n = backtrace(b, 32);
    res->nbt = n; for (int i = 0; i < n; i++) res->bt[i] = (u64)b[i];
}
// a thread of a crashed node that only lives on to release a lock it held: what it does no longer counts
static void limbo();
void fatal_report(const char *tag, const char *msg) {
    limbo();
    insim++;
    snprintf(res->tag, sizeof res->tag, "%s", tag);
    snprintf(res->msg, sizeof res->msg, "[%s node %d] %s", cur->name, cur->node, msg);
    tracef("FATAL %s: %s", tag, msg);
    capture_bt();
    publish(2);
    real_syscall(SYS_exit_group, 0); __builtin_unreachable();
}
void violation(const char *tag, const char *fmt, ...) {
    InSim _;
    char m[1900];
    va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    tracef("VIOLATION %s: %s", tag, m);
    limbo();
    if (!tag_wanted(tag)) {
        if (res->nother < 8) { char t[64]; snprintf(t, 64, "%s: %.48s", tag, m); strcpy(res->other[res->nother++], t); }
        return;
    }
    snprintf(res->tag, sizeof res->tag, "%s", tag);
    snprintf(res->msg, sizeof res->msg, "t=%.6fs: %s", vnow / 1e9, m);
    publish(2);
    real_syscall(SYS_exit_group, 0); __builtin_unreachable();
}

Quiet::Quiet() { insim++; }
Quiet::~Quiet() { insim--; }

// ---- events -----------------------------------------------------------------------------------------
struct Ev { u64 t, seq; std::function<void()> f; };
struct EvCmp { bool operator()(const Ev &a, const Ev &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::vector<Ev> *evq; static u64 evseq = 0;
void at(u64 t, std::function<void()> f) {
    InSim _;
    evq->push_back(Ev{t, evseq++, std::move(f)});
    std::push_heap(evq->begin(), evq->end(), EvCmp());
}
void run_due_events() {
    InSim _;
    while (!evq->empty() && evq->front().t <= vnow) {
        std::pop_heap(evq->begin(), evq->end(), EvCmp());
        Ev e = std::move(evq->back()); evq->pop_back();
        e.f();
    }
    for (int i = 0; i < nfibers; i++) {
        auto &f = fibers[i];
        if (f.state == F_BLOCKED && f.deadline && f.deadline <= vnow) {
            f.state = F_RUN; f.timed_out = true; f.deadline = 0; f.wait_addr = nullptr;
        }
    }
}

// ---- scheduler --------------------------------------------------------------------------------------
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    wrfsbase %rdx
    movq %rsi, %rsp
    fldcw 4(%rsp)
    ldmxcsr (%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_fiber_tramp
.type sim_fiber_tramp,@function
sim_fiber_tramp:
    .cfi_startproc
    .cfi_undefined rip
    xorl %ebp, %ebp
    call sim_fiber_main
    ud2
    .cfi_endproc
.size sim_fiber_tramp,.-sim_fiber_tramp
)");
extern "C" void sim_fiber_tramp();
static void fiber_body() noexcept {
    Fiber *f = cur;
    insim = 0;
    if (f->fn) { auto fn = std::move(*f->fn); f->fn = nullptr; fn(); }
    else f->ret = f->start(f->arg);
    insim++;
    f->state = F_DONE;
    wake(f);
}
extern "C" void sim_fiber_main() {
    fiber_body();
    for (;;) schedule();
}

static void do_switch(Fiber *next) {
    Fiber *me = cur;
    if (next == me) return;
    me->insim = insim;
    cur = next;
    sim_switch(&me->sp, next->sp, next->fs);
    // back in `me`
    insim = me->insim;
}

static u64 pct_next_change;
void schedule() {
    InSim guard;
    hook_total += slice_hook0 - b_hook; slice_hook0 = b_hook; 
    res->counters[C_SWITCH]++;
    if (++g_steps > g_step_limit) limit_hit("steps", g_steps);
    Fiber *R[MAXFIBERS]; int n;
    for (int round = 0;; round++) {
        run_due_events();
        n = 0;
        for (int i = 0; i < nfibers; i++) {
            auto &f = fibers[i];
            if (f.state == F_RUN && f.stall_until <= vnow) R[n++] = &f;
        }
        if (n) {
            // age order
            for (int i = 1; i < n; i++) { Fiber *x = R[i]; int j = i; while (j > 0 && R[j-1]->last_run > x->last_run) { R[j] = R[j-1]; j--; } R[j] = x; }
            break;
        }
        u64 t = ~0ULL;
        if (!evq->empty()) t = evq->front().t;
        for (int i = 0; i < nfibers; i++) {
            auto &f = fibers[i];
            if (f.state == F_BLOCKED && f.deadline && f.deadline < t) t = f.deadline;
            if (f.state == F_RUN && f.stall_until < t) t = f.stall_until;
        }
        if (t == ~0ULL) fatal_report("HANG", "deadlock: every thread is blocked for ever");
        if (t > vnow) vnow = t;
    }
    Fiber *next;
    if (n == 1) next = R[0];
    else {
        bool pct = cfg.policy == 2 && faults_on;
        u64 idx = decide(K_NEXT, 0, [&](Rng &r) -> u64 {
            if (pct) {
                if (g_steps >= pct_next_change) {
                    pct_next_change = g_steps + 1 + r.below(400);
                    fibers[r.below(nfibers)].prio = r.next() >> 8;
                    if (r.chance(0.5) && cur->state == F_RUN) cur->prio = r.below(16);
                }
                int b = 0; for (int i = 1; i < n; i++) if (R[i]->prio > R[b]->prio) b = i;
                return b;
            }
            if (cfg.policy == 1 && r.chance(0.7)) return 0;
            return r.below(n);
        });
        next = R[idx % n];
    }
    if (faults_on && n > 1 && cfg.p_stall > 0) {
        u64 d = decide(K_STALL, 0, [&](Rng &r) -> u64 { return r.chance(cfg.p_stall) ? r.logrange(1000, cfg.stall_max_ns) : 0; });
        if (d && next->id != 0) { next->stall_until = vnow + d; res->counters[C_STALL]++; next = R[0] == next ? R[1] : R[0]; }
    }
    next->last_run = ++run_seq;
    u64 sl = decide(K_SLICE, 0, [&](Rng &r) -> u64 {
        if (!r.chance(cfg.p_slice)) return 0;
        switch (r.below(4)) {
            case 0: case 1: return (1ULL << 32) | r.logrange(1, cfg.slice_max);
            case 2: return (2ULL << 32) | r.logrange(1, cfg.slice_max / 8 + 1);
            default: return (3ULL << 32) | r.range(1, 8);
        }
    });
    b_hook = FORCE_HOOKS; b_atomic = INT_MAX; b_sys = FORCE_SYS;
    int len = (int)(sl & 0xffffffff); if (len < 1) len = 1;
    switch (sl >> 32) {
        case 1: b_hook = len; break;
        case 2: b_atomic = len; break;
        case 3: b_sys = len; break;
    }
    slice_hook0 = b_hook;
    vnow += 20;
    thash = mix(thash, (u64)next->id * 1000003 + vnow);
    do_switch(next);
}

// called at a preemption point
static void preempt() {
    res->counters[C_PREEMPT]++;
    if (cfg.policy == 2) cur->prio = cur->prio ? cur->prio - 1 : 0;
    schedule();
}
__attribute__((noinline)) void hook_expired() {
    int ran = slice_hook0; // a thread that spins until a stalled one goes on must not starve the virtual clock
    hook_total += slice_hook0 - b_hook; slice_hook0 = b_hook = FORCE_HOOKS; b_atomic = INT_MAX;
    if (hook_total > g_hook_limit) limit_hit("memory accesses", hook_total);
    vnow += cfg.hook_ns * (ran >= FORCE_HOOKS ? ran : 50);
    preempt();
}

void yield() {
    InSim _;
    if (cfg.policy == 2) cur->prio = 0;
    vnow += 200;
    schedule();
}
void block(void *addr, u64 deadline) {
    InSim _;
    cur->wait_addr = addr; cur->deadline = deadline; cur->timed_out = false;
    cur->state = F_BLOCKED;
    schedule();
}
void wake(void *addr, bool one) {
    InSim _;
    Fiber *W[MAXFIBERS]; int n = 0;
    for (int i = 0; i < nfibers; i++) {
        auto &f = fibers[i];
        if (f.state == F_BLOCKED && f.wait_addr == addr) W[n++] = &f;
    }
    if (!n) return;
    if (one && n > 1) {
        u64 k = decide(K_WAKE, 0, [&](Rng &r) -> u64 { return r.below(n); }) % n;
        W[0] = W[k]; n = 1;
    }
    for (int i = 0; i < n; i++) { W[i]->state = F_RUN; W[i]->deadline = 0; W[i]->wait_addr = nullptr; }
}
u64 now() { return vnow; }
int cur_node() { return cur->node; }
void set_node(int n) { cur->node = n; }
int cur_fiber() { return cur->id; }
int fiber_count() { return nfibers; }
void set_name(const char *n) { snprintf(cur->name, sizeof cur->name, "%s", n); }
void sleep_ns(u64 ns) { static char dummy; block(&dummy + 0, vnow + (ns ? ns : 1)); }
bool wait_until(u64 deadline, u64 step, const std::function<bool()> &pred) {
    for (;;) {
        { InSim _; if (pred()) return true; }
        if (vnow >= deadline) return false;
        u64 s = step; if (vnow + s > deadline) s = deadline - vnow;
        sleep_ns(s);
    }
}
u64 step_limit(u64 n) { u64 o = g_step_limit; g_step_limit = n; g_hook_limit = n > 5000000 ? 400000000 : 200000000; return o; }
void stall_fiber(int f, u64 until) { fibers[f].stall_until = until; }

void sys_enter(int kind, u64 a) {
    vnow += cfg.syscall_ns;
    res->counters[C_SYSCALL]++;
    if (++g_steps > g_step_limit) limit_hit("steps", g_steps);
    run_due_events();
    thash = mix(thash, (u64)kind * 31 + a * 7 + cur->id);
    if (cur->kill_pending && cur->locks == 0) { cur->state = F_DEAD; for (;;) schedule(); }
    if (--b_sys < 0 && insim <= 1) preempt();
}
void sys_exit(int kind, u64 r) { thash = mix(thash, (u64)kind * 131 + r); }

// ---- fibers --------------------------------------------------------------------------------------
static char *stacks; enum : size_t { STK = 8u << 20 };
static unsigned long pool_fs[MAXFIBERS]; static std::atomic<int> pool_ready{0};
static void *pool_thread(void *p) {
    int i = (int)(long)p;
    pool_fs[i] = (unsigned long)pthread_self();
    pool_ready++;
    static int never = 0;
    for (;;) real_syscall(SYS_futex, (long)&never, FUTEX_WAIT, 0, 0, 0, 0);
    return nullptr;
}
long real_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
void *real_sym(const char *name) { return dlsym(RTLD_NEXT, name); }

static int new_fiber(int node) {
    int i;
    for (i = 1; i < nfibers; i++)
        if (fibers[i].state == F_DONE && (fibers[i].joined || fibers[i].detached)) break;
    // identities are not recycled while slots remain, so that stale references show up
    if (nfibers < MAXFIBERS) i = nfibers++;
    else if (i >= nfibers) inconclusive("too many threads");
    auto &f = fibers[i];
    memset((void *)&f, 0, sizeof f);
    f.id = i; f.node = node; f.state = F_RUN; f.fs = pool_fs[i];
    f.stack_lo = stacks + STK * i + 4096; f.stack_hi = stacks + STK * (i + 1);
    f.sigpipe_blocked = cur->sigpipe_blocked;
    f.prio = kind_rng[K_APP].s[0] ^ (i * 0x9e3779b97f4a7c15ULL); f.prio >>= 8;
    f.last_run = ++run_seq;
    u64 *sp = (u64 *)f.stack_hi;
    *--sp = 0; *--sp = 0;
    *--sp = (u64)sim_fiber_tramp;
    for (int k = 0; k < 6; k++) *--sp = 0;
    --sp; u32 mx; unsigned short cw;
    asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    ((u32 *)sp)[0] = mx; ((u32 *)sp)[1] = cw;
    f.sp = sp; f.insim = 0;
    snprintf(f.name, sizeof f.name, "t%d", i);
    return i;
}
void spawn(int node, const char *name, std::function<void()> fn) {
    InSim _;
    int i = new_fiber(node);
    fibers[i].fn = new std::function<void()>(std::move(fn));
    fibers[i].detached = true;
    snprintf(fibers[i].name, sizeof fibers[i].name, "%s", name);
}
static bool dead_nodes[64];
bool node_dead(int n) { return dead_nodes[n]; }
void crash_node(int node, bool silent) {
    InSim _;
    count(C_CRASH);
    tracef("crash node %d silent=%d", node, silent);
    for (int i = 0; i < nfibers; i++) {
        auto &f = fibers[i];
        if (f.node != node || f.state == F_DONE || f.state == F_FREE || &f == cur) continue;
        if (f.locks) f.kill_pending = true;
        else f.state = F_DEAD;
    }
    kernel_crash_node(node, silent);
}
static void limbo() { if (cur && cur->kill_pending) { cur->state = F_DEAD; for (;;) schedule(); } }
static void lock_released() {
    if (cur->kill_pending && cur->locks == 0) { cur->state = F_DEAD; for (;;) schedule(); }
}

u64 heap_seed;
void run_begin(u64 seed, const std::vector<Dec> *replay) {
    run_seed = seed;
    is_replay = replay != nullptr;
    heap_seed = seed;
    u64 x = seed * 0x9e3779b97f4a7c15ULL + 12345;
    for (int k = 0; k < K_NKINDS; k++) kind_rng[k].seed(splitmix(x) ^ (k * 7919));
    replay_by_kind = new std::vector<Dec>[K_NKINDS];
    if (replay) {
        for (auto &d : *replay) if (d.kind < K_NKINDS) replay_by_kind[d.kind].push_back(d);
        for (int k = 0; k < K_NKINDS; k++)
            std::sort(replay_by_kind[k].begin(), replay_by_kind[k].end(), [](const Dec &a, const Dec &b) { return a.idx < b.idx; });
    }
    evq = new std::vector<Ev>();
    evq->reserve(1024);
    fibers[0].id = 0; fibers[0].state = F_RUN; fibers[0].fs = (unsigned long)pthread_self();
    snprintf(fibers[0].name, 24, "main");
    cur = &fibers[0];
    vnow = 1000000000ULL;
    thash = 1;
    kernel_reset();
    b_hook = slice_hook0 = FORCE_HOOKS;
    active = true;
}

static void on_signal(int sig, siginfo_t *si, void *) {
    char b[200];
    snprintf(b, sizeof b, "signal %d (%s) at address %p", sig, strsignal(sig), si->si_addr);
    auto a = (char *)si->si_addr;
    for (int i = 1; i < MAXFIBERS; i++)
        if (a >= stacks + STK * i && a < stacks + STK * i + 4096) snprintf(b, sizeof b, "stack overflow in thread %d", i);
    if (!active) { fprintf(stderr, "simulator crash: %s\n", b); _exit(99); }
    fatal_report("CRASH", b);
}

void zygote_init() {
    stacks = (char *)mmap((void *)0x0e0000000000, STK * MAXFIBERS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (stacks == MAP_FAILED) { perror("mmap stacks"); _exit(98); }
    for (int i = 0; i < MAXFIBERS; i++) mprotect(stacks + STK * i, 4096, PROT_NONE);
    auto rc = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))real_sym("pthread_create");
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 65536);
    for (long i = 1; i < MAXFIBERS; i++) {
        pthread_t t;
        if (rc(&t, &at, pool_thread, (void *)i)) { perror("pthread_create"); _exit(98); }
        pool_fs[i] = (unsigned long)t;
    }
    while (pool_ready < MAXFIBERS - 1) usleep(100);
    pool_fs[0] = (unsigned long)pthread_self();
    void *b[4]; backtrace(b, 4);
    stack_t ss{}; ss.ss_sp = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
    std::set_terminate([] {
        char b[512]; snprintf(b, sizeof b, "std::terminate");
        if (auto t = abi::__cxa_current_exception_type()) {
            snprintf(b, sizeof b, "std::terminate: uncaught %s", t->name());
            try { throw; } catch (std::exception &e) { snprintf(b, sizeof b, "std::terminate: uncaught %s: %s", t->name(), e.what()); } catch (...) {}
        }
        if (!active) { fprintf(stderr, "%s\n", b); _exit(97); }
        fatal_report("CRASH", b);
    });
}
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
void register_scenario(const Scenario &s) { scenarios().push_back(s); }

std::string symbolize_here(int) { return ""; }

void default_swarm(Rng &r) {
    cfg = Cfg();
    cfg.policy = r.below(3);
    cfg.p_slice = r.chance(0.15) ? 0 : r.chance(0.5) ? 0.05 + 0.3 * r.real() : 0.5 + 0.5 * r.real();
    cfg.slice_max = r.logrange(20, 3000);
    cfg.p_cas = r.chance(0.3) ? 0.02 + 0.1 * r.real() : 0;
    cfg.p_spur = r.chance(0.2) ? 0.05 : 0;
    cfg.syscall_ns = r.logrange(300, 8000);
    cfg.hook_ns = r.range(1, 20);
    cfg.lat_ns = r.logrange(2000, 2000000);
    cfg.lat_jit_ns = r.logrange(1000, 3000000);
    cfg.p_lat_long = r.chance(0.3) ? 0.02 + 0.1 * r.real() : 0;
    cfg.lat_long_ns = r.logrange(1000000, 80000000);
    cfg.p_loss = r.chance(0.2) ? 0.01 + 0.05 * r.real() : 0;
    cfg.p_seg = r.chance(0.3) ? 0 : r.real();
    cfg.seg_max = r.logrange(1, 2000);
    cfg.p_shortw = r.chance(0.4) ? r.real() * 0.6 : 0;
    cfg.p_shortr = r.chance(0.4) ? r.real() * 0.6 : 0;
    cfg.sndbuf = r.chance(0.5) ? r.logrange(64, 8192) : 65536;
    cfg.rcvbuf = r.chance(0.5) ? r.logrange(64, 8192) : 65536;
    cfg.p_conn_imm = r.chance(0.3) ? r.real() : 0;
    cfg.p_stall = r.chance(0.4) ? 0.002 + 0.03 * r.real() : 0;
    cfg.stall_max_ns = r.logrange(20000, 50000000);
    cfg.fill = r.below(4);
    cfg.quarantine = r.chance(0.4) ? 0 : r.chance(0.5) ? 8 : 256;
    cfg.rand_mode = r.below(3);
    cfg.p_nonce_small = r.chance(0.3) ? 0.7 : 0;
    cfg.eph_ports = r.chance(0.4) ? r.range(2, 8) : 20000;
    cfg.refuse_immediate = r.chance(0.2);
}
}
using namespace sim;

// ================= interposed libc: threads and synchronisation ====================================
#define REAL(name) ((decltype(&name))[]{ static void *p = real_sym(#name); return p; }())
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*start)(void *), void *arg) {
    if (!active) return REAL(pthread_create)(t, a, start, arg);
    InSim _;
    sys_enter(100);
    int i = new_fiber(cur->node);
    fibers[i].start = start; fibers[i].arg = arg;
    *t = (pthread_t)fibers[i].fs;
    tracef("pthread_create -> f%d", i);
    return 0;
}
static Fiber *by_pt(pthread_t t) { for (int i = 0; i < nfibers; i++) if ((pthread_t)fibers[i].fs == t) return &fibers[i]; return nullptr; }
int pthread_join(pthread_t t, void **ret) {
    if (!active) return REAL(pthread_join)(t, ret);
    InSim _;
    sys_enter(101);
    auto f = by_pt(t);
    if (!f) return ESRCH;
    if (f == cur) return EDEADLK;
    while (f->state != F_DONE) block(f);
    f->joined = true;
    if (ret) *ret = f->ret;
    return 0;
}
int pthread_detach(pthread_t t) {
    if (!active) return REAL(pthread_detach)(t);
    InSim _; auto f = by_pt(t); if (f) f->detached = true; return 0;
}
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
    if (!active) return REAL(pthread_sigmask)(how, set, old);
    if (old) { sigemptyset(old); if (cur->sigpipe_blocked) sigaddset(old, SIGPIPE); }
    if (set) {
        int m = sigismember(set, SIGPIPE);
        if (how == SIG_BLOCK) { if (m) cur->sigpipe_blocked = true; }
        else if (how == SIG_UNBLOCK) { if (m) cur->sigpipe_blocked = false; }
        else cur->sigpipe_blocked = m;
        if (!cur->sigpipe_blocked && cur->sigpipe_pending) { cur->sigpipe_pending = false; InSim _; fatal_report("CRASH", "process killed by SIGPIPE"); }
    }
    return 0;
}
int sigpending(sigset_t *set) noexcept { if (!active) return real_syscall(SYS_rt_sigpending, (long)set, 8); sigemptyset(set); if (cur->sigpipe_pending) sigaddset(set, SIGPIPE); return 0; }
int sigtimedwait(const sigset_t *set, siginfo_t *, const struct timespec *) {
    if (!active) { errno = ENOSYS; return -1; }
    if (cur->sigpipe_pending && sigismember(set, SIGPIPE)) { cur->sigpipe_pending = false; return SIGPIPE; }
    errno = EAGAIN; return -1;
}
int sigwait(const sigset_t *set, int *sig) { int r = sigtimedwait(set, nullptr, nullptr); if (r < 0) return errno; *sig = r; return 0; }
int sigprocmask(int how, const sigset_t *set, sigset_t *old) noexcept {
    if (!active) return REAL(sigprocmask)(how, set, old);
    return pthread_sigmask(how, set, old);
}
static void chk_stack(const void *p, const char *what) { mem_fault(p, 0, false, what); }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if (!active) return REAL(pthread_mutex_lock)(m);
    chk_stack(m, "mutex lock");
    InSim _;
    if (--b_atomic < 0 && insim <= 1) { b_atomic = INT_MAX; schedule(); }
    int kind = m->__data.__kind & 3;
    if (m->__data.__lock && m->__data.__owner == cur->id + 1) {
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return 0; }
        if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    while (m->__data.__lock) block(m);
    m->__data.__lock = 1; m->__data.__owner = cur->id + 1; m->__data.__count = 1;
    cur->locks++;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if (!active) return REAL(pthread_mutex_trylock)(m);
    chk_stack(m, "mutex trylock");
    if (m->__data.__lock) {
        if (m->__data.__owner == cur->id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return 0; }
        return EBUSY;
    }
    m->__data.__lock = 1; m->__data.__owner = cur->id + 1; m->__data.__count = 1; cur->locks++;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    if (!active) return REAL(pthread_mutex_unlock)(m);
    chk_stack(m, "mutex unlock");
    InSim _;
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && m->__data.__count > 1) { m->__data.__count--; return 0; }
    m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0;
    cur->locks--;
    wake(m);
    lock_released();
    if (--b_atomic < 0 && insim <= 1) { b_atomic = INT_MAX; schedule(); }
    return 0;
}
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline) {
    InSim _;
    m->__data.__lock = 0; m->__data.__owner = 0; cur->locks--; wake(m);
    u64 dl = deadline;
    if (!deadline && cfg.p_spur > 0 && coin(K_SPUR, cfg.p_spur)) { dl = vnow + 1000; count(C_SPURWAKE); }
    block(c, dl);
    bool to = cur->timed_out && deadline && vnow >= deadline;
    while (m->__data.__lock) block(m);
    m->__data.__lock = 1; m->__data.__owner = cur->id + 1; m->__data.__count = 1; cur->locks++;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!active) return REAL(pthread_cond_wait)(c, m);
    return cond_wait_impl(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!active) return REAL(pthread_cond_timedwait)(c, m, ts);
    u64 d = ts->tv_sec * 1000000000ULL + ts->tv_nsec;
    return cond_wait_impl(c, m, d > vnow ? d : vnow + 1);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const struct timespec *ts) {
    if (!active) return REAL(pthread_cond_clockwait)(c, m, ck, ts);
    u64 d = ts->tv_sec * 1000000000ULL + ts->tv_nsec;
    return cond_wait_impl(c, m, d > vnow ? d : vnow + 1);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
    if (!active) return REAL(pthread_cond_signal)(c);
    chk_stack(c, "cond signal");
    wake(c, true); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    if (!active) return REAL(pthread_cond_broadcast)(c);
    chk_stack(c, "cond broadcast");
    wake(c); return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) noexcept { if (!active) return REAL(pthread_cond_destroy)(c); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept { if (!active) return REAL(pthread_mutex_destroy)(m); return 0; }
// rwlock state kept in unused fields of the object (some locks were used before the simulation started): __pad3 = reader count, __pad4 = writer id + 1
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept {
    if (!active) return REAL(pthread_rwlock_rdlock)(l);
    InSim _;
    if (--b_atomic < 0 && insim <= 1) { b_atomic = INT_MAX; schedule(); }
    if (l->__data.__pad4 == (unsigned)cur->id + 1) return EDEADLK;
    while (l->__data.__pad4) block(l);
    l->__data.__pad3++; cur->locks++; return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept {
    if (!active) return REAL(pthread_rwlock_tryrdlock)(l);
    if (l->__data.__pad4) return EBUSY;
    l->__data.__pad3++; cur->locks++; return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept {
    if (!active) return REAL(pthread_rwlock_wrlock)(l);
    InSim _;
    if (--b_atomic < 0 && insim <= 1) { b_atomic = INT_MAX; schedule(); }
    if (l->__data.__pad4 == (unsigned)cur->id + 1) return EDEADLK;
    while (l->__data.__pad4 || l->__data.__pad3) block(l);
    l->__data.__pad4 = cur->id + 1; cur->locks++; return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept {
    if (!active) return REAL(pthread_rwlock_trywrlock)(l);
    if (l->__data.__pad4 || l->__data.__pad3) return EBUSY;
    l->__data.__pad4 = cur->id + 1; cur->locks++; return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
    if (!active) return REAL(pthread_rwlock_unlock)(l);
    InSim _;
    if (l->__data.__pad4) l->__data.__pad4 = 0;
    else if (l->__data.__pad3) l->__data.__pad3--;
    cur->locks--;
    wake(l);
    lock_released();
    if (--b_atomic < 0 && insim <= 1) { b_atomic = INT_MAX; schedule(); }
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!active) return REAL(pthread_once)(o, f);
    if (*o == 2) return 0;
    InSim _;
    while (*o == 1) block(o);
    if (*o == 2) return 0;
    *o = 1; f(); *o = 2; wake(o);
    return 0;
}
int sched_yield() noexcept {
    if (!active) return REAL(sched_yield)();
    if (insim) return 0;
    sim::yield(); return 0;
}
int nanosleep(const struct timespec *a, struct timespec *) {
    if (!active) return real_syscall(SYS_nanosleep, (long)a, 0) < 0 ? -1 : 0;
    sleep_ns(a->tv_sec * 1000000000ULL + a->tv_nsec); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *r) {
    if (!active) return REAL(clock_nanosleep)(c, fl, a, r);
    sleep_ns(a->tv_sec * 1000000000ULL + a->tv_nsec); return 0;
}
int usleep(useconds_t u) {
    if (!active) { struct timespec ts{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; real_syscall(SYS_nanosleep, (long)&ts, 0); return 0; }
    sleep_ns(u * 1000ULL); return 0;
}
unsigned sleep(unsigned s) { usleep(s * 1000000u); return 0; }
static int64_t rt_off = 1800000000LL * 1000000000LL; // 2027-01
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
    if (!active) return real_syscall(SYS_clock_gettime, c, (long)ts) < 0 ? -1 : 0;
    vnow += 20;
    u64 t = vnow;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += rt_off;
    ts->tv_sec = t / 1000000000ULL; ts->tv_nsec = t % 1000000000ULL;
    return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
int rand() noexcept {
    if (!active) return 4;
    InSim _;
    // the default varies from call to call, so that a minimised replay has no artificial ties
    static u64 ctr = 0; u64 x = (run_seed + ++ctr) * 0x9e3779b97f4a7c15ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32;
    u64 dflt = cfg.rand_mode == 2 ? RAND_MAX / 2 : x & 0x7fffffff;
    return (int)decide(K_RAND, dflt, [dflt](Rng &r) -> u64 { return cfg.rand_mode == 1 ? (r.chance(0.5) ? 0 : RAND_MAX) : dflt; });
}
void srand(unsigned) noexcept {}
long random() noexcept { return rand(); }
void abort() noexcept {
    if (!active) { fprintf(stderr, "abort outside simulation\n"); _exit(96); }
    fatal_report("CRASH", "abort()");
}
void __assert_fail(const char *e, const char *file, unsigned line, const char *func) noexcept {
    char b[600]; const char *s = strrchr(file, '/');
    snprintf(b, sizeof b, "assertion failed: %s (%s:%u)", e, s ? s + 1 : file, line);
    if (!active) { fprintf(stderr, "%s in %s\n", b, func); _exit(96); }
    fatal_report("CRASH", b);
}
}
namespace sim {
u64 wall_realtime_offset(int64_t d) { rt_off += d; count(C_CLOCKJUMP); return rt_off; }
}
