// Heap arena with shadow state (use-after-free detection) and the memory-access hooks that gcc's
// -fsanitize=thread instrumentation calls (our own runtime, libtsan is not linked).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <cstring>
#include <cerrno>
#include <climits>

namespace sim {
static char *const AB = (char *)0x100000000000ULL; static const size_t AS = 4ULL << 30;
static uint8_t *const SH = (uint8_t *)0x0f0000000000ULL;
static bool inited = false; static char *bump = AB;
enum : uint8_t { S_NEVER = 0, S_LIVE = 1, S_HDR = 2, S_FREED = 3 };
struct Hdr { u32 cls; u32 flags; u64 size; }; // 16 bytes before the block; size is `next` while free
enum : u32 { FL_SIM = 1, FL_ALIGNED = 2, FL_MAGIC = 0xabc00000 };
struct Cls { Hdr *head, *tail; u32 n; };
static Cls cls[200];
static u64 live_blocks, live_bytes, total_allocs; // user blocks only
extern u64 heap_seed;
extern int b_hook, b_atomic;

static void init() {
    inited = true;
    long r = real_syscall(SYS_mmap, (long)AB, AS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    long r2 = real_syscall(SYS_mmap, (long)SH, AS / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (long)AB || r2 != (long)SH) { const char m[] = "heap mmap failed\n"; real_syscall(SYS_write, 2, (long)m, sizeof m); real_syscall(SYS_exit_group, 95); }
}
static inline u32 class_of(size_t n, size_t &rounded) { // n payload bytes
    if (n <= 1024) { u32 c = (n + 15) / 16; if (!c) c = 1; rounded = c * 16; return c; }
    int b = 63 - __builtin_clzll(n - 1); // 2^b < n <= 2^(b+1)
    size_t q = (size_t)1 << (b - 2);
    size_t k = (n - ((size_t)1 << b) + q - 1) / q; // 1..4
    rounded = ((size_t)1 << b) + k * q;
    return 64 + (b - 10) * 4 + k;
}
static inline void shadow(void *p, size_t n, uint8_t v) { memset(SH + ((char *)p - AB) / 16, v, n / 16); }

static void *alloc(size_t n, bool zero) {
    if (!inited) init();
    size_t r; u32 c = class_of(n, r);
    if (c >= 200) { errno = ENOMEM; return nullptr; }
    Cls &k = cls[c]; Hdr *h; bool fresh = false;
    if (k.n > (u32)(active ? cfg.quarantine : 0)) { h = k.head; k.head = (Hdr *)h->size; if (!k.head) k.tail = nullptr; k.n--; }
    else {
        h = (Hdr *)bump; bump += sizeof(Hdr) + r; fresh = true;
        if (bump > AB + AS) { errno = ENOMEM; return nullptr; }
        SH[((char *)h - AB) / 16] = S_HDR;
    }
    h->cls = c; h->size = n; h->flags = FL_MAGIC | ((insim || !active) ? FL_SIM : 0);
    if (!(h->flags & FL_SIM)) { live_blocks++; live_bytes += n; total_allocs++; }
    char *p = (char *)(h + 1);
    shadow(p, r, S_LIVE);
    if (zero) { if (!fresh) memset(p, 0, r); }
    else if (active && !(h->flags & FL_SIM)) {
        switch (cfg.fill) {
            case 0: if (!fresh) memset(p, 0, r); break;
            case 1: memset(p, 0xaa, r); break;
            case 2: memset(p, 0xff, r); break;
            default: { u64 x = heap_seed ^ total_allocs * 0x9e3779b97f4a7c15ULL; for (size_t i = 0; i + 8 <= r; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *(u64 *)(p + i) = x; } }
        }
    }
    return p;
}
static Hdr *hdr_of(void *p) {
    Hdr *h = (Hdr *)p - 1;
    if ((h->flags & 0xfff00000) == FL_MAGIC && (h->flags & FL_ALIGNED)) return (Hdr *)h->size;
    return h;
}
static void dealloc(void *p) {
    if (!p) return;
    if ((char *)p < AB || (char *)p >= AB + AS) return; // not ours (early dynamic loader)
    Hdr *h = hdr_of(p);
    uint8_t s = SH[((char *)p - AB) / 16];
    if (s != S_LIVE || (h->flags & 0xfff00000) != FL_MAGIC) {
        if (active) fatal_report("CRASH", s == S_FREED ? "double free" : "invalid free");
        return;
    }
    size_t r; class_of(h->size, r);
    if (!(h->flags & FL_SIM)) { live_blocks--; live_bytes -= h->size; }
    char *b = (char *)(h + 1);
    shadow(b, r, S_FREED);
    if (active) memset(b, 0xdd, r < 65536 ? r : 65536);
    Cls &k = cls[h->cls];
    if (active && cfg.quarantine == 0) { h->size = (u64)k.head; k.head = h; if (!k.tail) k.tail = h; }
    else { h->size = 0; if (k.tail) k.tail->size = (u64)h; else k.head = h; k.tail = h; }
    k.n++;
}
MemStat mem_user() { return MemStat{live_blocks, live_bytes, total_allocs}; }

__attribute__((noinline)) void mem_bad(const void *p, int sz, bool w, uint8_t s, const char *what) {
    if (!active || insim) return;
    char b[200];
    snprintf(b, sizeof b, "%s: %s of %d bytes", s == S_FREED ? "use after free" : s == S_HDR ? "heap buffer overflow" : "wild heap access", what ? what : (w ? "write" : "read"), sz);
    fatal_report("CRASH", b);
}
static inline void chk(const void *p, int sz, bool w) {
    size_t off = (const char *)p - AB;
    if (off < AS) { uint8_t s = SH[off / 16]; if (__builtin_expect(s != S_LIVE, 0)) mem_bad(p, sz, w, s, nullptr); }
    else {
        size_t so = (size_t)((const char *)p - (char *)0x0e0000000000ULL);
        if (so < (size_t)MAXFIBERS * (8u << 20)) {
            Fiber &f = fibers[so >> 23];
            if (__builtin_expect(&f != cur && active && !insim && (f.state == F_DONE || (const char *)p < (const char *)f.sp - 128), 0))
                fatal_report("CRASH", w ? "write to a dead stack frame of another thread" : "read of a dead stack frame of another thread");
        }
    }
}
void mem_fault(const void *p, int sz, bool w, const char *) { if (!insim) chk(p, sz, w); }
void hook_expired();
static inline void hook(const void *p, int sz, bool w) {
    if (__builtin_expect(insim || !active, 0)) return;
    if (__builtin_expect(--b_hook < 0, 0)) hook_expired();
    chk(p, sz, w);
}
static inline void ahook(const volatile void *p, int sz, bool w) {
    if (__builtin_expect(insim || !active, 0)) return;
    if (__builtin_expect(--b_hook < 0 || --b_atomic < 0, 0)) hook_expired();
    chk((const void *)p, sz, w);
}
static inline bool cas_fail() {
    if (insim || !active || cfg.p_cas <= 0 || !faults_on) return false;
    InSim _;
    if (coin(K_CAS, cfg.p_cas)) { count(C_CASFAIL); return true; }
    return false;
}
}
using namespace sim;
extern "C" {
void *malloc(size_t n) { return alloc(n, false); }
void free(void *p) { dealloc(p); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return alloc(n, true); }
void *realloc(void *p, size_t n) {
    if (!p) return alloc(n, false);
    if (!n) { dealloc(p); return nullptr; }
    void *q = alloc(n, false); if (!q) return nullptr;
    if ((char *)p >= AB && (char *)p < AB + AS) { size_t o = hdr_of(p)->size; memcpy(q, p, o < n ? o : n); }
    else memcpy(q, p, n);
    dealloc(p); return q;
}
void *memalign(size_t al, size_t n) {
    if (al <= 16) return alloc(n, false);
    char *p = (char *)alloc(n + al + 32, false); if (!p) return nullptr;
    char *q = (char *)(((uintptr_t)p + 16 + al - 1) / al * al);
    Hdr *f = (Hdr *)q - 1; f->flags = FL_MAGIC | FL_ALIGNED; f->cls = 0; f->size = (u64)((Hdr *)p - 1);
    return q;
}
int posix_memalign(void **o, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
void *valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void *p) { return p ? hdr_of(p)->size : 0; }

#define RW(N, T) \
 void __tsan_read##N(void *p) { hook(p, N, false); } \
 void __tsan_write##N(void *p) { hook(p, N, true); } \
 void __tsan_unaligned_read##N(void *p) { hook(p, N, false); } \
 void __tsan_unaligned_write##N(void *p) { hook(p, N, true); } \
 void __tsan_volatile_read##N(void *p) { hook(p, N, false); } \
 void __tsan_volatile_write##N(void *p) { hook(p, N, true); }
RW(1, ) RW(2, ) RW(4, ) RW(8, ) RW(16, )
void __tsan_read_range(void *p, unsigned long n) { if (n) { hook(p, n, false); chk((char *)p + n - 1, 1, false); } }
void __tsan_write_range(void *p, unsigned long n) { if (n) { hook(p, n, true); chk((char *)p + n - 1, 1, true); } }
void __tsan_vptr_update(void **p, void *) { hook(p, 8, true); }
void __tsan_vptr_read(void **p) { hook(p, 8, false); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_atomic_thread_fence(int) { if (!insim && active && (--b_hook < 0 || --b_atomic < 0)) hook_expired(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(N, T) \
 T __tsan_atomic##N##_load(const volatile T *p, int) { ahook(p, sizeof(T), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##N##_store(volatile T *p, T v, int) { ahook(p, sizeof(T), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { ahook(p, sizeof(T), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { ahook(p, sizeof(T), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { ahook(p, sizeof(T), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { ahook(p, sizeof(T), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { ahook(p, sizeof(T), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { ahook(p, sizeof(T), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int) { ahook(p, sizeof(T), true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { ahook(p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { ahook(p, sizeof(T), true); \
    if (*p == *e && cas_fail()) return 0; \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) { ahook(p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
