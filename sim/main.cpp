// Zygote: forks one process per simulated run.  Commands on stdin:
//   R <seed>                      one seeded run, prints one JSON line
//   P <file>                      replay of a recorded decision list, prints one JSON line
//   B <start> <stride> <count> <wall_ms> <maxfail> <hashfile>   batch; prints failures and a summary line
//   D <seed> <file>               seeded run, writes its decisions as a replay file, prints one JSON line
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"
#include <uv.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <ctime>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <fstream>
#include <sstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <map>

using namespace sim;
namespace sim { void set_wanted(std::vector<std::string> *); }
static Rng ssl_rng;
static int r_bytes(unsigned char *b, int n) {
    if (!active) { static u64 x = 88172645463325252ULL; for (int i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = x >> 24; } return 1; }
    InSim _;
    if (n == 2) {
        static u64 ctr = 0; u64 x = (run_seed * 31 + ++ctr) * 0x9e3779b97f4a7c15ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; u64 dflt = (x >> 32) & 0xffff;
        u64 v = decide(K_NONCE, dflt, [dflt](Rng &r) -> u64 {
            if (r.chance(cfg.p_nonce_small)) { static const u64 c[] = {0, 1, 2, 0xfffd, 0xfffe, 0xffff}; count(C_NONCETIE); return c[r.below(6)]; }
            return dflt; });
        b[0] = v & 0xff; b[1] = v >> 8; return 1;
    }
    for (int i = 0; i < n; i++) b[i] = ssl_rng.next() >> 33;
    return 1;
}
static int r_seed(const void *, int) { return 1; }
static int r_add(const void *, int, double) { return 1; }
static int r_status() { return 1; }
static RAND_METHOD rm = {r_seed, r_bytes, nullptr, r_add, r_bytes, r_status};

static std::string jesc(const char *s) {
    std::string r; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
static Scenario *scen; static std::vector<std::string> tags;
struct Replay { u64 seed = 0; int variant = 0; std::set<int> disabled; std::vector<Dec> dec; std::string scenario, tag; };
static bool load_replay(const char *f, Replay &r) {
    std::ifstream in(f); if (!in) return false;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line); std::string k; ss >> k;
        if (k == "seed") ss >> r.seed;
        else if (k == "variant") ss >> r.variant;
        else if (k == "scenario") ss >> r.scenario;
        else if (k == "tag") ss >> r.tag;
        else if (k == "disabled") { int x; while (ss >> x) r.disabled.insert(x); }
        else if (k == "dec") { std::string kn; u64 i, v; ss >> kn >> i >> v; for (int j = 0; j < K_NKINDS; j++) if (kn == kind_name[j]) r.dec.push_back(Dec{(u32)i, (u32)j, v}); }
    }
    return true;
}
static void child(u64 seed, const Replay *rp, bool trace) {
    // keep the real standard streams out of the simulated descriptor range
    int e = fcntl(2, F_DUPFD, 900); real_stderr = e;
    int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(dn, 2);
    { struct itimerval it{}; it.it_value.tv_sec = 150; signal(SIGALRM, SIG_DFL); setitimer(ITIMER_REAL, &it, nullptr); }
    trace_on = trace;
    Rng pr; pr.seed(seed * 0x9e3779b97f4a7c15ULL ^ 0x5bd1e995);
    ssl_rng.seed(seed ^ 0xabcdef);
    std::vector<Dec> *decs = rp ? new std::vector<Dec>(rp->dec) : nullptr;
    insim = 1;
    static Plan plan;
    default_swarm(pr);
    scen->gen(plan, pr);
    plan.enabled.assign(plan.ops.size(), 1);
    if (rp) for (int d : rp->disabled) if (d >= 0 && d < (int)plan.enabled.size()) plan.enabled[d] = 0;
    if (trace) {
        fprintf(stderr, "x");
        for (size_t i = 0; i < plan.ops.size(); i++) {
            char b[300]; int n = snprintf(b, sizeof b, "op %zu%s t=%.6f node=%d %s\n", i, plan.enabled[i] ? "" : " (disabled)", plan.ops[i].t / 1e9, plan.ops[i].node, scen->opname ? scen->opname(plan.ops[i]).c_str() : "");
            real_syscall(SYS_write, real_stderr, (long)b, n);
        }
    }
    res->nops = plan.ops.size();
    run_begin(seed, decs);
    insim = 0;
    scen->run(plan);
    finish_run();
}
static std::string run_one(u64 seed, const Replay *rp, bool trace, bool &bad) {
    // reset result header
    memset((void *)res, 0, offsetof(Result, dec));
    long pid = real_syscall(SYS_clone, SIGCHLD, 0, 0, 0, 0);
    if (pid == 0) { child(seed, rp, trace); _exit(0); }
    if (pid < 0) { fprintf(stderr, "fork failed %ld\n", pid); exit(90); }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    const char *status;
    if (res->status == 0) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { status = "timeout"; snprintf(res->tag, 32, "TIMEOUT"); snprintf(res->msg, 100, "wall clock limit of one run"); }
        else { status = "error"; snprintf(res->tag, 32, "SIMERROR"); snprintf(res->msg, 200, "child ended without result, wait status %x", st); }
    } else status = res->status == 1 ? "ok" : res->status == 2 ? "violation" : res->status == 3 ? "inconclusive" : "error";
    bad = strcmp(status, "ok") != 0;
    std::ostringstream o;
    o << "{\"seed\":" << seed << ",\"status\":\"" << status << "\",\"tag\":\"" << jesc(res->tag) << "\",\"msg\":\"" << jesc(res->msg)
      << "\",\"hash\":\"" << std::hex << res->hash << std::dec << "\",\"ndec\":" << res->ndec << ",\"vtime\":" << res->vtime / 1e9
      << ",\"steps\":" << res->steps << ",\"hooks\":" << res->counters[C_HOOK] << ",\"overflow\":" << res->dec_overflow << ",\"other\":[";
    for (u32 i = 0; i < res->nother; i++) o << (i ? "," : "") << "\"" << jesc(res->other[i]) << "\"";
    o << "],\"bt\":[";
    for (u32 i = 0; i < res->nbt; i++) o << (i ? "," : "") << "\"" << std::hex << res->bt[i] << std::dec << "\"";
    o << "]}";
    return o.str();
}
static void write_replay(const char *f, u64 seed, const std::set<int> &dis) {
    std::ofstream o(f);
    o << "scenario " << scen->name << "\nvariant " << run_variant << "\nseed " << seed << "\ntag " << res->tag << "\nnops " << res->nops << "\n";
        o << "disabled"; for (int d : dis) o << " " << d; o << "\n";
    for (u32 i = 0; i < res->ndec; i++) o << "dec " << kind_name[res->dec[i].kind] << " " << res->dec[i].idx << " " << res->dec[i].val << "\n";
}
static double wall() { struct timespec ts; real_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

int main(int argc, char **argv) {
    int p = personality(0xffffffff);
    if (!(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
        if (personality(p | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    setenv("UV_USE_IO_URING", "0", 1);
    std::string sname; bool trace = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--scenario") sname = argv[++i];
        else if (a == "--variant") run_variant = atoi(argv[++i]);
        else if (a == "--trace") trace = true;
        else if (a == "--tags") { std::stringstream ss(argv[++i]); std::string t; while (std::getline(ss, t, ',')) tags.push_back(t); }
    }
    for (auto &s : scenarios()) if (sname == s.name) scen = &s;
    if (!scen) { fprintf(stderr, "unknown scenario %s\n", sname.c_str()); return 2; }
    res = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    RAND_set_rand_method(&rm);
    OPENSSL_init_ssl(OPENSSL_INIT_LOAD_SSL_STRINGS | OPENSSL_INIT_LOAD_CRYPTO_STRINGS, nullptr);
    { SSL_CTX *c = SSL_CTX_new(TLS_method()); SSL *s = SSL_new(c); SSL_free(s); SSL_CTX_free(c); unsigned char b[8]; RAND_bytes(b, 8); ERR_clear_error(); }
    { uv_loop_t l; uv_loop_init(&l); uv_loop_close(&l); } // process-wide initialisation of libuv
    set_wanted(&tags);
    zygote_init();
    std::string line;
    bool bad;
    while (std::getline(std::cin, line)) {
        std::istringstream ss(line); std::string c; ss >> c;
        if (c == "R") { u64 s; ss >> s; std::cout << run_one(s, nullptr, trace, bad) << std::endl; }
        else if (c == "D") { u64 s; std::string f; ss >> s >> f; auto r = run_one(s, nullptr, trace, bad); write_replay(f.c_str(), s, {}); std::cout << r << std::endl; }
        else if (c == "P") {
            std::string f; ss >> f; Replay rp;
            if (!load_replay(f.c_str(), rp)) { std::cout << "{\"status\":\"error\",\"msg\":\"cannot read replay file\"}" << std::endl; continue; }
            if (rp.variant) run_variant = rp.variant;
            std::cout << run_one(rp.seed, &rp, trace, bad) << std::endl;
        }
        else if (c == "B") {
            u64 start, stride, cnt; double ms; int maxfail; std::string hf, sf; ss >> start >> stride >> cnt >> ms >> maxfail >> hf >> sf;
            double t0 = wall(); u64 runs = 0, fails = 0, inc = 0, tmo = 0, steps = 0; double vt = 0;
            u64 cs[C_NCOUNTERS] = {}, ks[K_NKINDS] = {}, runs_with[C_NCOUNTERS] = {}; std::map<std::string, u64> probes; std::map<std::string, u64> others;
            std::unordered_set<u64> hashes, states; std::vector<u64> hv;
            for (u64 i = 0; i < cnt && (wall() - t0) * 1000 < ms && (int)fails < maxfail && (sf.empty() || access(sf.c_str(), F_OK)); i++) {
                u64 seed = start + i * stride;
                auto r = run_one(seed, nullptr, false, bad);
                runs++; steps += res->steps; vt += res->vtime / 1e9;
                for (int k = 0; k < C_NCOUNTERS; k++) { cs[k] += res->counters[k]; runs_with[k] += res->counters[k] > 0; }
                for (int k = 0; k < K_NKINDS; k++) ks[k] += res->kindcount[k];
                for (u32 k = 0; k < res->nprobes; k++) probes[res->probes[k].name] += res->probes[k].n;
                for (u32 k = 0; k < res->nother; k++) others[std::string(res->other[k])]++;
                bool nontriv = res->counters[C_PREEMPT] > 0;
                for (int k = C_CASFAIL; k < C_NCOUNTERS; k++) nontriv |= res->counters[k] > 0;
                if (nontriv && hashes.insert(res->hash).second) hv.push_back(res->hash);
                if (res->state_hash) states.insert(res->state_hash);
                if (bad) {
                    if (res->status == 3) inc++;
                    else if (!strcmp(res->tag, "TIMEOUT")) tmo++;
                    else { fails++; std::cout << r << std::endl; }
                }
            }
            if (!hf.empty() && hf != "-") { std::ofstream o(hf, std::ios::binary); o.write((char *)hv.data(), hv.size() * 8); }
            std::cout << "{\"summary\":true,\"runs\":" << runs << ",\"fails\":" << fails << ",\"inconclusive\":" << inc << ",\"timeouts\":" << tmo << ",\"steps\":" << steps
                << ",\"vtime\":" << vt << ",\"wall\":" << wall() - t0 << ",\"distinct\":" << hashes.size() << ",\"states\":" << states.size() << ",\"counters\":{";
            for (int k = 0; k < C_NCOUNTERS; k++) std::cout << (k ? "," : "") << "\"" << counter_name[k] << "\":" << cs[k];
            std::cout << "},\"runs_with\":{";
            for (int k = 0; k < C_NCOUNTERS; k++) std::cout << (k ? "," : "") << "\"" << counter_name[k] << "\":" << runs_with[k];
            std::cout << "},\"probes\":{"; bool f = true;
            for (auto &kv : probes) { std::cout << (f ? "" : ",") << "\"" << jesc(kv.first.c_str()) << "\":" << kv.second; f = false; }
            std::cout << "},\"others\":{"; f = true;
            for (auto &kv : others) { std::cout << (f ? "" : ",") << "\"" << jesc(kv.first.c_str()) << "\":" << kv.second; f = false; }
            std::cout << "}}" << std::endl;
        }
        else if (c == "Q") break;
    }
    return 0;
}
