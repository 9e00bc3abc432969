// Deterministic simulator for salticidae: public interface used by kernel model and scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include <functional>

namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;

// ---- decisions -------------------------------------------------------------------------------
// Every nondeterministic choice is one call of decide(); it is recorded when it differs from its
// default, so that a replay file is the sparse list of non-default decisions.
enum Kind : int {
    K_NEXT, K_SLICE, K_CAS, K_SPUR, K_WAKE, K_LAT, K_SEG, K_SHORTW, K_SHORTR, K_EPORD, K_CONNIMM,
    K_RAND, K_NONCE, K_PORT, K_STALL,
    K_F_SOCKET, K_F_ACCEPT, K_F_SETSOCKOPT, K_F_FCNTL, K_F_CONNECT, K_F_BIND, K_F_EVENTFD, K_F_EPOLLCTL,
    K_F_RESET, K_F_LOSS, K_F_SYNDROP, K_F_EAGAIN, K_F_ALLOC, K_CRASHPT, K_APP, K_NKINDS
};
extern const char *kind_name[K_NKINDS];

struct Rng {
    u64 s[2];
    void seed(u64 x);
    u64 next();
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); } // inclusive
    double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    u64 logrange(u64 lo, u64 hi); // log-uniform, inclusive
};

extern Rng kind_rng[K_NKINDS];
u64 decide_slow(Kind k, u64 dflt, bool have, u64 val);
bool replaying();
// index lookup during replay; otherwise records val
template<typename F> inline u64 decide(Kind k, u64 dflt, F &&gen) {
    if (replaying()) return decide_slow(k, dflt, false, 0);
    return decide_slow(k, dflt, true, gen(kind_rng[k]));
}
inline bool coin(Kind k, double p) {
    return decide(k, 0, [p](Rng &r) -> u64 { return p > 0 && r.chance(p); }) != 0;
}

// ---- per-run swarm configuration --------------------------------------------------------------
struct Cfg {
    int policy = 0;           // 0 random, 1 sticky, 2 priority (PCT-like)
    double p_slice = 0.3;     // probability that a slice is bounded
    u64 slice_max = 300;      // max length of a bounded slice
    double p_cas = 0;         // spurious weak CAS failure
    double p_spur = 0;        // spurious condvar wake-up
    u64 syscall_ns = 1000, hook_ns = 3;
    u64 lat_ns = 50000;       // base one-way latency
    u64 lat_jit_ns = 100000;  // jitter
    double p_lat_long = 0;    // long latency spikes
    u64 lat_long_ns = 3000000;
    double p_loss = 0;        // "lost" segment: retransmitted after rto
    u64 rto_ns = 200000000;
    double p_seg = 0.3; u64 seg_max = 64;     // small segments
    double p_shortw = 0; double p_shortr = 0;
    u64 sndbuf = 65536, rcvbuf = 65536;
    double p_conn_imm = 0.1;
    double p_stall = 0; u64 stall_max_ns = 5000000; // thread stalls
    double p_f_socket = 0, p_f_accept = 0, p_f_setsockopt = 0, p_f_fcntl = 0, p_f_connect = 0, p_f_bind = 0,
           p_f_eventfd = 0, p_f_epollctl = 0, p_f_reset = 0, p_f_syndrop = 0, p_f_eagain = 0;
    int eph_ports = 20000;    // size of the ephemeral port range per node
    int fill = 0;             // malloc fill mode 0 zero 1 0xAA 2 0xFF 3 pseudo-random
    int quarantine = 64;      // freed blocks kept per size class before reuse
    double p_nonce_small = 0; // force few distinct handshake nonces
    int rand_mode = 0;        // 0 uniform, 1 extremes, 2 always the same
    bool ep_all = false;      // epoll_wait reports everything that is ready
    bool refuse_immediate = false; // connect to a dead port fails inside connect()
};
extern Cfg cfg;
extern bool faults_on;   // fault kinds fire only while set

// ---- results -----------------------------------------------------------------------------------
enum Counter : int {
    C_SWITCH, C_PREEMPT, C_SYSCALL, C_HOOK, C_CASFAIL, C_SPURWAKE, C_STALL, C_SHORTW, C_SHORTR, C_EAGAINW, C_SMALLSEG,
    C_LATSPIKE, C_LOSS, C_PARTITION, C_HEAL, C_RST, C_REFUSED, C_SYNDROP, C_CONNIMM, C_CONNERR, C_ACCEPTERR,
    C_SOCKETERR, C_SETSOCKOPTERR, C_FCNTLERR, C_BINDERR, C_EVENTFDERR, C_EPOLLERR, C_CRASH, C_RESTART, C_NONCETIE,
    C_PORTREUSE, C_ZEROWIN, C_CORRUPT, C_SIGPIPE, C_ALLOC, C_CLOCKJUMP, C_NCOUNTERS
};
extern const char *counter_name[C_NCOUNTERS];
void count(Counter c, u64 n = 1);
void probe(const char *name);            // "this rare condition was reached"
void violation(const char *tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool tag_wanted(const char *tag);
void finish_run() __attribute__((noreturn)); // end of run: publishes the result and leaves the process
void inconclusive(const char *why) __attribute__((noreturn));
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool trace_on;
void note(u64 a, u64 b = 0, u64 c = 0);  // mixes into the run's trace hash
void set_state_hash(u64 h);              // end-of-run/abstract state for the distinctness measure
extern u64 run_seed;
extern int run_variant;

// ---- threads, time -------------------------------------------------------------------------------
extern bool active;
u64 now();                       // ns of virtual time
int cur_node();
void set_node(int n);            // node of the calling thread (inherited by threads it creates)
int cur_fiber();
void yield();
void sleep_ns(u64 ns);
// poll until pred() or virtual deadline; returns pred()
bool wait_until(u64 deadline, u64 step_ns, const std::function<bool()> &pred);
void at(u64 t, std::function<void()> f);     // event in scheduler context at virtual time t
void block(void *addr, u64 deadline = 0);    // block current thread
void wake(void *addr, bool one = false);
void crash_node(int node, bool silent);      // freezes its threads, drops its sockets
bool node_dead(int node);
void spawn(int node, const char *name, std::function<void()> f); // detached thread
void stall_fiber(int f, u64 until);
int fiber_count();
void set_name(const char *n);
extern u64 g_steps;
u64 step_limit(u64 n);
void endless_means(const char *csv);           // the properties that a run without end violates (space separated)

struct Quiet { Quiet(); ~Quiet(); };          // no preemption inside (oracle code)
extern int insim;
struct InSim { InSim() { insim++; } ~InSim() { insim--; } };

// ---- network control ------------------------------------------------------------------------------
u32 node_ip(int node);                        // network byte order
void partition(int a, int b, bool on);        // both directions
void heal_all();
void node_silent(int node, bool on = true);                 // all traffic from/to node vanishes
void reset_conns_between(int a, int b);       // inject RST on established connections
bool conn_was_reset(u64 conn_id);             // a reset was injected into it
int open_fds(int node);                       // -1: all
std::string describe_fds();
bool any_conn_between(int a, int b, u32 pa, u32 pb);
int tcp_from(int node, int port);             // open sockets of a node with that local port, or the remote ends of such
u64 fd_bad_ops();
u64 node_rx_bytes(int node);                  // bytes a node read from its sockets
struct SockInfo { int fd; int node; u32 rip; uint16_t rport, lport; bool listening, established; u64 id; u64 peer_id; };
bool sock_info(int fd, SockInfo &out);
u64 sock_conn_id(int fd);                     // id of the TCP connection (same on both ends), 0 if none
bool conn_nodes(u64 conn_id, int &active, int &passive); // which nodes it connects
void capture_streams(bool on);                // keep what each end passed to the kernel
std::string sent_stream(u64 conn_id, bool active_end);
struct ConnectLog { u64 t; int node; u32 ip; uint16_t port; u64 sock; };
const std::vector<ConnectLog> &connect_log(); // every connect() call that reached the network
u64 wall_realtime_offset(int64_t delta_ns);   // realtime clock jump

// ---- memory ---------------------------------------------------------------------------------------
struct MemStat { u64 live_blocks, live_bytes, total; };
MemStat mem_user();                           // allocations made outside sim code
std::string symbolize_here(int skip);

// ---- scenarios --------------------------------------------------------------------------------------
struct Op { int kind; u64 t; int node; u64 a[6]; };
struct Plan {
    std::vector<Op> ops;
    std::vector<char> enabled;
};
struct Scenario {
    const char *name;
    void (*gen)(Plan &, Rng &);
    void (*run)(Plan &);
    std::string (*opname)(const Op &);
};
void register_scenario(const Scenario &);
struct RegScenario { RegScenario(const Scenario &s) { register_scenario(s); } };
void default_swarm(Rng &r);                  // fills cfg with a random swarm configuration
}
