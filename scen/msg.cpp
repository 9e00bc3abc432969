// Message network scenario (plain and TLS): C01 C02 C03 C04 C05 C16 C17 C18
#include "scen/common.h"
#include "salticidae/network.h"
#include <memory>
#include <arpa/inet.h>
using namespace scen; using namespace sim;
using salticidae::EventContext; using salticidae::NetAddr; using salticidae::DataStream; using salticidae::TimerEvent;
using salticidae::ConnPool; using salticidae::bytearray_t;
typedef salticidae::MsgNetwork<uint8_t> Net;

// ---- configuration of a run (from the seed) -------------------------------------------------------
enum { OP_CONN_SYNC, OP_CONN_ASYNC, OP_SEND, OP_TERM, OP_STALL, OP_RESET, OP_PART, OP_STOP, OP_FAULT, OP_RELISTEN, OP_DEFER, OP_STORM, OP_NOPS };
static bool tls; static int nnodes; static bool with_faults, with_stops, with_refuse, bounded_send, raw_empty;
static size_t max_msg, chunk, recvbuf, sendbuf, msgq, burst; static int nworker[4], backlog; static double conn_to; static double p_echo;
static u64 horizon; static Cfg swarm0;
static bool dead_ends; static u64 max_excess = 0, slack_ns = 400 * MS;
static bool stop_in_loop, stop_early_mode, hold_refs, cert_objs, small_end; static int verify_reject = -1; static u32 magic;

static const char *certdir() { return CERT_DIR; }

static void gen(Plan &p, Rng &r) {
    tls = run_variant & 1; with_faults = (run_variant & 2) ? r.chance(0.9) : false; with_stops = (run_variant & 4) ? r.chance(0.9) : r.chance(0.15);
    nnodes = r.chance(0.7) ? 2 : 3;
    max_msg = r.chance(0.3) ? 64 : r.logrange(32, 4000);
    chunk = r.chance(0.3) ? r.logrange(1, 16) : r.logrange(16, 4096);
    recvbuf = r.chance(0.4) ? 4096 : r.range(1, 12);
    bounded_send = r.chance(0.5); sendbuf = bounded_send ? r.range(1, 24) : 0;
    msgq = r.chance(0.4) ? 65536 : r.range(1, 16);
    if (msgq == 65536) msgq = 256; // the block count, not the magnitude, is what matters
    burst = r.chance(0.3) ? 1000 : r.range(1, 5);
    for (auto &w : nworker) w = r.range(1, 3);
    backlog = r.chance(0.7) ? 10 : r.range(1, 2);
    conn_to = r.chance(0.5) ? 2 : 0.05 * r.range(1, 20);
    p_echo = r.chance(0.4) ? 0.3 * r.real() : 0;
    with_refuse = tls && r.chance(0.4);
    stop_in_loop = r.chance(0.3); hold_refs = r.chance(0.3); raw_empty = r.chance(0.15);
    dead_ends = r.chance(0.3);
    horizon = r.logrange(2, 400) * MS;
    if (chunk < 16 && max_msg > 600) max_msg = 600;
    cert_objs = tls && r.chance(0.4); magic = r.chance(0.5) ? 0 : (u32)r.next(); if (tls && nnodes == 3 && r.chance(0.12)) verify_reject = r.below(3);
    small_end = tls && conn_to >= 1 && r.chance(0.3);
    if (tls && r.chance(0.1)) { max_msg = r.range(16300, 40000); chunk = r.logrange(1000, 20000); cfg.sndbuf = std::max<u64>(cfg.sndbuf, 3000); cfg.rcvbuf = std::max<u64>(cfg.rcvbuf, 3000); cfg.seg_max = std::max<u64>(cfg.seg_max, 1000); cfg.lat_ns = std::min<u64>(cfg.lat_ns, 1 * MS); cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 1 * MS); probe("tls_big"); }
    int nops = r.range(4, 26);
    bool resets = r.chance(0.35), parts = r.chance(0.25), stalls = r.chance(0.5), terms = r.chance(0.5);
    for (int i = 0; i < nops; i++) {
        Op o{}; o.t = r.below(horizon); o.node = r.below(nnodes);
        for (auto &x : o.a) x = r.next();
        int tries = 0;
        again:
        switch (r.below(16)) {
            case 0: case 1: case 2: o.kind = r.chance(0.6) ? OP_CONN_SYNC : OP_CONN_ASYNC; break;
            default: o.kind = OP_SEND; break;
            case 9: case 10: o.kind = r.chance(0.7) ? OP_DEFER : r.chance(0.4) ? OP_STORM : OP_SEND; break;
            case 11: o.kind = OP_TERM; if (!terms) goto again; break;
            case 12: o.kind = OP_STALL; if (!stalls) goto again; break;
            case 13: o.kind = OP_RESET; if (!resets) goto again; break;
            case 14: o.kind = OP_PART; if (!parts) goto again; break;
            case 15:
                if (with_faults && r.chance(0.8)) { o.kind = r.chance(0.8) ? OP_FAULT : OP_RELISTEN; break; }
                if (with_stops && r.chance(0.5)) { o.kind = OP_STOP; break; }
                if (tries++ < 5) goto again;
        }
        if (i == 0) { o.kind = OP_CONN_SYNC; o.t = r.below(horizon / 4 + 1); }
        if (with_faults && i == 1) o.kind = OP_FAULT;
        if (with_stops && i == 2) o.kind = OP_STOP;
        p.ops.push_back(o);
    }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    cfg.p_f_socket = cfg.p_f_accept = 0;
    // keep the number of scheduling steps bounded
    if (chunk < 16 || cfg.seg_max < 8) { cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 100000); cfg.lat_ns = std::min<u64>(cfg.lat_ns, 100000); }
    if (tls) { cfg.slice_max = std::max<u64>(cfg.slice_max, 200); if (cfg.p_seg > 0 && cfg.seg_max < 24) cfg.seg_max = 24; }
}
static std::string opname(const Op &o) {
    static const char *n[] = {"connect_sync", "connect", "send", "terminate", "loop-stall", "reset", "partition", "stop", "fault-burst", "relisten", "deferred-sends", "storm"};
    char b[200]; snprintf(b, sizeof b, "%s a0=%llu a1=%llu a2=%llu a3=%llu", n[o.kind], (unsigned long long)o.a[0] % 1000, (unsigned long long)o.a[1] % 1000, (unsigned long long)o.a[2] % 1000, (unsigned long long)o.a[3] % 1000);
    return b;
}

// ---- oracle state ------------------------------------------------------------------------------------
enum { THR_LOOP = 0, THR_DISP = 1, THR_EXEC0 = 2, NTHR = 5, THR_DEF0 = 8 };
struct Flow { // messages of one thread on one connection end
    std::vector<u32> attempt;      // accepted or in progress: attempt number by sequence number
    std::vector<char> refused, received;
    u32 nrecv = 0; u32 attempts = 0;
    int pending = -1;              // sequence number of a call in progress
};
struct DFlow { std::vector<int> id; std::vector<char> received; long last = -1; }; // deferred sends of one thread on one connection end
struct Rec {
    int uid, node, inst; int mode = -1; u64 tcp = 0; int peer = -1;
    int ncon = 0, ndisc = 0; bool accepted = false, refused = false, destroyed = false, net_gone = false;
    u64 t_created = 0, t_res = 0, t_disc = 0; u64 nil_sent = 0, nil_recv = 0; u32 tiny_sent[16] = {}, tiny_recv[16] = {}; u64 hrecv = 0, hrecvb = 0, sok = 0, satt = 0, sokb = 0, sattb = 0; int asked = -1; bool app_term = false; bool vetted = false;
    u64 port = 0; bool is_active = false; bool stopped = false; bool attempt_checked = false;
    Flow flow[NTHR]; DFlow dflow[4];
    std::set<u32> refused_attempts[NTHR];
};
static std::vector<Rec *> *recs; static std::map<u64, std::vector<int>> *by_tcp;
static u64 progress = 0;
static int live_objs = 0, nrestarts = 0;

struct TConn : public Net::Conn {
    Rec *rec;
    TConn() {
        Quiet _; rec = new Rec(); rec->uid = recs->size(); rec->node = cur_node(); rec->t_created = now(); recs->push_back(rec); live_objs++; tracef("conn %d created", rec->uid);
    }
    ~TConn() { Quiet _; rec->mode = mode; tracef("conn %d destroyed", rec->uid); if (rec->destroyed) violation("C16", "connection object %d destroyed twice", rec->uid); rec->destroyed = true; live_objs--; }
    int get_fd() const { return fd; }
    bool empty_write() { return write(bytearray_t()); }
};
typedef salticidae::ArcObj<TConn> tconn_t;
static TConn *tc(const ConnPool::conn_t &c) { return static_cast<TConn *>(c.get()); }

struct Data { static const uint8_t opcode; DataStream serialized; bytearray_t bytes;
    Data(bytearray_t &&b): serialized(std::move(b)) {} Data(DataStream &&s): bytes(std::move(s)) {} };
struct Data2 { static const uint8_t opcode; DataStream serialized; bytearray_t bytes;
    Data2(bytearray_t &&b): serialized(std::move(b)) {} Data2(DataStream &&s): bytes(std::move(s)) {} };
struct Tiny { static const uint8_t opcode; DataStream serialized; bytearray_t bytes; Tiny(bytearray_t &&b): serialized(std::move(b)) {} Tiny(DataStream &&s): bytes(std::move(s)) {} };
struct Nil { static const uint8_t opcode; DataStream serialized; Nil() {} Nil(DataStream &&) {} };
const uint8_t Tiny::opcode = 0x7f; const uint8_t Data::opcode = 0x01; const uint8_t Data2::opcode = 0xfe; const uint8_t Nil::opcode = 0x00;

static u32 h32(u32 a, u32 b, u32 c) { u64 x = a * 0x9e3779b97f4a7c15ULL + b * 0xc2b2ae3d27d4eb4fULL + c * 0x165667b19e3779f9ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32; return (u32)x; }
static bytearray_t make_payload(u32 uid, u32 thr, u32 seq, u32 att, size_t len) {
    if (len < 16) len = 16;
    bytearray_t b(len);
    u32 hd[4] = {uid, thr | (att << 8), seq, (u32)len}; memcpy(b.data(), hd, 16);
    u32 x = h32(uid, thr * 7919 + seq, att) | 1;
    for (size_t i = 16; i < len; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; b[i] = x; }
    return b;
}
static u64 msgs_ok = 0, msgs_accepted = 0;
static const char *MT() { return tls ? "C03" : "C01"; }
static const char *LT() { return tls ? "C03" : "C02"; }

struct Node;
static void on_msg(Node *n, const bytearray_t &b, uint8_t op, const ConnPool::conn_t &c);

class TestNet : public Net {
    public:
    int inst; int node;
    TestNet(const EventContext &ec, const Config &c, int node, int inst): Net(ec, c), inst(inst), node(node) {}
    ConnPool::Conn *create_conn() override { auto c = new TConn(); Quiet _; c->rec->inst = inst; return c; }
    void on_worker_setup(const ConnPool::conn_t &c) override {
        { Quiet _; auto t = tc(c); t->rec->tcp = sock_conn_id(t->get_fd()); t->rec->mode = c->get_mode(); if (t->rec->tcp) (*by_tcp)[t->rec->tcp].push_back(t->rec->uid); }
        Net::on_worker_setup(c);
    }
};
struct Node {
    int id; int inst = 0;
    EventContext *ec = nullptr; TestNet *net = nullptr; bool up = false, started = false, want_stop = false, done = false, listening = false; int busy = 0;
    int loop_fiber = -1; int in_cb = 0; u64 stall = 0; int fatal = 0; bool stopped = false; bool destroyed_net = false;
    std::vector<ConnPool::conn_t> held; // what the application keeps
    std::map<int32_t, int> err; int nerr = 0; std::set<int32_t> async_ids; int n_sync_ok = 0, n_async = 0; std::set<int32_t> conn_ids;
    NetAddr addr;
};
static std::vector<Node *> *nodes; static bool ending = false; static int fault_depth = 0;

static void cb_enter(Node *n, const char *what, int inst) {
    Quiet _;
    if (n->net == nullptr || n->inst != inst) violation("C17", "%s runs after its network was destroyed", what);
    if (cur_fiber() != n->loop_fiber) violation("C05", "%s runs on another thread than the event loop's", what);
    if (n->in_cb) violation("C05", "%s runs inside another callback", what);
    n->in_cb++;
}
static void cb_leave(Node *n) { n->in_cb--; }

// returns whether it was accepted
static bool do_send(Node *n, const ConnPool::conn_t &c, int thr, size_t size, int kindsel) {
    auto t = tc(c); Rec *r = t->rec; auto &f = r->flow[thr];
    u32 seq, att;
    if (kindsel == 7) {
        { Quiet _; r->nil_sent++; r->satt++; }
        bool ok = n->net->send_msg(Nil(), salticidae::static_pointer_cast<Net::Conn>(c));
        Quiet _; if (!ok) r->nil_sent--; else r->sok++;
        return ok;
    }
    if (kindsel == 6) { // payloads of a few bytes
        u32 len = 1 + size % 15; { Quiet _; r->tiny_sent[len]++; r->satt++; r->sattb += len; }
        bool ok = n->net->send_msg(Tiny(bytearray_t(len, (uint8_t)(len * 17))), salticidae::static_pointer_cast<Net::Conn>(c));
        Quiet _; if (!ok) r->tiny_sent[len]--; else { r->sok++; r->sokb += len; }
        return ok;
    }
    bytearray_t b;
    { Quiet _; seq = f.attempt.size(); att = f.attempts++; f.attempt.push_back(att); f.refused.push_back(0); f.received.push_back(0); f.pending = seq;
      b = make_payload(r->uid, thr, seq, att, size); }
    size_t blen = b.size(); { Quiet _; r->satt++; r->sattb += blen; }
    bool ok;
    auto cc = salticidae::static_pointer_cast<Net::Conn>(c);
    if (h32(r->uid, seq, att) & 1) ok = n->net->send_msg(Data(std::move(b)), cc);
    else ok = n->net->send_msg(Data2(std::move(b)), cc);
    Quiet _; f.pending = -1;
    if (!ok) {
        probe("send_refused");
        if (!sendbuf) violation(LT(), "send on a connection with an unbounded send buffer was refused");
        if (f.received[seq]) violation(MT(), "a message whose send was refused was delivered (conn %d thread %d seq %u)", r->uid, thr, seq);
        f.attempt.pop_back(); f.refused.pop_back(); f.received.pop_back(); r->refused_attempts[thr].insert(att);
    } else { msgs_accepted++; r->sok++; r->sokb += blen; }
    return ok;
}
static void do_defer(Node *n, const ConnPool::conn_t &c, int thr, size_t size) {
    Rec *r = tc(c)->rec; auto &f = r->dflow[thr]; u32 seq; bytearray_t b;
    { Quiet _; seq = f.id.size(); f.id.push_back(-1); f.received.push_back(0); b = make_payload(r->uid, THR_DEF0 + thr, seq, 0, size); r->satt++; r->sattb += b.size(); }
    auto cc = salticidae::static_pointer_cast<Net::Conn>(c); int32_t id;
    if (h32(r->uid, seq, 0) & 1) id = n->net->send_msg_deferred(Data(std::move(b)), cc);
    else id = n->net->send_msg_deferred(Data2(std::move(b)), cc);
    Quiet _; if (!n->async_ids.insert(id).second) violation("C11", "request id %d used twice", id); f.id[seq] = id;
}
static void on_msg(Node *n, const bytearray_t &b, uint8_t op, const ConnPool::conn_t &c) {
    Quiet _;
    Rec *r = tc(c)->rec;
    progress++; r->hrecv++; r->hrecvb += b.size();
    if (n->stopped) violation("C17", "message handler runs after stop()");
    if (tls && !r->vetted) violation("C04", "message delivered on connection %d before the connection callback accepted it", r->uid);
    if (tls && r->refused) violation("C04", "message delivered on refused connection %d", r->uid);
    if (r->node != n->id || r->inst != n->inst) violation(MT(), "message attributed to a connection of another network");
    if (op == Nil::opcode) { r->nil_recv++; if (!b.empty()) violation(MT(), "empty message arrived with payload");
        if (r->peer >= 0 && r->nil_recv > (*recs)[r->peer]->nil_sent) violation(MT(), "empty message duplicated"); return; }
    if (op == Tiny::opcode) {
        size_t l = b.size(); if (l < 1 || l > 15 || b != bytearray_t(l, (uint8_t)(l * 17))) { violation(MT(), "corrupted short payload"); return; }
        r->tiny_recv[l]++; if (r->peer >= 0 && r->tiny_recv[l] > (*recs)[r->peer]->tiny_sent[l]) violation(MT(), "short message duplicated or invented");
        return; }
    if (b.size() < 16) { violation(MT(), "truncated payload of %zu bytes", b.size()); return; }
    u32 hd[4]; memcpy(hd, b.data(), 16); u32 uid = hd[0], thr = hd[1] & 0xff, att = hd[1] >> 8, seq = hd[2];
    if (hd[3] != b.size() || uid >= recs->size() || !(thr < NTHR || (thr >= THR_DEF0 && thr < THR_DEF0 + 4))) { violation(MT(), "corrupted payload"); return; }
    if (b != make_payload(uid, thr, seq, att, b.size())) { violation(MT(), "payload bytes corrupted (conn %u thread %u seq %u)", uid, thr, seq); return; }
    if (op != ((h32(uid, seq, att) & 1) ? Data::opcode : Data2::opcode)) violation(MT(), "opcode changed");
    Rec *s = (*recs)[uid];
    if (s == r) violation(MT(), "message came back to its sender");
    if (s->tcp && r->tcp && s->tcp != r->tcp) violation(MT(), "message of connection %d delivered on connection %d", s->uid, r->uid);
    if (r->peer < 0) r->peer = uid;
    else if (r->peer != (int)uid) violation(MT(), "connection %d delivers messages of connections %d and %u", r->uid, r->peer, uid);
    if (s->peer < 0) s->peer = r->uid;
    else if (s->peer != r->uid) violation(MT(), "messages of connection %u delivered on connections %d and %d", uid, s->peer, r->uid);
    if (thr >= THR_DEF0) {
        auto &f = s->dflow[thr - THR_DEF0];
        if (seq >= f.id.size()) { violation(MT(), "message never sent (conn %u deferred thread %u seq %u)", uid, thr, seq); return; }
        if (f.received[seq]) violation(MT(), "duplicate message (conn %u deferred thread %u seq %u)", uid, thr, seq);
        if ((long)seq < f.last) violation("C11", "deferred sends of one thread took effect out of order (conn %u seq %u after %ld)", uid, seq, f.last);
        f.last = seq; f.received[seq] = 1; msgs_ok++; return;
    }
    auto &f = s->flow[thr];
    if (s->refused_attempts[thr].count(att)) violation(MT(), "a message whose send was refused was delivered");
    if (seq >= f.attempt.size() || f.attempt[seq] != att) { violation(MT(), "message never sent (conn %u thread %u seq %u attempt %u)", uid, thr, seq, att); return; }
    if (seq < f.nrecv) violation(MT(), "duplicate message (conn %u thread %u seq %u)", uid, thr, seq);
    if (seq > f.nrecv) violation(MT(), "gap: conn %u thread %u expected seq %u, got %u", uid, thr, f.nrecv, seq);
    f.nrecv = seq + 1; f.received[seq] = 1; msgs_ok++;
    note(600, uid, seq * 8 + thr);
}
static bool conn_cb(Node *n, int inst, const ConnPool::conn_t &c, bool connected) {
    cb_enter(n, "connection callback", inst);
    bool ret = true;
    {
        Quiet _; Rec *r = tc(c)->rec; progress++; r->mode = c->get_mode();
        if (r->mode == ConnPool::Conn::ACTIVE && !r->ncon && !r->ndisc) {
            u64 lim = (u64)(conn_to * 1e9) * (tls ? 2 : 1), d = now() - r->t_created;
            if (d > lim) max_excess = std::max(max_excess, d - lim);
            if (d > lim + slack_ns + (swarm0.p_stall > 0 ? 8 * swarm0.stall_max_ns : 0)) violation("C05", "connection attempt %d ended after %.3f s, with a timeout of %.3f s", r->uid, d / 1e9, conn_to);
        }
        note(601, r->uid, connected); tracef("conn %d (tcp %llu): %s", r->uid, (unsigned long long)r->tcp, connected ? "connected" : "disconnected");
        { int a, p; if (r->tcp && conn_nodes(r->tcp, a, p)) {
            if (r->mode == ConnPool::Conn::ACTIVE ? n->id != a : n->id != p) violation("C22", "connection %d reports the wrong mode", r->uid);
            else if (r->mode == ConnPool::Conn::ACTIVE ? !(c->get_addr() == (p < nnodes ? (*nodes)[p]->addr : c->get_addr())) : c->get_addr().ip != node_ip(a)) violation("C22", "connection %d reports the address %s, which is not its remote's", r->uid, std::string(c->get_addr()).c_str()); } }
        if (!connected && !c->is_terminated()) violation("C22", "connection %d is reported disconnected but says it is not terminated", r->uid);
        if (connected) {
            if (r->ndisc) violation("C05", "'connected' callback of connection %d after its 'disconnected' callback", r->uid);
            if (r->ncon++) violation("C05", "second 'connected' callback of connection %d", r->uid);
            r->t_res = now();
            if (with_refuse) ret = !coin(K_APP, 0.3);
            if (tls) {
                auto cert = c->get_peer_cert();
                int other = -1;
                for (int u : (*by_tcp)[r->tcp]) if (u != r->uid) other = (*recs)[u]->node;
                if (!cert) violation("C04", "no certificate shown to the connection callback");
                else if (other >= 0) {
                    static std::map<int, bytearray_t> *certs = new std::map<int, bytearray_t>();
                    if (!certs->count(other)) (*certs)[other] = salticidae::X509::create_from_pem_file(std::string(certdir()) + "/n" + std::to_string(other) + ".crt").get_der();
                    if (cert->get_der() != (*certs)[other]) violation("C04", "certificate shown to the callback is not the remote's (connection %d)", r->uid);
                }
                if (verify_reject >= 0 && other == verify_reject && n->id != other) violation("C04", "connection %d is reported connected although the verification callback rejected its certificate", r->uid);
                if (!ret) { r->refused = true; probe("tls_refused"); } else r->vetted = true;
            } else r->vetted = true;
            n->held.push_back(c);
        } else {
            if (r->ndisc++) violation("C05", "second 'disconnected' callback of connection %d", r->uid);
            r->t_disc = now();
            if (!r->t_res) r->t_res = now();
            for (size_t i = 0; i < n->held.size(); i++) if (n->held[i].get() == c.get()) { if (!hold_refs) { n->held.erase(n->held.begin() + i); } break; }
        }
    }
    if (connected && ret && coin(K_APP, 0.2)) do_send(n, c, THR_LOOP, 20, 0);
    cb_leave(n);
    return ret;
}
static int verify_cb(int, X509_STORE_CTX *ctx) {
    Quiet _; auto x = X509_STORE_CTX_get_current_cert(ctx); if (!x) return 0; X509_up_ref(x); auto der = salticidae::X509(x).get_der();
    static bytearray_t *bad = nullptr; if (!bad) bad = new bytearray_t(salticidae::X509::create_from_pem_file(std::string(certdir()) + "/n" + std::to_string(verify_reject) + ".crt").get_der());
    if (der == *bad) { probe("verify_rejected"); return 0; } return 1;
}
static void sleep_quiet(u64 ns) { sleep_ns(ns); }

static void node_main(Node *n) {
    n->loop_fiber = cur_fiber();
    n->ec = new EventContext();
    int inst = n->inst;
    Net::Config c;
    ConnPool::Config &pc = c;
    pc.max_listen_backlog(backlog).conn_server_timeout(conn_to).recv_chunk_size(chunk).nworker(nworker[n->id]).max_recv_buff_size(recvbuf).max_send_buff_size(sendbuf);
    std::string cf = std::string(certdir()) + "/n" + std::to_string(n->id);
    if (tls) {
        pc.enable_tls(true);
        if (cert_objs) pc.tls_cert(new salticidae::X509(salticidae::X509::create_from_pem_file(cf + ".crt"))).tls_key(new salticidae::PKey(salticidae::PKey::create_privkey_from_pem_file(cf + ".key")));
        else pc.tls_cert_file(cf + ".crt").tls_key_file(cf + ".key");
        if (verify_reject >= 0) pc.tls_skip_ca_check(false).tls_verify_callback(verify_cb);
    }
    if (magic) c.msg_magic(magic).max_msg_size(max_msg); c.max_msg_size(max_msg).max_msg_queue_size(msgq).burst_size(burst);
    n->net = new TestNet(*n->ec, c, n->id, inst);
    n->net->reg_handler([n, inst](Data &&m, const Net::conn_t &conn) {
        cb_enter(n, "message handler", inst); on_msg(n, m.bytes, Data::opcode, conn);
        if (p_echo > 0 && coin(K_APP, p_echo)) do_send(n, conn, THR_LOOP, 16 + m.bytes.size() / 2, 0);
        cb_leave(n); });
    n->net->reg_handler([n, inst](Data2 &&m, const Net::conn_t &conn) { cb_enter(n, "message handler", inst); on_msg(n, m.bytes, Data2::opcode, conn); cb_leave(n); });
    n->net->reg_handler([n, inst](Tiny &&m, const Net::conn_t &conn) { cb_enter(n, "message handler", inst); on_msg(n, m.bytes, Tiny::opcode, conn); cb_leave(n); });
    n->net->reg_handler([n, inst](Nil &&, const Net::conn_t &conn) { cb_enter(n, "message handler", inst); on_msg(n, bytearray_t(), Nil::opcode, conn); cb_leave(n); });
    n->net->reg_conn_handler([n, inst](const ConnPool::conn_t &conn, bool connected) { return conn_cb(n, inst, conn, connected); });
    n->net->reg_error_handler([n, inst](const std::exception_ptr e, bool fatal, int32_t id) {
        cb_enter(n, "error callback", inst);
        { Quiet _; n->nerr++; if (id >= 0) { n->err[id]++; if (n->err[id] > 1) violation("C11", "two errors for request %d", id); }
          std::string w; try { std::rethrow_exception(e); } catch (std::exception &x) { w = x.what(); } catch (...) { w = "?"; }
          tracef("error callback: fatal=%d id=%d %s", fatal, id, w.c_str());
          if (fatal) { n->fatal++; violation(fault_depth || with_faults ? "C18" : "C12", "fatal error raised: %s", w.c_str()); } }
        cb_leave(n);
    });
    n->net->start(); n->started = true;
    for (int k = 0; k < 50; k++) {
        try { n->net->listen(n->addr); n->listening = true; break; }
        catch (std::exception &e) { if (!with_faults) { Quiet _; violation("C18", "listen failed without an injected fault: %s", e.what()); } sleep_ns(2 * MS); }
    }
    TimerEvent *ctl = new TimerEvent(*n->ec, nullptr);
    ctl->set_callback([n, ctl](TimerEvent &) {
        if (n->stall) { u64 s = n->stall; n->stall = 0; sleep_quiet(s); }
        if (n->want_stop && n->busy == 0) {
            if (stop_in_loop) { u64 t0 = now(); n->net->stop(); Quiet _; n->stopped = true; if (now() - t0 > 20 * SEC) violation("C17", "stop() took %.1f s", (now() - t0) / 1e9); }
            n->ec->stop(); return;
        }
        ctl->add(0.001);
    });
    ctl->add(0.001);
    n->up = true;
    n->ec->dispatch();
    n->up = false;
    u64 t0 = now();
    if (!n->stopped && coin(K_APP, 0.7)) { n->net->stop(); Quiet _; n->stopped = true; }
    delete ctl;
    if (n->stopped) { std::vector<ConnPool::conn_t> hs; { Quiet _; hs = n->held; for (auto &c : hs) if (!c->is_terminated()) { violation("C17", "connection %d says it is not terminated after its network was stopped", tc(c)->rec->uid); break; } }
        if (!hs.empty() && coin(K_APP, 0.3)) n->net->send_msg(Nil(), salticidae::static_pointer_cast<Net::Conn>(hs[0])); // goes nowhere
        { std::vector<ConnPool::conn_t> x; { Quiet _; x.swap(hs); } x.clear(); } }
    bool drop_after;
    { Quiet _; for (auto r : *recs) if (r->node == n->id && r->inst == inst) r->stopped = true; }
    drop_after = coin(K_APP, 0.4);
    std::vector<ConnPool::conn_t> keep;
    if (drop_after) { Quiet _; keep.swap(n->held); } else { std::vector<ConnPool::conn_t> x; { Quiet _; x.swap(n->held); } x.clear(); }
    delete n->net;
    { Quiet _; n->net = nullptr; n->stopped = true; if (now() - t0 > 20 * SEC) violation("C17", "stop/destruction took %.1f s", (now() - t0) / 1e9); }
    keep.clear();
    delete n->ec; n->ec = nullptr;
    { Quiet _;
      for (auto r : *recs) if (r->node == n->id && r->inst == inst) { r->net_gone = true; if (!r->destroyed) violation("C16", "connection object %d still exists after its network was destroyed and no reference is left", r->uid); }
      if (open_fds(n->id)) violation("C16", "%d descriptors still open after the network was destroyed: %s", open_fds(n->id), describe_fds().c_str());
      n->done = true; progress++; }
}
static void start_node(Node *n) {
    Quiet _; n->inst++; n->want_stop = n->done = n->up = n->started = n->stopped = n->listening = false; n->in_cb = 0; n->err.clear(); n->async_ids.clear(); n->conn_ids.clear(); n->n_sync_ok = n->n_async = 0; n->stall = 0;
    spawn(n->id, ("node" + std::to_string(n->id)).c_str(), [n] { node_main(n); });
}
struct Busy { Node *n; bool ok; Busy(Node *n): n(n) { Quiet _; ok = n->up && !n->want_stop && n->net; if (ok) n->busy++; } ~Busy() { Quiet _; if (ok) n->busy--; } };

// where a connection attempt goes: mostly another node, at times a host that never answers or (TLS) one that accepts but stays silent
static NetAddr dest(const Op &o) {
    if (dead_ends && o.a[5] % 4 == 0) return NetAddr(node_ip(tls && o.a[5] % 8 == 0 ? 6 : 7), htons(9000));
    return (*nodes)[(o.node + 1 + o.a[0] % (nnodes - 1)) % nnodes]->addr;
}
static void cut_dead_end() { for (int i = 0; i < nnodes; i++) partition(i, 7, true); }
static ConnPool::conn_t pick(Node *n, u64 sel) { Quiet _; if (n->held.empty()) return ConnPool::conn_t(); return n->held[sel % n->held.size()]; }

static void exec_op(const Op &o, int thr) {
    Node *n = (*nodes)[o.node];
    Busy b(n); if (!b.ok) return;
    switch (o.kind) {
        case OP_CONN_SYNC: {
            try {
                auto c = n->net->connect_sync(dest(o)); { Quiet _; n->n_sync_ok++; }
                int k = o.a[1] % 4; // send before it is known to be connected
                for (int i = 0; i < k; i++) do_send(n, salticidae::static_pointer_cast<ConnPool::Conn>(c), thr, std::min<size_t>(16 + (o.a[2] >> i) % 100, max_msg), 0);
                if (o.a[3] % 8 == 0) { n->net->terminate(salticidae::static_pointer_cast<ConnPool::Conn>(c)); Quiet _; tc(salticidae::static_pointer_cast<ConnPool::Conn>(c))->rec->app_term = true; }
            } catch (std::exception &e) { Quiet _; probe("connect_sync_threw"); if (!with_faults && !strstr(e.what(), "")) violation("C18", "connect_sync failed: %s", e.what()); }
            break; }
        case OP_CONN_ASYNC: {
            int k = 1 + o.a[1] % 3;
            for (int i = 0; i < k; i++) { 
                { Quiet _; n->n_async++; }
                auto id = n->net->connect(dest(o));
                Quiet _; if (!n->async_ids.insert(id).second) violation("C11", "request id %d used twice", id); n->conn_ids.insert(id); }
            break; }
        case OP_SEND: {
            auto c = pick(n, o.a[0]); if (!c) break;
            int k = 1 + o.a[1] % 8; size_t cap = max_msg;
            for (int i = 0; i < k; i++) {
                size_t sz = 16 + (o.a[2] >> (i * 3)) % (o.a[3] % 3 == 0 ? 48 : cap);
                if (sz > max_msg) sz = max_msg;
                int kind = (o.a[4] >> i) % 12 == 0 ? 7 : (o.a[4] >> i) % 12 == 5 ? 6 : 0;
                if (raw_empty && (o.a[5] >> i) % 6 == 0) { tc(c)->empty_write(); probe("empty_write"); }
                for (int tries = 0; tries < 3 && !do_send(n, c, thr, sz, kind); tries++) if (coin(K_APP, 0.5)) sleep_ns(20 * US);
            }
            c = ConnPool::conn_t();
            break; }
        case OP_DEFER: {
            auto c = pick(n, o.a[0]); if (!c) break;
            int k = 1 + o.a[1] % 8;
            for (int i = 0; i < k; i++) do_defer(n, c, thr - THR_EXEC0, std::min<size_t>(max_msg, 16 + (o.a[2] >> (i * 3)) % 200));
            break; }
        case OP_STORM: { // more requests than the dispatcher takes in one go, among them the end of a connection being set up
            int t = (o.node + 1 + o.a[0] % (nnodes - 1)) % nnodes;
            try {
                auto c0 = n->net->connect_sync((*nodes)[t]->addr); { Quiet _; n->n_sync_ok++; }
                auto c = salticidae::static_pointer_cast<ConnPool::Conn>(c0);
                int k = o.a[1] % 3 ? 120 + o.a[2] % 12 : o.a[2] % 300;
                for (int i = 0; i < k; i++) do_defer(n, c, thr - THR_EXEC0, 16);
                if (o.a[3] % 4) { { Quiet _; tc(c)->rec->app_term = true; } n->net->terminate(c); }
                k = o.a[4] % 10;
                for (int i = 0; i < k; i++) do_defer(n, c, thr - THR_EXEC0, 16);
            } catch (std::exception &e) { probe("connect_sync_threw"); }
            break; }
        case OP_TERM: { auto c = pick(n, o.a[0]); if (!c) break; { Quiet _; tc(c)->rec->app_term = true; } n->net->terminate(c); break; }
        case OP_STALL: { Quiet _; n->stall = (1 + o.a[0] % 200) * 100 * US; break; }
        case OP_RELISTEN: { try { n->net->listen(n->addr); } catch (std::exception &) { probe("relisten_threw"); Quiet _; n->listening = false; } break; }
    }
}
static int exec_done = 0, exec_total = 0;
static void executor(Plan &pl, int node, int idx, int nex, u64 base) {
    int k = 0;
    for (size_t i = 0; i < pl.ops.size(); i++) {
        auto &o = pl.ops[i];
        if (o.node != node || o.kind == OP_RESET || o.kind == OP_PART || o.kind == OP_STOP || o.kind == OP_FAULT) continue;
        if ((k++ % nex) != idx || !pl.enabled[i]) continue;
        u64 t = base + o.t; if (now() < t) sleep_ns(t - now());
        exec_op(o, THR_EXEC0 + idx);
    }
    Quiet _; exec_done++;
}

static void set_faults(bool on, u64 sel) {
    Quiet _;
    double p = on ? 0.15 + (sel % 5) * 0.15 : 0; u64 m = on ? (sel / 8) | ((sel / 8) % 127 ? 0 : 127) : 0;
    cfg.p_f_socket = m & 1 ? p : 0; cfg.p_f_accept = m & 2 ? p : 0; cfg.p_f_setsockopt = m & 4 ? p : 0; cfg.p_f_fcntl = m & 8 ? p : 0;
    cfg.p_f_connect = m & 16 ? p : 0; cfg.p_f_bind = m & 32 ? p : 0; cfg.p_f_eventfd = m & 64 ? p * 0.5 : 0;
}
static std::string why;
static bool settled() { // everything that must eventually happen has happened
    Quiet _;
    for (auto n : *nodes) if (!n->up) { why = "node " + std::to_string(n->id) + " not up"; return false; }
    for (auto r : *recs) {
        if (r->stopped || r->net_gone) continue;
        if (!r->ncon && !r->ndisc) { why = "connection " + std::to_string(r->uid) + " is neither connected nor disconnected"; return false; }
        if (r->app_term && !r->ndisc) { why = "terminated connection " + std::to_string(r->uid) + " got no 'disconnected'"; return false; }
        if (r->refused && !r->ndisc) { why = "refused connection " + std::to_string(r->uid) + " was not closed"; return false; }
        if (r->ndisc) {
            // the other end must notice as well
            for (int u : (*by_tcp)[r->tcp]) { auto q = (*recs)[u]; if (r->tcp && u != r->uid && !q->stopped && !q->net_gone && !q->ndisc) { why = "connection " + std::to_string(q->uid) + " is still up although its other end " + std::to_string(r->uid) + " is down"; return false; } }
            continue;
        }
        // up: everything accepted on it was delivered to the other end
        Rec *q = r->peer >= 0 ? (*recs)[r->peer] : nullptr;
        if (!q) for (int u : (*by_tcp)[r->tcp]) if (u != r->uid) q = (*recs)[u];
        if (!q) { if (r->tcp) { why = "other end of connection " + std::to_string(r->uid) + " unknown"; return false; } continue; }
        if (q->stopped || q->net_gone || q->ndisc) continue;
        for (int t = 0; t < NTHR; t++) if (r->flow[t].nrecv < r->flow[t].attempt.size()) { why = "messages of connection " + std::to_string(r->uid) + " thread " + std::to_string(t) + " not delivered: " + std::to_string(r->flow[t].nrecv) + " of " + std::to_string(r->flow[t].attempt.size()); return false; }
        for (auto &d : r->dflow) for (size_t i = 0; i < d.id.size(); i++) if (!d.received[i] && !(*nodes)[r->node]->err.count(d.id[i])) { why = "deferred message " + std::to_string(i) + " of connection " + std::to_string(r->uid) + " not delivered and no error reported"; return false; }
        for (int l = 1; l < 16; l++) if (q->tiny_recv[l] < r->tiny_sent[l]) { why = "short messages of connection " + std::to_string(r->uid) + " not delivered"; return false; }
        if (q->nil_recv < r->nil_sent) { why = "empty messages of connection " + std::to_string(r->uid) + " not delivered"; return false; }
    }
    why.clear(); return true;
}
static const char *why_tag() {
    if (why.find("deferred") != std::string::npos) return "C11";
    if (why.find("not delivered") != std::string::npos) return LT();
    if (why.find("refused") != std::string::npos) return "C04";
    if (why.find("not up") != std::string::npos) return "C17";
    return "C05";
}
static bool wait_settled(u64 patience) {
    u64 last = progress, t0 = now(), hard = now() + 600 * SEC;
    for (;;) {
        if (settled()) return true;
        if (progress != last) { last = progress; t0 = now(); }
        if (now() - t0 > patience || now() > hard) return false;
        sleep_ns(5 * MS);
    }
}
static void run(Plan &pl) {
    endless_means(tls ? "C03 C05 C17 C18" : "C02 C05 C17 C18");
    int nex[4];
    {
        Quiet _; recs = new std::vector<Rec *>(); recs->reserve(4096); by_tcp = new std::map<u64, std::vector<int>>(); nodes = new std::vector<Node *>();
        for (int i = 0; i < nnodes; i++) { auto n = new Node(); n->id = i; char b[40]; snprintf(b, sizeof b, "10.0.0.%d:%d", i + 1, 7000 + i); n->addr = NetAddr(std::string(b)); nodes->push_back(n); }
        swarm0 = cfg;
    }
    set_node(9);
    int silent = -1;
    if (dead_ends) {
        cut_dead_end();
        if (tls) { set_node(6); silent = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in sa{}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = node_ip(6); sa.sin_port = htons(9000);
            if (bind(silent, (struct sockaddr *)&sa, sizeof sa) || listen(silent, 128)) inconclusive("silent host"); set_node(9); }
    }
    for (auto n : *nodes) start_node(n);
    u64 base = now() + 5 * MS;
    for (int i = 0; i < nnodes; i++) { nex[i] = 1 + (run_seed / 3 + i) % 2; for (int k = 0; k < nex[i]; k++) { exec_total++; int ne = nex[i]; spawn(i, ("exec" + std::to_string(i)).c_str(), [&pl, i, k, ne, base] { executor(pl, i, k, ne, base); }); } }
    // driver operations
    for (size_t i = 0; i < pl.ops.size(); i++) {
        auto o = pl.ops[i];
        if (!pl.enabled[i]) continue;
        if (o.kind != OP_RESET && o.kind != OP_PART && o.kind != OP_STOP && o.kind != OP_FAULT) continue;
        u64 t = base + o.t; if (now() < t) sleep_ns(t - now());
        int other = (o.node + 1 + o.a[0] % (nnodes - 1)) % nnodes;
        switch (o.kind) {
            case OP_RESET: reset_conns_between(o.node, other); break;
            case OP_PART: { int a = o.node; partition(a, other, true); u64 d = (1 + o.a[1] % 400) * (o.a[2] % 4 ? 100 * US : 10 * MS); at(now() + d, [a, other] { partition(a, other, false); }); break; }
            case OP_FAULT: { wait_until(now() + 10 * SEC, 100 * US, [] { for (auto n : *nodes) if (!n->started) return false; return true; }); set_faults(true, o.a[0]); u64 d = (1 + o.a[1] % 100) * 200 * US; fault_depth++; at(now() + d, [] { set_faults(false, 0); fault_depth--; }); break; }
            case OP_STOP: {
                Node *n = (*nodes)[o.node]; if (!n->up || n->want_stop) break;
                n->want_stop = true;
                if (!wait_until(now() + 60 * SEC, 500 * US, [n] { return n->done; })) { Quiet _; violation("C17", "node %d could not be stopped within 60 s", n->id); finish_run(); }
                probe("restart"); nrestarts++; wait_until(now() + 10 * SEC, 100 * US, [] { return fault_depth == 0; }); start_node(n); count(C_RESTART);
                break; }
        }
    }
    wait_until(now() + 60 * SEC, 500 * US, [] { return exec_done == exec_total; });
    if (exec_done != exec_total) { Quiet _; violation("C11", "a blocking call did not return"); inconclusive("executors stuck"); }
    // ---- faults end ----
    { Quiet _; set_faults(false, 0); faults_on = false; heal_all(); if (dead_ends) cut_dead_end(); cfg.p_seg = std::min(cfg.p_seg, 0.05); cfg.seg_max = std::max<u64>(cfg.seg_max, 256); cfg.lat_ns = std::min<u64>(cfg.lat_ns, 200 * US); cfg.lat_jit_ns = 20 * US; cfg.p_slice = std::min(cfg.p_slice, 0.2);
      if (small_end) { cfg.sndbuf = std::max<u64>(std::min<u64>(cfg.sndbuf, 2000), 150); cfg.rcvbuf = std::max<u64>(cfg.rcvbuf, 150); cfg.lat_ns = 20 * US; cfg.lat_jit_ns = 2 * US; } else cfg.sndbuf = cfg.rcvbuf = 65536; cfg.eph_ports = 20000; for (auto n : *nodes) n->stall = 0; }
    wait_until(now() + 60 * SEC, 1 * MS, [] { for (auto n : *nodes) if (!n->up) return false; return true; });
    u64 patience = (u64)(conn_to * 1e9) + 30 * SEC;
    // one more message in each direction shows half-open connections
    auto ping_all = [] {
        for (auto n : *nodes) { Busy b(n); if (!b.ok) continue; size_t k; { Quiet _; k = n->held.size(); }
            for (size_t i = 0; i < k; i++) { auto c = pick(n, i); if (c && !c->is_terminated()) do_send(n, c, THR_DISP, 16, 0); } }
    };
    // asynchronous requests may still be on their way to the dispatcher
    bool ok = wait_settled(patience); if (ok) { sleep_ns(200 * MS); ok = wait_settled(patience); }
    if (!ok && !strcmp(why_tag(), "C05")) { ping_all(); ok = wait_settled(patience); }
    if (!ok) { Quiet _; violation(why_tag(), "no progress for %.0f s after faults stopped: %s", patience / 1e9, why.c_str()); }
    // connections only end when something asked for it
    { Quiet _;
      for (auto r : *recs) {
        if (!r->ncon || !r->ndisc || r->stopped || !r->tcp) continue;
        bool cause = r->app_term || r->refused || conn_was_reset(r->tcp); int members = 0;
        for (int u : (*by_tcp)[r->tcp]) { auto q = (*recs)[u]; members++; if (q->app_term || q->refused || q->stopped || q->net_gone) cause = true;
            // the handshake was finished while its timeout was already under way
            if (tls && q->t_res - q->t_created + 10 * MS >= (u64)(conn_to * 1e9)) cause = true; }
        if (verify_reject >= 0) for (int u : (*by_tcp)[r->tcp]) if ((*recs)[u]->node == verify_reject) cause = true;
        if (members < 2) cause = true; // the other end never got to use it (ended while being set up)
        if (!cause) violation(LT(), "healthy connection %d was closed although neither side, an error nor a reset asked for it", r->uid);
      } }
    // C11: every error belongs to a request, every request has one outcome
    auto c11 = [] {
        Quiet _;
        for (auto n : *nodes) {
            if (!n->up) continue;
            int cerr = 0, nact = 0;
            for (auto &e : n->err) { if (!n->async_ids.count(e.first)) violation("C11", "error reported for unknown request %d", e.first); if (n->conn_ids.count(e.first)) cerr++; else if (!sendbuf) violation("C11", "a deferred send failed although the send buffer is unbounded"); }
            for (auto r : *recs) if (r->node == n->id && r->inst == n->inst && r->mode == ConnPool::Conn::ACTIVE) nact++;
            if (nact != n->n_sync_ok + n->n_async - cerr) violation("C11", "node %d: %d connection objects for %d blocking and %d asynchronous connects of which %d failed", n->id, nact, n->n_sync_ok, n->n_async, cerr);
        }
        for (auto r : *recs) { auto n = (*nodes)[r->node]; if (!n->up || r->inst != n->inst) continue;
            for (auto &d : r->dflow) for (size_t i = 0; i < d.id.size(); i++) if (d.received[i] && n->err.count(d.id[i])) violation("C11", "deferred send %d was delivered and reported as failed", d.id[i]); }
    };
    if (ok) c11();
    // C22: what connections say about themselves
    if (ok) for (auto n : *nodes) { Busy b(n); if (!b.ok) continue; Quiet _;
        for (auto &c : n->held) { Rec *r = tc(c)->rec; auto m = static_cast<Net::Conn *>(c.get()); if (r->inst != n->inst) continue;
            if (!r->ndisc && c->is_terminated() && settled()) violation("C22", "connection %d says it is terminated although it is up", r->uid);
            if (m->get_nrecv() != r->hrecv || m->get_nrecvb() != r->hrecvb) violation("C22", "connection %d counts %zu received messages of %zu bytes, but its handlers got %llu of %llu bytes", r->uid, m->get_nrecv(), m->get_nrecvb(), (unsigned long long)r->hrecv, (unsigned long long)r->hrecvb);
            u64 ok = r->sok, okb = r->sokb; for (auto &d : r->dflow) for (size_t i = 0; i < d.id.size(); i++) if (d.received[i]) ok++;
            if (m->get_nsent() < ok || m->get_nsent() > r->satt || m->get_nsentb() < okb || m->get_nsentb() > r->sattb) violation("C22", "connection %d counts %zu sent messages of %zu bytes; %llu of %llu bytes were accepted, %llu of %llu bytes attempted", r->uid, m->get_nsent(), m->get_nsentb(), (unsigned long long)ok, (unsigned long long)okb, (unsigned long long)r->satt, (unsigned long long)r->sattb);
            if (r->uid % 3 == 0) { m->clear_msgstat(); if (m->get_nrecv() || m->get_nsent() || m->get_nrecvb() || m->get_nsentb()) violation("C22", "cleared statistics are not zero"); } } }
    // C16: ended connections are freed once the application holds no reference
    auto drop_ended = [] { std::vector<ConnPool::conn_t> drop; { Quiet _; for (auto n : *nodes) { std::vector<ConnPool::conn_t> k; for (auto &c : n->held) { if (tc(c)->rec->ndisc) drop.push_back(c); else k.push_back(c); } n->held.swap(k); } } drop.clear(); };
    if (ok) {
        bool freed = false;
        for (int k = 0; k < 1000 && !freed; k++) { drop_ended(); sleep_ns(5 * MS); Quiet _; freed = true; for (auto r : *recs) if (r->ndisc && !r->destroyed) freed = false; }
        if (!freed) { Quiet _; for (auto r : *recs) if (r->ndisc && !r->destroyed) { violation("C16", "ended connection %d is never destroyed", r->uid); break; } }
    }
    // C18: the network still works
    for (auto n : *nodes) { Busy b(n); if (!b.ok || n->listening) continue; try { n->net->listen(n->addr); n->listening = true; } catch (std::exception &e) { Quiet _; violation("C18", "listen fails after the faults stopped: %s", e.what()); } }
    if (!with_refuse) for (int i = 0; i < nnodes; i++) {
        Node *n = (*nodes)[i], *m = (*nodes)[(i + 1) % nnodes]; Busy b(n); if (!b.ok) continue;
        if (verify_reject >= 0 && (n->id == verify_reject || m->id == verify_reject)) continue;
        Rec *r = nullptr;
        try { auto c = n->net->connect_sync(m->addr); n->n_sync_ok++; r = static_cast<TConn *>(c.get())->rec;
              for (int k = 0; k < 50 && !do_send(n, salticidae::static_pointer_cast<ConnPool::Conn>(c), THR_DISP, 16, 0); k++) sleep_ns(10 * MS); }
        catch (std::exception &e) { Quiet _; violation("C18", "connect fails after the faults stopped: %s", e.what()); continue; }
        bool d = wait_until(now() + 30 * SEC, 2 * MS, [r] { return r->flow[THR_DISP].nrecv > 0; });
        if (!d) { Quiet _; violation("C18", "after the faults stopped a new connection to node %d does not deliver (connected=%d disconnected=%d)", m->id, r->ncon, r->ndisc); }
    }
    { Quiet _; u64 h = 0; for (auto r : *recs) h = h * 31 + r->ncon * 2 + r->ndisc + r->flow[0].nrecv * 7; set_state_hash(h | 1); }
    // ---- end: stop and destroy everything, possibly while a sender is still busy just before ----
    if (silent >= 0) { set_node(6); close(silent); set_node(9); }
    for (int k = 0; k < 10; k++) if (max_excess > (1000000ULL << k)) probe(("excess_" + std::to_string(1 << k) + "ms").c_str());
    for (auto n : *nodes) n->want_stop = true;
    bool d = wait_until(now() + 120 * SEC, 1 * MS, [] { for (auto n : *nodes) if (!n->done) return false; return true; });
    Quiet _;
    if (!d) { violation("C17", "networks could not be stopped within 120 s"); return; }
    if (live_objs) violation("C16", "%d connection objects alive at the end", live_objs);
    if (open_fds(-1)) violation("C16", "descriptors left open: %s", describe_fds().c_str());
}
static RegScenario reg(Scenario{"msg", gen, run, opname});
