// Peer network scenario: C06 C07 C08 C09 C10 C11 (variant bit 1 = TLS, bit 2 = membership requests)
#include "scen/common.h"
#include "salticidae/network.h"
#include <memory>
#include <arpa/inet.h>
using namespace scen; using namespace sim;
using salticidae::EventContext; using salticidae::NetAddr; using salticidae::DataStream; using salticidae::TimerEvent;
using salticidae::ConnPool; using salticidae::bytearray_t; using salticidae::PeerId;
typedef salticidae::PeerNetwork<uint8_t> Net;
typedef Net::MsgNet MsgNet;

enum { OP_SEND, OP_DEFER, OP_MCAST, OP_CONNPEER, OP_SETADDR, OP_MANUAL, OP_QUERY, OP_ADD, OP_DEL, OP_STALL, OP_RESET, OP_PART, OP_SILENT, OP_RESTART, OP_CRASH, OP_NOPS };
static bool tls, certid, member, bounded; static int nnodes, nfake, nworker[4]; static double ping_period, conn_timeout, conn_to, rdelay[4]; static size_t max_msg, chunk, recvbuf, sendbuf, msgq, burst;
static u64 horizon; static bool knows_addr[4][4]; static int passive_side[4][4]; static bool capture, steady, swap_addr, stranger; static u64 cfg_wait;
static const int MAXP = 8;

static void gen(Plan &p, Rng &r) {
    tls = run_variant & 1; member = run_variant & 2; certid = tls && r.chance(0.7);
    nnodes = r.chance(0.7) ? 2 : 3; nfake = member ? r.range(1, 3) : 0;
    for (auto &w : nworker) w = r.range(1, 3);
    max_msg = r.logrange(64, 2000); chunk = r.chance(0.3) ? r.logrange(4, 64) : 4096; recvbuf = r.chance(0.7) ? 4096 : r.range(1, 8);
    bounded = r.chance(0.3); sendbuf = bounded ? r.range(1, 24) : 0; msgq = r.chance(0.5) ? 256 : r.range(1, 16); burst = r.chance(0.5) ? 1000 : r.range(1, 5);
    ping_period = 0.02 * r.logrange(2, 100); conn_timeout = ping_period * 1.5 + 0.5 + (r.chance(0.5) ? 0.5 : 3) * r.real();
    conn_to = r.chance(0.5) ? 2 : 0.05 * r.range(2, 20);
    for (auto &d : rdelay) d = r.chance(0.3) ? 0.1 : 0.02 * r.logrange(1, 60);
    for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) { int k = r.below(10); knows_addr[i][j] = k != 0 && k != 1; knows_addr[j][i] = k != 2 && k != 3; if (!knows_addr[i][j] && !knows_addr[j][i]) knows_addr[i][j] = true; }
    for (auto &x : passive_side) for (auto &y : x) y = r.below(5);
    horizon = r.logrange(20, 4000) * MS; steady = r.chance(0.5); stranger = !member && r.chance(0.15);
    swap_addr = member && certid && nnodes == 3 && r.chance(0.4);
    capture = !tls; cfg_wait = r.chance(0.7) ? 300 : r.range(1200, 4000);
    int nops = r.range(3, member ? 40 : 24);
    bool resets = r.chance(0.4), parts = r.chance(0.35), restarts = r.chance(0.35), reconn = r.chance(0.4), stalls = r.chance(0.3), silent = r.chance(0.2), manual = r.chance(0.15);
    for (int i = 0; i < nops; i++) {
        Op o{}; o.t = r.below(horizon); o.node = r.below(nnodes); for (auto &x : o.a) x = r.next();
        again:
        if (member && r.chance(0.7)) switch (r.below(13)) {
            case 0: case 1: case 2: o.kind = OP_ADD; break;
            case 3: case 12: o.kind = OP_DEL; break;
            case 4: case 5: o.kind = OP_SETADDR; break;
            case 6: case 7: case 8: o.kind = OP_CONNPEER; break;
            case 9: o.kind = OP_QUERY; break;
            case 10: o.kind = OP_DEFER; break;
            default: o.kind = OP_MCAST;
        } else switch (r.below(16)) {
            default: o.kind = OP_SEND; break;
            case 5: o.kind = OP_DEFER; break;
            case 6: o.kind = OP_MCAST; break;
            case 7: if (!reconn) goto again; o.kind = r.chance(0.8) ? OP_CONNPEER : OP_SETADDR; break;
            case 8: if (!manual) goto again; o.kind = OP_MANUAL; break;
            case 9: o.kind = OP_QUERY; break;
            case 10: if (!stalls) goto again; o.kind = OP_STALL; break;
            case 11: if (!resets) goto again; o.kind = OP_RESET; break;
            case 12: if (!parts) goto again; o.kind = OP_PART; break;
            case 13: if (!restarts) goto again; o.kind = tls || r.chance(0.5) ? OP_RESTART : OP_CRASH; break;
            case 14: if (!silent) goto again; o.kind = OP_SILENT; break;
        }
        p.ops.push_back(o);
    }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    if (chunk < 16 || cfg.seg_max < 8) { cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 100000); cfg.lat_ns = std::min<u64>(cfg.lat_ns, 100000); }
    cfg.lat_ns = std::min<u64>(cfg.lat_ns, 20 * MS); cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 20 * MS);
    if (tls) { cfg.slice_max = std::max<u64>(cfg.slice_max, 200); if (cfg.p_seg > 0 && cfg.seg_max < 24) cfg.seg_max = 24; }
}
static std::string opname(const Op &o) {
    static const char *n[] = {"send", "deferred-send", "multicast", "conn_peer", "set_peer_addr", "manual-connect", "query", "add_peer", "del_peer", "loop-stall", "reset", "partition", "silent-partition", "restart", "crash"};
    char b[200]; snprintf(b, sizeof b, "%s a0=%llu a1=%llu a2=%llu a3=%llu", n[o.kind], (unsigned long long)o.a[0] % 1000, (unsigned long long)o.a[1] % 1000, (unsigned long long)o.a[2] % 1000, (unsigned long long)o.a[3] % 1000);
    return b;
}
// ---- messages ----------------------------------------------------------------------------------------
struct Data { static const uint8_t opcode; DataStream serialized; bytearray_t bytes; Data(bytearray_t &&b): serialized(std::move(b)) {} Data(DataStream &&s): bytes(std::move(s)) {} };
struct Mcast { static const uint8_t opcode; DataStream serialized; bytearray_t bytes; Mcast(bytearray_t &&b): serialized(std::move(b)) {} Mcast(DataStream &&s): bytes(std::move(s)) {} };
const uint8_t Data::opcode = 0x21, Mcast::opcode = 0x22;
enum { NT = 8, HDR = 28 };
struct MRec { u64 t0 = 0, t1 = 0; int state = 0; /* 0 in progress 1 accepted 2 refused 3 threw */ int ndel = 0; int32_t id = -1; bool deferred = false; bool mcast = false; };
static std::vector<MRec> *flows[4][64][NT][4]; // [src][instance][thread][dst]
static std::map<std::pair<u64, u64>, long> *last_on; // (flow, receiving connection) -> last sequence number
struct McRec { int src, inst; u64 t0; int32_t id = -1; bool bad = false; int want[4] = {}, got[4] = {}; };
static std::vector<McRec> *mcs; // multicasts
static std::vector<std::pair<int, u64>> *must_die; // connections of removed peers
static u32 h32(u32 a, u32 b, u32 c) { u64 x = a * 0x9e3779b97f4a7c15ULL + b * 0xc2b2ae3d27d4eb4fULL + c * 0x165667b19e3779f9ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32; return (u32)x; }
static bytearray_t payload(u32 src, u32 inst, u32 thr, u32 dst, u32 seq, size_t len) {
    if (len < HDR) len = HDR; bytearray_t b(len);
    u32 hd[7] = {0x53414c54, src, inst, thr, dst, seq, (u32)len}; memcpy(b.data(), hd, HDR);
    u32 x = h32(src * 64 + inst, thr * 4 + dst, seq) | 1; for (size_t i = HDR; i < len; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; b[i] = x; }
    return b;
}
// ---- nodes --------------------------------------------------------------------------------------------
static int nconn_obj = 0; static u64 progress = 0;
struct CRec { int uid, node, inst; u64 t0 = 0; u64 tcp = 0; u64 t_dead = 0; int remote = -1; int nup = 0, ndown = 0; };
static std::vector<CRec *> *crecs;
struct TConn : public Net::Conn { CRec *rec; TConn() { Quiet _; rec = new CRec(); rec->uid = crecs->size(); rec->t0 = now(); rec->node = cur_node(); crecs->push_back(rec); nconn_obj++; } ~TConn() { Quiet _; nconn_obj--; } int get_fd() const { return fd; } };
static TConn *tc(const ConnPool::conn_t &c) { return dynamic_cast<TConn *>(c.get()); }
class TestNet : public Net {
    public: int inst; TestNet(const EventContext &ec, const Config &c, int inst): Net(ec, c), inst(inst) {}
    ConnPool::Conn *create_conn() override { auto c = new TConn(); Quiet _; c->rec->inst = inst; return c; }
    void on_worker_setup(const ConnPool::conn_t &c) override {
        { Quiet _; auto t = tc(c); if (t) { t->rec->tcp = sock_conn_id(t->get_fd()); int a, p; if (conn_nodes(t->rec->tcp, a, p)) t->rec->remote = a == t->rec->node ? p : a; } }
        Net::on_worker_setup(c);
    }
    void on_worker_teardown(const ConnPool::conn_t &c) override { Net::on_worker_teardown(c); Quiet _; auto t = tc(c); if (t) t->rec->t_dead = now(); }
};
struct PeerModel { bool known = false, addr = false; u64 ver = 0; int ntry = 0; };
struct Live { CRec *c = nullptr; u64 tcp = 0; u64 since = 0, last_down = 0; int ups = 0, downs = 0; u64 t_del = 0; bool stale() const { return c && c->t0 <= t_del; /* unregistered since: no callback tells its end */ } };
struct Attempts { u64 from; int ntry; int pid; double delay; u64 to = 0; bool nulled = false; }; // nulled: the address was taken away in the meantime
struct Node {
    int id, inst = 0; EventContext *ec = nullptr; TestNet *net = nullptr; bool up = false, want_stop = false, done = false, stopped = false, crashed = false; int busy = 0, loop_fiber = -1, in_cb = 0; u64 stall = 0;
    NetAddr addr; PeerId pid; Live live[4]; u64 n_unknown = 0; std::set<int> unknown_from;
    std::map<int32_t, int> err; std::map<int32_t, int> expect; // request id -> 0 no error, 1 error, 2 either
    PeerModel pm[MAXP]; std::vector<Attempts> att[MAXP]; int lost[4] = {};
};
static std::vector<Node *> *nodes; static PeerId fake_pid[4]; static NetAddr fake_addr[4]; static int stranger_node = -1; static std::vector<bytearray_t> *ders;
static bool final_phase = false; static u64 final_t = 0; static bool stable = false;
static const PeerId &pid_of(int k) { return k < 4 ? (*nodes)[k]->pid : fake_pid[k - 4]; }
static const NetAddr &addr_of(int k) { return k < 4 ? (*nodes)[k]->addr : fake_addr[k - 4]; }

static void cb_enter(Node *n, const char *what, int inst) {
    Quiet _;
    if (n->net == nullptr || n->inst != inst) violation("C17", "%s runs after its network was destroyed", what);
    if (cur_fiber() != n->loop_fiber) violation("C05", "%s runs on another thread than the event loop's", what);
    if (n->in_cb) violation("C05", "%s runs inside another callback", what);
    n->in_cb++;
}
static void cb_leave(Node *n) { n->in_cb--; }

static void on_data(Node *n, const bytearray_t &b, const Net::conn_t &c) {
    Quiet _; progress++;
    auto t = tc(salticidae::static_pointer_cast<ConnPool::Conn>(c)); CRec *r = t ? t->rec : nullptr;
    if (n->stopped) violation("C17", "message handler runs after stop()");
    u32 hd[7]; if (b.size() < HDR) { violation("C10", "truncated message of %zu bytes delivered", b.size()); return; }
    memcpy(hd, b.data(), HDR); u32 src = hd[1], inst = hd[2], thr = hd[3], dst = hd[4], seq = hd[5];
    if (hd[0] != 0x53414c54 || hd[6] != b.size() || src >= (u32)nnodes || inst >= 64 || thr >= NT || dst >= 4 || b != payload(src, inst, thr, dst, seq, b.size())) { violation("C10", "corrupted message delivered"); return; }
    if ((int)dst != n->id) violation("C10", "message for node %u delivered to node %d", dst, n->id);
    if (r && r->remote >= 0 && r->remote != (int)src) violation("C09", "message of node %u delivered on a connection to node %d", src, r->remote);
    auto f = flows[src][inst][thr][dst]; if (!f || seq >= f->size()) { violation("C10", "message %u was never sent", seq); return; }
    auto &m = (*f)[seq];
    if (m.state >= 2) violation("C10", "a message whose send failed was delivered");
    if (m.ndel++) violation("C10", "message %u of node %u (thread %u) delivered twice", seq, src, thr);
    u64 key = ((src * 64 + inst) * NT + thr) * 4 + dst; auto &l = (*last_on)[{key, r ? r->uid : 0}];
    if (l > (long)seq) violation("C10", "message %u of node %u delivered after message %ld on the same connection", seq, src, l - 1);
    l = seq + 1; note(700, key, seq);
}
static bytearray_t mc_payload(u32 k) { bytearray_t b(12 + k * 13 % 60); u32 x = h32(k, 77, b.size()) | 1, hd[3] = {0x4d434153, k, (u32)b.size()}; memcpy(b.data(), hd, 12); for (size_t i = 12; i < b.size(); i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; b[i] = x; } return b; }
static void on_mcast(Node *n, const bytearray_t &b, const Net::conn_t &c) {
    Quiet _; progress++; u32 hd[3]; if (b.size() < 12) { violation("C10", "truncated multicast message delivered"); return; }
    memcpy(hd, b.data(), 12); if (hd[0] != 0x4d434153 || hd[1] >= mcs->size() || b != mc_payload(hd[1])) { violation("C10", "corrupted multicast message delivered"); return; }
    auto &m = (*mcs)[hd[1]]; auto t = tc(salticidae::static_pointer_cast<ConnPool::Conn>(c)); CRec *r = t ? t->rec : nullptr;
    if (r && r->remote >= 0 && r->remote != m.src) violation("C09", "multicast message of node %d delivered on a connection to node %d", m.src, r->remote);
    if (++m.got[n->id] > m.want[n->id]) violation("C10", "multicast %u of node %d delivered %d times to node %d, to which it was addressed %d times", hd[1], m.src, m.got[n->id], n->id, m.want[n->id]);
}
static void peer_cb(Node *n, int inst, const Net::conn_t &c, bool up) {
    cb_enter(n, "peer callback", inst);
    { Quiet _; progress++;
      auto t = tc(salticidae::static_pointer_cast<ConnPool::Conn>(c)); CRec *r = t ? t->rec : nullptr;
      note(701, r ? r->uid : 0, up); tracef("node %d: peer callback conn %d (tcp %llu remote %d) %s", n->id, r ? r->uid : -1, (unsigned long long)(r ? r->tcp : 0), r ? r->remote : -1, up ? "connected" : "disconnected");
      if (r) {
          if (up ? r->nup++ : r->ndown++) violation("C06", "node %d: connection %d reported %s twice", n->id, r->uid, up ? "connected" : "disconnected");
          if (up && r->ndown) violation("C06", "node %d: connection %d reported connected after it was reported disconnected", n->id, r->uid);
      }
      if (!r) violation("C06", "peer callback for a connection that never existed");
      else if (up) {
          int j = r->remote; if (j < 0) violation("C06", "connected peer callback for a connection without remote");
          else {
              if (j == stranger_node || n->id == stranger_node) violation("C09", "an unregistered node became a connected peer");
              auto &L = n->live[j]; if (L.c && !L.stale()) violation("C06", "node %d: second connection to peer %d reported connected while the first one is live", n->id, j);
              if (L.c == r) violation("C06", "connection reported connected twice");
              L.c = r; L.tcp = r->tcp; L.since = now(); L.ups++;
              if (certid) { auto cert = c->get_peer_cert(); if (!cert || cert->get_der() != (*ders)[j]) violation("C09", "connected peer %d without its certificate", j); }
          }
      } else {
          for (int j = 0; j < nnodes + 1; j++) { auto &L = n->live[j]; if (L.c == r) { L.c = nullptr; L.last_down = now(); L.downs++; n->lost[j]++; } }
      }
    }
    cb_leave(n);
}
static void expect_id(Node *n, int32_t id, int e) { Quiet _; if (n->expect.count(id)) violation("C11", "request id %d used twice", id); n->expect[id] = e; }

static void node_main(Node *n) {
    n->loop_fiber = cur_fiber(); n->ec = new EventContext(); int inst = n->inst;
    Net::Config c; ConnPool::Config &pc = c;
    pc.max_listen_backlog(10).conn_server_timeout(conn_to).recv_chunk_size(chunk).nworker(nworker[n->id]).max_recv_buff_size(recvbuf).max_send_buff_size(sendbuf);
    if (tls) pc.enable_tls(true).tls_cert_file(std::string(CERT_DIR) + "/n" + std::to_string(n->id) + ".crt").tls_key_file(std::string(CERT_DIR) + "/n" + std::to_string(n->id) + ".key");
    MsgNet::Config &mc = c; mc.max_msg_size(max_msg).max_msg_queue_size(msgq).burst_size(burst);
    c.ping_period(ping_period).conn_timeout(conn_timeout).id_mode(certid ? Net::CERT_BASED : Net::ADDR_BASED);
    n->net = new TestNet(*n->ec, c, inst);
    n->net->reg_handler([n, inst](Data &&m, const Net::conn_t &conn) { cb_enter(n, "message handler", inst); on_data(n, m.bytes, conn); cb_leave(n); });
    n->net->reg_handler([n, inst](Mcast &&m, const Net::conn_t &conn) { cb_enter(n, "message handler", inst); on_mcast(n, m.bytes, conn); cb_leave(n); });
    n->net->reg_peer_handler([n, inst](const Net::conn_t &conn, bool up) { peer_cb(n, inst, conn, up); });
    n->net->reg_unknown_peer_handler([n, inst](const NetAddr &a, const salticidae::X509 *) { cb_enter(n, "unknown-peer callback", inst); { Quiet _; n->n_unknown++; for (int k = 0; k < 4; k++) if ((*nodes)[k]->addr == a) n->unknown_from.insert(k); } cb_leave(n); });
    n->net->reg_error_handler([n, inst](const std::exception_ptr e, bool fatal, int32_t id) {
        cb_enter(n, "error callback", inst);
        { Quiet _; std::string w; try { std::rethrow_exception(e); } catch (std::exception &x) { w = x.what(); } catch (...) { w = "?"; }
          tracef("node %d error callback: fatal=%d id=%d %s", n->id, fatal, id, w.c_str());
          if (id >= 0) { if (n->err[id]++) violation("C11", "two errors for request %d", id); auto it = n->expect.find(id); if (it != n->expect.end() && it->second == 0) violation("C11", "request %d succeeded but an error was reported: %s", id, w.c_str()); }
          if (fatal) violation("C12", "fatal error raised: %s", w.c_str()); }
        cb_leave(n);
    });
    n->net->start();
    try { n->net->listen(n->addr); } catch (std::exception &e) { Quiet _; violation("C18", "listen failed: %s", e.what()); }
    if (!member) for (int j = 0; j < nnodes; j++) if (j != n->id) {
        if (j == stranger_node) continue; // does not know the stranger, who knows everybody
        expect_id(n, n->net->add_peer(pid_of(j)), 0);
        if (knows_addr[n->id][j] || n->id == stranger_node) { expect_id(n, n->net->set_peer_addr(pid_of(j), addr_of(j)), 0);
            { n->net->has_peer(pid_of(j)); Quiet _; n->pm[j].addr = true; }
            if (coin(K_APP, 0.3)) sleep_ns(1000 * US);
            expect_id(n, n->net->conn_peer(pid_of(j), -1, rdelay[n->id]), 0); }
        n->net->has_peer(pid_of(j)); /* barrier: the requests have taken effect */
        Quiet _; n->pm[j].known = true;
    }
    TimerEvent *ctl = new TimerEvent(*n->ec, nullptr);
    ctl->set_callback([n, ctl](TimerEvent &) {
        if (n->stall) { u64 s = n->stall; n->stall = 0; sleep_ns(s); }
        if (n->want_stop && n->busy == 0) { n->ec->stop(); return; }
        ctl->add(0.005);
    });
    ctl->add(0.005);
    n->up = true; n->ec->dispatch(); n->up = false;
    u64 t0 = now();
    if (coin(K_APP, 0.7)) { n->net->stop(); Quiet _; n->stopped = true; }
    delete ctl; delete n->net;
    { Quiet _; n->net = nullptr; n->stopped = true; if (now() - t0 > 20 * SEC) violation("C17", "stop/destruction took %.1f s", (now() - t0) / 1e9); }
    delete n->ec; n->ec = nullptr;
    Quiet _; if (open_fds(n->id)) violation("C16", "descriptors still open after the network was destroyed: %s", describe_fds().c_str());
    n->done = true; progress++;
}
static void start_node(Node *n) {
    Quiet _; n->inst++; n->want_stop = n->done = n->up = n->stopped = n->crashed = false; n->in_cb = 0; n->stall = 0; n->busy = 0; n->net = nullptr; n->err.clear(); n->expect.clear();
    for (auto &L : n->live) L = Live(); for (auto &m : n->pm) m = PeerModel(); for (auto &a : n->att) a.clear(); for (auto &l : n->lost) l = 0;
    spawn(n->id, ("node" + std::to_string(n->id)).c_str(), [n] { node_main(n); });
}
struct Busy { Node *n; bool ok; int inst; Busy(Node *n): n(n) { Quiet _; ok = n->up && !n->want_stop && n->net && !n->crashed; inst = n->inst; if (ok) n->busy++; } ~Busy() { Quiet _; if (ok && n->inst == inst) n->busy--; } };
static std::vector<MRec> *flow(int s, int inst, int thr, int d) { auto &f = flows[s][inst % 64][thr][d]; if (!f) { f = new std::vector<MRec>(); f->reserve(64); } return f; }

// sends one message by peer id; returns whether it was accepted
static bool send1(Node *n, int thr, int j, size_t sz, bool deferred) {
    std::vector<MRec> *f; u32 seq; bytearray_t b; int inst = n->inst;
    { Quiet _; f = flow(n->id, inst, thr, j); seq = f->size(); f->emplace_back(); (*f)[seq].t0 = now(); (*f)[seq].deferred = deferred; b = payload(n->id, inst % 64, thr, j, seq, std::min(sz, max_msg)); }
    int st = 1;
    if (deferred) { int32_t id = n->net->send_msg_deferred(Data(std::move(b)), pid_of(j)); { Quiet _; (*f)[seq].id = id; } expect_id(n, id, !n->pm[j].known ? 1 : bounded || !n->pm[j].known ? 2 : 0); if (!n->pm[j].known) st = 3; }
    else try { if (!n->net->send_msg(Data(std::move(b)), pid_of(j))) st = 2; if (!n->pm[j].known) { Quiet _; violation("C11", "send to an unknown peer was accepted"); } }
    catch (salticidae::SalticidaeError &e) { st = 3; if (n->pm[j].known) { Quiet _; violation("C11", "send to a known peer failed: %s", e.what()); } }
    Quiet _; auto &m = (*f)[seq]; m.t1 = now(); m.state = st; if (st >= 2 && m.ndel && !deferred) violation("C10", "a message whose send failed was delivered");
    if (st == 2) { probe("send_refused"); if (!bounded && st == 2) violation("C10", "send refused although the send buffer is unbounded"); }
    return st == 1;
}
static u32 mcast(Node *n, const std::vector<int> &ks) {
    std::vector<PeerId> v; u32 k; bool bad = false;
    { Quiet _; k = mcs->size(); mcs->push_back(McRec{n->id, n->inst, now()}); for (int x : ks) { v.push_back(pid_of(x)); if (!n->pm[x].known) bad = true; if (x < 4) (*mcs)[k].want[x]++; } }
    int32_t id = n->net->multicast_msg(Mcast(mc_payload(k)), v); expect_id(n, id, bad ? 1 : bounded ? 2 : 0);
    Quiet _; (*mcs)[k].id = id; (*mcs)[k].bad = bad; return k;
}
static void attempts_begin(Node *n, int k, int ntry, double d) { Quiet _; auto &v = n->att[k]; if (!v.empty() && !v.back().to) v.back().to = now(); v.push_back(Attempts{now(), ntry, k, d}); }
static void attempts_end(Node *n, int k) { Quiet _; auto &v = n->att[k]; if (!v.empty() && !v.back().to) v.back().to = now(); }

static int own(const Op &o, int nex, int idx) { // a peer this executor is in charge of
    std::vector<int> c; for (int j = 0; j < nnodes; j++) if (j != o.node) c.push_back(j); for (int j = 0; j < nfake; j++) c.push_back(4 + j);
    std::vector<int> m; for (size_t i = 0; i < c.size(); i++) if ((int)(i % nex) == idx || !member) m.push_back(c[i]);
    return m.empty() ? -1 : m[o.a[0] % m.size()];
}
static void do_connpeer(Node *n, int k, int ntry, double d) {
    int e = !n->pm[k].known || !n->pm[k].addr;
    if (!e && ntry == 0) attempts_end(n, k);
    if (!e) { attempts_begin(n, k, ntry, d); Quiet _; n->pm[k].ntry = ntry; }
    expect_id(n, n->net->conn_peer(pid_of(k), ntry, d), e);
    if (!e) { n->net->has_peer(pid_of(k)); /* barrier: the request has taken effect */ Quiet _; auto &a = n->att[k].back(); if (!a.to && ntry == 0) a.from = now(); }
}
static void exec_op(const Op &o, int thr, int nex, int idx) {
    Node *n = (*nodes)[o.node]; Busy b(n); if (!b.ok) return;
    int k = own(o, nex, idx); if (k < 0) return;
    switch (o.kind) {
        case OP_SEND: { if (k >= 4) { if (nnodes < 2) break; k = (o.node + 1) % nnodes; if (member) break; } if (!n->pm[k].known) { if (!member) break; } if (member) n->net->has_peer(pid_of(k));
            int c = 1 + o.a[1] % 8; for (int i = 0; i < c; i++) send1(n, thr, k, HDR + (o.a[2] >> (i * 3)) % (o.a[3] % 3 ? 100 : max_msg), false); break; }
        case OP_DEFER: { if (k >= 4) { expect_id(n, n->net->send_msg_deferred(Data(bytearray_t(20)), pid_of(k)), n->pm[k].known ? (bounded ? 2 : 0) : 1); break; }
            int c = 1 + o.a[1] % 6; for (int i = 0; i < c; i++) send1(n, thr + 4, k, HDR + (o.a[2] >> (i * 3)) % 100, true); break; }
        case OP_MCAST: { std::vector<int> ks; for (int t = 0; t < 3; t++) { Op q = o; q.a[0] = o.a[0] / (t + 1) + t; int kk = own(q, nex, idx); ks.push_back(kk); } mcast(n, ks); break; }
        case OP_CONNPEER: { int ntry; double d = rdelay[n->id]; if (!member) { if (!n->pm[k].known || !n->pm[k].addr) break; ntry = -1; } else { ntry = (int)(o.a[1] % 6) - 1; if (o.a[2] % 2) ntry = -1; d = 0.01 * (1 + o.a[3] % 30); }
            do_connpeer(n, k, ntry, d); break; }
        case OP_SETADDR: { bool null = member && o.a[1] % 5 == 0; if (!member && !n->pm[k].addr) break; int e = !n->pm[k].known; NetAddr a = addr_of(k); if (swap_addr && k < 4 && o.a[2] % 3 == 0) { a = (*nodes)[(k + 1) % 3]->addr; probe("swapped_addr"); }
            expect_id(n, n->net->set_peer_addr(pid_of(k), null ? NetAddr() : a), e); if (!e) { Quiet _; n->pm[k].addr = !null; if (null && !n->att[k].empty()) n->att[k].back().nulled = true; } break; }
        case OP_ADD: { int e = n->pm[k].known; expect_id(n, n->net->add_peer(pid_of(k)), e); if (!e) { { Quiet _; n->pm[k].known = true; n->pm[k].addr = false; }
            if (o.a[1] % 3) { expect_id(n, n->net->set_peer_addr(pid_of(k), addr_of(k)), 0); { Quiet _; n->pm[k].addr = true; } if (o.a[2] % 2) do_connpeer(n, k, o.a[2] % 4 ? -1 : (int)(o.a[2] % 3), 0.01 * (1 + o.a[3] % 30)); } } break; }
        case OP_DEL: { int e = !n->pm[k].known; CRec *lc = nullptr; { Quiet _; if (k < 4 && n->live[k].c && !n->live[k].stale()) lc = n->live[k].c; } expect_id(n, n->net->del_peer(pid_of(k)), e); if (!e) { { Quiet _; n->pm[k].known = n->pm[k].addr = false; } attempts_end(n, k); n->net->has_peer(pid_of(k)); { Quiet _; if (k < 4) n->live[k].t_del = now(); if (lc) { must_die->push_back({lc->uid, now()}); probe("del_connected_peer"); } } attempts_begin(n, k, 0, 0); } break; }
        case OP_QUERY: { bool h = n->net->has_peer(pid_of(k)); if (h != n->pm[k].known) { Quiet _; violation("C11", "has_peer answers %d for a peer that is %sregistered", h, n->pm[k].known ? "" : "not "); }
            bool threw = false; try { auto c = n->net->get_peer_conn(pid_of(k)); if (!c) { Quiet _; violation("C11", "get_peer_conn returned nothing"); } } catch (std::exception &) { threw = true; }
            if (threw != !n->pm[k].known) { Quiet _; violation("C11", "get_peer_conn %s for a peer that is %sregistered", threw ? "failed" : "succeeded", n->pm[k].known ? "" : "not "); } 
            n->net->get_npending(); break; }
        case OP_MANUAL: { int j = (o.node + 1 + o.a[1] % (nnodes - 1)) % nnodes; try { if (o.a[2] % 2) n->net->connect((*nodes)[j]->addr); else n->net->connect_sync((*nodes)[j]->addr); } catch (std::exception &) {} probe("manual_connect"); break; }
        case OP_STALL: { Quiet _; n->stall = (1 + o.a[1] % 200) * 100 * US; break; }
    }
}
static bool driver_op(int k) { return k == OP_RESET || k == OP_PART || k == OP_SILENT || k == OP_RESTART || k == OP_CRASH; }
static int exec_done = 0, exec_total = 0; static bool exec_stop[4];
static void executor(Plan &pl, int node, int idx, int nex, u64 base) {
    int k = 0;
    for (size_t i = 0; i < pl.ops.size(); i++) {
        auto &o = pl.ops[i]; if (o.node != node || driver_op(o.kind)) continue;
        if ((k++ % nex) != idx || !pl.enabled[i]) continue;
        u64 t = base + o.t; if (now() < t) sleep_ns(t - now());
        exec_op(o, idx, nex, idx);
    }
    Quiet _; exec_done++;
}
static void check_silent(int a, int b, u64 tp) { // C08: both ends must have noticed by now
    Quiet _;
    for (int x = 0; x < 2; x++) { Node *n = (*nodes)[x ? b : a]; auto &L = n->live[x ? a : b]; if (!n->up || n->crashed || n->want_stop) continue;
        if (L.c && L.since < tp && !L.stale()) violation("C08", "node %d did not notice within %.2f s that peer %d stopped responding", n->id, (now() - tp) / 1e9, x ? a : b); }
}
static int cuts[8][8];
static void cut(int a, int b, bool on) { if (a > b) std::swap(a, b); int &c = cuts[a][b]; if (on ? c++ == 0 : --c == 0) partition(a, b, on); }
static std::string why;
static bool relevant(int i, int j) { return i != stranger_node && j != stranger_node; }
static bool agreed() {
    Quiet _;
    for (int i = 0; i < nnodes; i++) if (!(*nodes)[i]->up) { why = "node not up"; return false; }
    for (int i = 0; i < nnodes; i++) for (int j = i + 1; j < nnodes; j++) { if (!relevant(i, j)) continue;
        auto &A = (*nodes)[i]->live[j], &B = (*nodes)[j]->live[i]; char b[200];
        if (!A.c || !B.c || A.stale() || B.stale()) { snprintf(b, sizeof b, "node %d %s to node %d, node %d %s to node %d", i, A.c ? "connected" : "not connected", j, j, B.c ? "connected" : "not connected", i); why = b; return false; }
        if (A.tcp != B.tcp) { snprintf(b, sizeof b, "nodes %d and %d consider different connections (%llu and %llu) as theirs", i, j, (unsigned long long)A.tcp, (unsigned long long)B.tcp); why = b; return false; } }
    why.clear(); return true;
}
static bool swapped() { return false; }
// messages that must arrive: accepted, and not (even partly) given to a connection other than the final one
static bool delivered(bool report) {
    Quiet _;
    for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) { if (i == j || !relevant(i, j)) continue;
        Node *n = (*nodes)[i]; u64 fin = n->live[j].tcp; if (!n->live[j].c) continue; int inst = n->inst;
        std::set<std::pair<int, u32>> given; int unident = 0; u64 last_dead = 0;
        for (auto r : *crecs) { if (r->node != i || r->inst != inst || r->remote != j || r->tcp == fin || !r->tcp) continue;
            last_dead = std::max(last_dead, r->t_dead ? r->t_dead : now());
            if (!capture) continue;
            int ca, cp; conn_nodes(r->tcp, ca, cp); std::string s = sent_stream(r->tcp, ca == i);
            size_t o = 0; bool part = false;
            while (o + 13 <= s.size()) { u32 len; memcpy(&len, s.data() + o + 5, 4); uint8_t op = s[o + 4]; if (len > (1 << 20)) break;
                if (op == Data::opcode) { if (o + 13 + HDR <= s.size()) { u32 hd[7]; memcpy(hd, s.data() + o + 13, HDR); given.insert({(int)hd[3], hd[5]}); } else part = true; }
                o += 13 + len; }
            if (o < s.size() && o + 13 > s.size()) part = true;
            if (part) unident++;
        }
        int missing = 0; 
        for (int t = 0; t < NT; t++) { auto f = flows[i][inst % 64][t][j]; if (!f) continue;
            for (size_t q = 0; q < f->size(); q++) { auto &m = (*f)[q]; if (m.state != 1 || m.ndel) continue; if (m.deferred && n->err.count(m.id)) continue;
                if (member && m.t0 < final_t) continue;
                bool may_lose = capture ? given.count({t, (u32)q}) != 0 : m.t0 <= last_dead;
                if (may_lose) continue;
                if (++missing > unident) { char b[200]; snprintf(b, sizeof b, "message %zu of node %d (thread %d) to node %d, sent at %.6f, was accepted but is not delivered", q, i, t, j, m.t0 / 1e9); why = b; return false; } } }
    }
    why.clear(); return true;
}
static void check_attempts() { // C07
    Quiet _;
    auto &log = connect_log();
    for (auto n : *nodes) { if (n->id >= nnodes) continue; for (int k = 4; k < 4 + nfake; k++) { auto &v = n->att[k]; u32 ip = fake_addr[k - 4].ip; uint16_t port = ntohs(fake_addr[k - 4].port);
        for (size_t i = 0; i < v.size(); i++) { auto &w = v[i]; u64 to = w.to ? w.to : now(); int c = 0; for (auto &l : log) if (l.node == n->id && l.ip == ip && l.port == port && l.t >= w.from && l.t < to) c++;
            if (w.ntry >= 0 && c > w.ntry) violation("C07", "node %d: %d connection attempts to peer %d after it asked for %d", n->id, c, k, w.ntry);
            double L = (to - w.from) / 1e9; bool addr_ok = n->pm[k].addr && !w.nulled;
            double per0 = w.delay * 1.5 + conn_to * (tls ? 2 : 1) + 0.2;
            if (w.ntry > 0 && addr_ok && i + 1 == v.size() && c < std::min(w.ntry, (int)((L - 1) / per0) + (L > 1))) violation("C07", "node %d: only %d connection attempts to peer %d in %.1f s although %d were asked for with a retry delay of %.2f s", n->id, c, k, L, w.ntry, w.delay);
            if (w.ntry < 0 && i + 1 == v.size() && addr_ok) { double per = w.delay * 1.5 + conn_to * (tls ? 2 : 1) + 0.2; if (c < (int)((L - 1) / per)) violation("C07", "node %d: only %d connection attempts to peer %d in %.1f s with unlimited tries and a retry delay of %.2f s", n->id, c, k, L, w.delay); } } } }
}
static void run(Plan &pl) {
    endless_means("C06 C07 C10 C17"); step_limit(8000000);
    {
        Quiet _; crecs = new std::vector<CRec *>(); crecs->reserve(4096); nodes = new std::vector<Node *>(); last_on = new std::map<std::pair<u64, u64>, long>(); ders = new std::vector<bytearray_t>();
        memset(flows, 0, sizeof flows); mcs = new std::vector<McRec>(); must_die = new std::vector<std::pair<int, u64>>();
        if (stranger && nnodes == 3) stranger_node = 2;
        capture_streams(capture);
        for (int i = 0; i < 4; i++) { auto n = new Node(); n->id = i; char b[40]; snprintf(b, sizeof b, "10.0.0.%d:%d", i + 1, 7000 + i); n->addr = NetAddr(std::string(b)); nodes->push_back(n);
            if (tls) { auto x = salticidae::X509::create_from_pem_file(std::string(CERT_DIR) + "/n" + std::to_string(i) + ".crt"); ders->push_back(x.get_der()); n->pid = certid ? PeerId(x) : PeerId(n->addr); } else n->pid = PeerId(n->addr); }
        for (int i = 0; i < nfake; i++) { char b[40]; snprintf(b, sizeof b, "10.0.0.%d:%d", i == 0 ? 40 : i, 9000 + i); fake_addr[i] = NetAddr(std::string(b)); fake_pid[i] = PeerId(fake_addr[i]); }
    }
    set_node(9);
    for (int i = 0; i < nnodes; i++) start_node((*nodes)[i]);
    u64 base = now() + 5 * MS;
    for (int i = 0; i < nnodes; i++) { int ne = 1 + (run_seed / 3 + i) % 2; for (int k = 0; k < ne; k++) { exec_total++; spawn(8, ("exec" + std::to_string(i)).c_str(), [&pl, i, k, ne, base] { executor(pl, i, k, ne, base); }); } }
    u64 bound8 = (u64)((1.5 * ping_period + conn_timeout) * 1e9) + 500 * MS;
    for (size_t i = 0; i < pl.ops.size(); i++) {
        auto o = pl.ops[i]; if (!pl.enabled[i] || !driver_op(o.kind)) continue;
        u64 t = base + o.t; if (now() < t) sleep_ns(t - now());
        int a = o.node, b = (o.node + 1 + o.a[0] % (nnodes - 1)) % nnodes; Node *n = (*nodes)[a];
        switch (o.kind) {
            case OP_RESET: reset_conns_between(a, b); break;
            case OP_PART: { cut(a, b, true); u64 d = (1 + o.a[1] % 400) * (o.a[2] % 4 ? 100 * US : 10 * MS); at(now() + d, [a, b] { cut(a, b, false); }); break; }
            case OP_SILENT: { u64 tp = now(); cut(a, b, true); sleep_ns(bound8 + cfg.stall_max_ns * 4); check_silent(a, b, tp); sleep_ns(o.a[1] % (500 * MS)); cut(a, b, false); probe("silent_partition"); break; }
            case OP_RESTART: { if (!n->up || n->want_stop) break; n->want_stop = true;
                if (!wait_until(now() + 60 * SEC, 500 * US, [n] { return n->done; })) { Quiet _; violation("C17", "node %d could not be stopped within 60 s", n->id); finish_run(); }
                count(C_RESTART); sleep_ns(o.a[1] % (o.a[2] % 2 ? 500 * MS : 5 * MS)); start_node(n); break; }
            case OP_CRASH: { if (!n->up || n->want_stop) break; { Quiet _; n->crashed = true; } 
                if (!wait_until(now() + 5 * SEC, 100 * US, [n] { return n->busy == 0; })) { Quiet _; n->crashed = false; break; }
                crash_node(a, false); sleep_ns(o.a[1] % (o.a[2] % 2 ? 500 * MS : 5 * MS)); start_node(n); break; }
        }
    }
    if (!wait_until(now() + 120 * SEC, 1 * MS, [] { return exec_done == exec_total; })) { Quiet _; violation("C11", "a blocking call did not return"); inconclusive("executors stuck"); }
    // ---- faults stop ----
    { Quiet _; faults_on = false; heal_all(); cfg.p_seg = std::min(cfg.p_seg, 0.05); cfg.seg_max = std::max<u64>(cfg.seg_max, 256); cfg.lat_ns = std::min<u64>(cfg.lat_ns, 5 * MS); cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 1 * MS); cfg.p_lat_long = 0; cfg.p_loss = 0; cfg.p_nonce_small = 0; cfg.rand_mode = 0; cfg.p_slice = std::min(cfg.p_slice, 0.2); cfg.p_stall = 0;
      cfg.sndbuf = cfg.rcvbuf = 65536; cfg.eph_ports = 20000; for (auto n : *nodes) n->stall = 0; }
    wait_until(now() + 60 * SEC, 1 * MS, [] { for (int i = 0; i < nnodes; i++) if (!(*nodes)[i]->up) return false; return true; });
    for (int i = 0; i < nnodes; i++) if (!(*nodes)[i]->up) { Quiet _; violation("C17", "node %d does not come up", i); return; }
    double maxrd = 0; for (int i = 0; i < nnodes; i++) maxrd = std::max(maxrd, rdelay[i]);
    if (member) { // let the outcome of the requests show, then bring everything into a regular state
        sleep_ns(cfg_wait * MS); check_attempts();
        auto lingering = [] { Quiet _; for (auto &x : *must_die) { auto r = (*crecs)[x.first]; auto n = (*nodes)[r->node]; if (!r->t_dead && n->inst == r->inst && n->up && !n->crashed) return r->uid; } return -1; };
        wait_until(now() + 2 * SEC, 10 * MS, [&] { return lingering() < 0; }); { Quiet _; int l = lingering(); if (l >= 0) violation("C09", "the connection %d of a removed peer is kept open", l); }
        { Quiet _; for (int i = 0; i < nnodes; i++) { auto n = (*nodes)[i]; for (auto &e : n->expect) { bool er = n->err.count(e.first); if (e.second == 1 && !er) violation("C11", "node %d: failed request %d reported no error", i, e.first); } for (auto &e : n->err) if (!n->expect.count(e.first)) violation("C11", "node %d: error for unknown request %d", i, e.first); } }
        for (int i = 0; i < nnodes; i++) { auto n = (*nodes)[i]; Busy bz(n); if (!bz.ok) continue; for (int j = 0; j < nnodes; j++) if (j != i) {
            if (!n->pm[j].known) { expect_id(n, n->net->add_peer(pid_of(j)), 0); Quiet _; n->pm[j].known = true; }
            expect_id(n, n->net->set_peer_addr(pid_of(j), addr_of(j)), 0); { Quiet _; n->pm[j].addr = true; }
            /* one side of a pair may be passive */
            bool passive = passive_side[std::min(i, j)][std::max(i, j)] == (i < j ? 1 : 2);
            if (!passive || n->pm[j].ntry) do_connpeer(n, j, passive ? 0 : -1, rdelay[i]); } }
    }
    u64 W = (u64)((2 * (conn_timeout + 2 * ping_period) + 60 * (1.5 * maxrd + 2 * conn_to + 0.2)) * 1e9), S = (u64)((1.5 * maxrd + 2 * conn_to + 1) * 1e9), t_end = now() + W, ok_since = 0;
    bool ok = false;
    while (now() < t_end || ok_since) { if (agreed()) { if (!ok_since) ok_since = now(); if (now() - ok_since > S) { ok = true; break; } } else ok_since = 0; if (now() > t_end + 10 * S) break; sleep_ns(10 * MS); }
    if (!ok) { Quiet _; if (why.empty()) why = "connections keep changing"; violation("C06", "peers do not settle within %.0f s after faults stopped: %s", W / 1e9, why.c_str()); violation("C07", "peers are not reconnected within %.0f s after faults stopped: %s", W / 1e9, why.c_str()); return; }
    // ---- stable: nothing may change any more, whether idle or busy ----
    { Quiet _; final_t = now(); stable = true; }
    u64 ups[4][4], downs[4][4]; { Quiet _; for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) { ups[i][j] = (*nodes)[i]->live[j].ups; downs[i][j] = (*nodes)[i]->live[j].downs; } }
    u64 until = now() + (u64)((2.2 * conn_timeout + 4 * ping_period) * 1e9); u64 k = 0;
    while (now() < until) {
        if (steady) for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) if (i != j && relevant(i, j)) { Node *n = (*nodes)[i]; Busy bz(n); if (bz.ok) for (int q = 0; q < 2; q++) send1(n, 3, j, HDR + (k++ * 37) % 200, false); }
        sleep_ns(std::max<u64>(20 * MS, (until - final_t) / 40));
    }
    { Quiet _; for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) if (i != j && relevant(i, j)) { auto &L = (*nodes)[i]->live[j]; if (L.downs != (int)downs[i][j] || L.ups != (int)ups[i][j]) {
        violation("C08", "node %d: the connection to healthy peer %d was given up (ping period %.2f s, timeout %.2f s)", i, j, ping_period, conn_timeout); violation("C06", "node %d: settled connection to peer %d was replaced", i, j); } } }
    if (!agreed()) { Quiet _; violation("C06", "peers do not stay connected: %s", why.c_str()); }
    // one more message each way, then everything that must arrive has arrived
    for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) if (i != j && relevant(i, j)) { Node *n = (*nodes)[i]; Busy bz(n); if (bz.ok) for (int q = 0; q < 20; q++) { if (send1(n, 3, j, HDR + 5, false)) break; sleep_ns(20 * MS); } }
    std::vector<u32> fin_mc;
    for (int i = 0; i < nnodes; i++) if (i != stranger_node) { Node *n = (*nodes)[i]; Busy bz(n); if (!bz.ok) continue; std::vector<int> ks; for (int j = nnodes - 1; j >= 0; j--) if (j != i && relevant(i, j)) { ks.push_back(j); send1(n, 7, j, HDR + 9, true); } if (!ks.empty()) { if (run_seed & 1) ks.push_back(ks[0]); u32 k = mcast(n, ks); Quiet _; fin_mc.push_back(k); } }
    u64 last = progress, t0 = now(); bool del = false;
    while (!(del = delivered(false)) && now() - t0 < 30 * SEC) { if (progress != last) { last = progress; t0 = now(); } sleep_ns(10 * MS); }
    if (!del && agreed()) { delivered(true); Quiet _; violation("C10", "%s", why.c_str()); }
    auto mc_ok = [&] { Quiet _; for (u32 k : fin_mc) { auto &m = (*mcs)[k]; if ((*nodes)[m.src]->err.count(m.id)) continue; for (int j = 0; j < nnodes; j++) if (m.got[j] < m.want[j]) { char b[200]; snprintf(b, sizeof b, "multicast of node %d was delivered %d instead of %d times to node %d", m.src, m.got[j], m.want[j], j); why = b; return false; } } return true; };
    if (del && !wait_until(now() + 10 * SEC, 10 * MS, mc_ok) && agreed()) { mc_ok(); Quiet _; violation("C10", "%s", why.c_str()); }
    // the answers of blocking calls
    for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) if (i != j && relevant(i, j)) { Node *n = (*nodes)[i]; Busy bz(n); if (!bz.ok) continue; auto c = n->net->get_peer_conn(pid_of(j)); Quiet _; auto t = tc(salticidae::static_pointer_cast<ConnPool::Conn>(c)); if (agreed() && (!t || t->rec != n->live[j].c)) violation("C11", "node %d: get_peer_conn answers another connection than the one peer %d is connected through", i, j); }
    if (stranger_node < 0 && agreed()) { // pending inbound connections: none, and one more while a manual connection is open
        int i = run_seed % nnodes, j = (i + 1) % nnodes; Node *n = (*nodes)[i], *m = (*nodes)[j]; Busy b1(n), b2(m);
        if (b1.ok && b2.ok) { bool z = wait_until(now() + (u64)((conn_timeout + 3) * 1e9), 20 * MS, [m] { return m->net->get_npending() == 0; });
            if (!z) { Quiet _; violation("C11", "node %d: get_npending answers %d although no connection is pending", j, (int)m->net->get_npending()); }
            else try { auto c = n->net->connect_sync(m->addr); bool one = wait_until(now() + (u64)(conn_timeout * 0.8e9), 10 * MS, [m] { return m->net->get_npending() == 1; }); bool dead = c->is_terminated(); n->net->terminate(c);
                if (!one && !dead) { Quiet _; violation("C11", "node %d: get_npending does not count a pending connection", j); } } catch (std::exception &e) { Quiet _; violation("C18", "connect failed: %s", e.what()); } } }
    if (stranger_node >= 0) { Quiet _; for (int i = 0; i < nnodes; i++) if (i != stranger_node && knows_addr[stranger_node][i] && !(*nodes)[i]->unknown_from.count(stranger_node)) violation("C09", "node %d never reported the unregistered node that contacts it", i); }
    { Quiet _; for (int i = 0; i < nnodes; i++) { auto n = (*nodes)[i]; for (auto &e : n->expect) { bool er = n->err.count(e.first); if (e.second == 1 && !er) violation("C11", "node %d: failed request %d reported no error", i, e.first); } } }
    { Quiet _; u64 h = 0; for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) h = h * 31 + (*nodes)[i]->live[j].ups * 5 + (*nodes)[i]->live[j].downs; set_state_hash((h * 64 + crecs->size()) | 1); }
    for (int i = 0; i < nnodes; i++) (*nodes)[i]->want_stop = true;
    bool d = wait_until(now() + 120 * SEC, 1 * MS, [] { for (int i = 0; i < nnodes; i++) if (!(*nodes)[i]->done) return false; return true; });
    Quiet _; if (!d) violation("C17", "networks could not be stopped within 120 s");
}
static RegScenario reg(Scenario{"peer", gen, run, opname});
// ---- retry scenario: C07, one side connects with a limited number of tries while the other one comes and goes ----
namespace retry {
static void gen(Plan &p, Rng &r) {
    tls = run_variant & 1; member = true; certid = tls && r.chance(0.5); nnodes = 2; nfake = 0; stranger = false; swap_addr = false; capture = false; steady = false;
    for (auto &w : nworker) w = r.range(1, 3);
    max_msg = 1000; chunk = r.chance(0.3) ? r.logrange(16, 64) : 4096; recvbuf = 4096; bounded = false; sendbuf = 0; msgq = 256; burst = r.chance(0.5) ? 1000 : r.range(1, 5);
    ping_period = 0.02 * r.logrange(2, 100); conn_timeout = ping_period * 1.5 + 0.5 + r.real(); conn_to = r.chance(0.5) ? 1 : 0.05 * r.range(4, 20);
    int n = r.range(1, 5);
    for (int i = 0; i < n; i++) { Op o{}; o.kind = OP_CONNPEER; o.t = i * SEC; for (auto &x : o.a) x = r.next(); p.ops.push_back(o); }
    cfg.lat_ns = std::min<u64>(cfg.lat_ns, 2 * MS); cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 2 * MS); cfg.p_lat_long = 0; cfg.p_loss = 0; cfg.stall_max_ns = std::min<u64>(cfg.stall_max_ns, 5 * MS); cfg.eph_ports = 20000;
    if (cfg.p_seg > 0 && cfg.seg_max < 64) cfg.seg_max = 64; cfg.sndbuf = std::max<u64>(cfg.sndbuf, 2048); cfg.rcvbuf = std::max<u64>(cfg.rcvbuf, 2048);
    if (tls) cfg.slice_max = std::max<u64>(cfg.slice_max, 200);
}
static int tries(u64 from) { Quiet _; int c = 0; u32 ip = (*nodes)[1]->addr.ip; uint16_t port = ntohs((*nodes)[1]->addr.port); for (auto &l : connect_log()) if (l.node == 0 && l.ip == ip && l.port == port && l.t >= from) c++; return c; }
static void bring_up() { Node *n = (*nodes)[1]; if (n->up && !n->crashed) return; node_silent(1, false); start_node(n); wait_until(now() + 20 * SEC, 1 * MS, [n] { return n->up; }); Busy b(n); if (b.ok) { n->net->add_peer(pid_of(0)); n->net->has_peer(pid_of(0)); } }
static void take_down(u64 how) {
    Node *n = (*nodes)[1];
    if (how % 3 == 2) { { Quiet _; n->crashed = true; } bool silent = how & 8; crash_node(1, silent); probe(silent ? "silent_crash" : "crash"); }
    else { n->want_stop = true; if (!wait_until(now() + 60 * SEC, 500 * US, [n] { return n->done; })) { Quiet _; violation("C17", "node 1 could not be stopped within 60 s"); finish_run(); } probe("stop"); }
}
static void run(Plan &pl) {
    endless_means("C07 C17"); step_limit(8000000);
    { Quiet _; crecs = new std::vector<CRec *>(); crecs->reserve(4096); nodes = new std::vector<Node *>(); last_on = new std::map<std::pair<u64, u64>, long>(); ders = new std::vector<bytearray_t>(); memset(flows, 0, sizeof flows); mcs = new std::vector<McRec>(); must_die = new std::vector<std::pair<int, u64>>();
      for (int i = 0; i < 4; i++) { auto n = new Node(); n->id = i; char b[40]; snprintf(b, sizeof b, "10.0.0.%d:%d", i + 1, 7000 + i); n->addr = NetAddr(std::string(b)); nodes->push_back(n);
          if (tls) { auto x = salticidae::X509::create_from_pem_file(std::string(CERT_DIR) + "/n" + std::to_string(i) + ".crt"); ders->push_back(x.get_der()); n->pid = certid ? PeerId(x) : PeerId(n->addr); } else n->pid = PeerId(n->addr); } }
    set_node(9); Node *a = (*nodes)[0], *b = (*nodes)[1]; Live &L = a->live[1];
    start_node(a); wait_until(now() + 20 * SEC, 1 * MS, [a] { return a->up; }); if (!a->up) { Quiet _; violation("C17", "node 0 does not come up"); return; }
    { Busy z(a); a->net->add_peer(pid_of(1)); a->net->set_peer_addr(pid_of(1), b->addr); a->net->has_peer(pid_of(1)); }
    double detect = 1.5 * ping_period + conn_timeout + 0.5, slack = 1.0; u64 sig = 0;
    for (size_t i = 0; i < pl.ops.size(); i++) {
        auto o = pl.ops[i]; if (!pl.enabled[i]) continue;
        int nt = (int)(o.a[0] % 7) - 1; double d = 0.02 * (1 + o.a[1] % 25), per = 1.5 * d + conn_to * (tls ? 2 : 1) + 0.2; int how = o.a[2] % 4; // how the request meets the peer
        auto full = [&](int k) { return (u64)(((k < 0 ? 3 : k) * per + slack) * 1e9); };
        auto req = [&] { Busy z(a); a->net->conn_peer(pid_of(1), nt, d); a->net->has_peer(pid_of(1)); };
        auto exact = [&](u64 from, u64 w, int want, int unl, const char *when, int old = 0) { // old: attempts that may belong to an earlier request
            int c = tries(from); if (want >= 0 && c > want) c = std::max(want, c - old); sig = sig * 31 + c;
            if (want >= 0 && c != want) { Quiet _; violation("C07", "%d connection attempts were made in %.2f s %s, instead of %d (conn_peer with %d tries, delay %.2f s)", c, w / 1e9, when, want, nt, d); }
            if (want < 0 && c < unl) { Quiet _; violation("C07", "only %d connection attempts were made in %.2f s %s (conn_peer with unlimited tries, delay %.2f s)", c, w / 1e9, when, d); } };
        if (how == 0 || how == 3) { // the peer is not there: all attempts fail
            if (b->up && !b->crashed) { take_down(o.a[3]); sleep_ns((u64)((detect + 0.5) * 1e9)); }
            u64 t0 = now(); req(); int old = tries(t0); u64 w = full(nt); sleep_ns(w); exact(t0, w, nt, 2, "after a request", old); probe("request_to_dead_peer");
            if (how == 3) { t0 = now(); w = full(1) + 2 * SEC; sleep_ns(w); exact(t0, w, nt < 0 ? -1 : 0, 1, "after the tries were used up"); }
            continue;
        }
        if (how == 1) { // the peer comes while the attempts are going on
            if (b->up && !b->crashed) { take_down(o.a[3]); sleep_ns((u64)((detect + 0.5) * 1e9)); }
            u64 t0 = now(); req(); int f = nt > 1 ? o.a[4] % nt : o.a[4] % 3; wait_until(now() + full(nt), 1 * MS, [&] { return tries(t0) >= f; }); bring_up(); probe("peer_comes_later");
        } else { bring_up(); int u0; { Quiet _; u0 = L.ups; } req(); wait_until(now() + full(nt ? nt : 1), 1 * MS, [&] { return L.ups > u0 && L.c; }); probe("request_to_live_peer"); }
        u64 settle = (u64)((1.5 * d + 2 * conn_to + 0.3) * 1e9);
        wait_until(now() + full(nt), 1 * MS, [&] { return L.c != nullptr; }); sleep_ns(settle); u64 s0; CRec *c0; { Quiet _; s0 = L.since; c0 = L.c; }
        if (!L.c || !b->live[0].c || b->live[0].tcp != L.tcp) { // the tries were used up before
            if (nt < 0) { wait_until(now() + 60 * SEC, 10 * MS, [&] { return L.c && b->live[0].c; }); if (!L.c) { Quiet _; violation("C07", "a peer that came up is not connected although tries are unlimited"); } }
            probe("not_connected"); continue; }
        { u64 t1 = now(); sleep_ns(settle); bool same; { Quiet _; same = L.c == c0 && L.since == s0; } if (!same) { probe("unsteady"); continue; } exact(t1, settle, 0, 0, "while connected"); }
        // the connection is lost; the first of the tries is the one that was just lost
        u64 t1 = now(); take_down(o.a[3]); u64 w = (u64)(detect * 1e9) + full(nt); sleep_ns(w); if (L.c == c0) { Quiet _; violation("C08", "the loss of the peer was not noticed"); continue; }
        exact(t1, w, nt > 0 ? nt - 1 : nt, 2, "after the connection was lost"); probe("lost");
    }
    { Quiet _; set_state_hash(sig * 64 + crecs->size() + 1); faults_on = false; cfg.p_stall = 0; }
    a->want_stop = true; if (b->up && !b->crashed) b->want_stop = true;
    bool d = wait_until(now() + 120 * SEC, 1 * MS, [&] { return a->done && (b->done || !b->up || b->crashed); });
    Quiet _; if (!d) violation("C17", "networks could not be stopped within 120 s");
}
static RegScenario reg2(Scenario{"retry", gen, run, opname});
}
// ---- simultaneous open without faults: C06 (settled at the first try, nothing established is given up), C08 (rate of the heartbeat) ----
namespace simul {
static u64 lat, spread; static int active_kind[4][4]; static u64 idle_periods;
static void gen(Plan &p, Rng &r) {
    tls = run_variant & 1; member = true; certid = tls && r.chance(0.6); nnodes = r.chance(0.7) ? 2 : r.range(3, 4); nfake = 0; stranger = false; swap_addr = false; capture = !tls; steady = r.chance(0.3);
    for (auto &w : nworker) w = r.range(1, 3);
    max_msg = 1000; chunk = r.chance(0.3) ? r.logrange(16, 64) : 4096; recvbuf = 4096; bounded = false; sendbuf = 0; msgq = 256; burst = r.chance(0.5) ? 1000 : r.range(1, 5);
    ping_period = 0.05 * r.logrange(1, 40); conn_timeout = ping_period * 1.5 + 3; conn_to = 3;
    for (auto &d : rdelay) d = 2 + 0.1 * r.below(20);
    for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) { int k = r.below(6); active_kind[i][j] = k != 0; active_kind[j][i] = k != 1; }
    lat = r.logrange(2, 40) * MS; cfg.lat_ns = lat; cfg.lat_jit_ns = r.chance(0.5) ? 0 : lat / 8; cfg.p_lat_long = 0; cfg.p_loss = 0; cfg.p_stall = 0; cfg.eph_ports = 20000; cfg.p_nonce_small = r.chance(0.5) ? 0.9 : 0;
    spread = r.chance(0.5) ? 0 : lat / 2; idle_periods = r.range(2, 8);
    if (cfg.p_seg > 0 && cfg.seg_max < 64) cfg.seg_max = 64; cfg.sndbuf = std::max<u64>(cfg.sndbuf, 4096); cfg.rcvbuf = std::max<u64>(cfg.rcvbuf, 4096);
    if (tls) cfg.slice_max = std::max<u64>(cfg.slice_max, 200);
    for (int i = 0; i < nnodes; i++) { Op o{}; o.kind = OP_CONNPEER; o.node = i; o.t = spread ? r.below(spread) : 0; p.ops.push_back(o); }
}
static int npings(u64 tcp, bool active) { std::string s = sent_stream(tcp, active); size_t o = 0; int c = 0; while (o + 13 <= s.size()) { u32 len; memcpy(&len, s.data() + o + 5, 4); if ((uint8_t)s[o + 4] == 0xf0) c++; if (len > (1 << 20)) break; o += 13 + len; } return c; }
static int asked = 0; static u64 t_last = 0;
static void run(Plan &pl) {
    endless_means("C06 C17"); step_limit(8000000);
    { Quiet _; crecs = new std::vector<CRec *>(); crecs->reserve(4096); nodes = new std::vector<Node *>(); last_on = new std::map<std::pair<u64, u64>, long>(); ders = new std::vector<bytearray_t>(); memset(flows, 0, sizeof flows); mcs = new std::vector<McRec>(); must_die = new std::vector<std::pair<int, u64>>(); capture_streams(capture);
      for (int i = 0; i < 4; i++) { auto n = new Node(); n->id = i; char b[40]; snprintf(b, sizeof b, "10.0.0.%d:%d", i + 1, 7000 + i); n->addr = NetAddr(std::string(b)); nodes->push_back(n);
          if (tls) { auto x = salticidae::X509::create_from_pem_file(std::string(CERT_DIR) + "/n" + std::to_string(i) + ".crt"); ders->push_back(x.get_der()); n->pid = certid ? PeerId(x) : PeerId(n->addr); } else n->pid = PeerId(n->addr); } }
    set_node(9); faults_on = false;
    for (int i = 0; i < nnodes; i++) start_node((*nodes)[i]);
    wait_until(now() + 20 * SEC, 1 * MS, [] { for (int i = 0; i < nnodes; i++) if (!(*nodes)[i]->up) return false; return true; });
    for (int i = 0; i < nnodes; i++) { auto n = (*nodes)[i]; Busy z(n); if (!z.ok) { Quiet _; violation("C17", "node %d does not come up", i); return; }
        for (int j = 0; j < nnodes; j++) if (j != i) { n->net->add_peer(pid_of(j)); n->net->set_peer_addr(pid_of(j), addr_of(j)); n->net->has_peer(pid_of(j)); Quiet _; n->pm[j].known = n->pm[j].addr = true; } }
    u64 t0 = now() + MS;
    for (int i = 0; i < nnodes; i++) spawn(8, "asker", [&pl, i, t0] { auto &o = pl.ops[i]; Node *n = (*nodes)[i]; Busy z(n); if (now() < t0 + o.t) sleep_ns(t0 + o.t - now());
        for (int j = 0; j < nnodes; j++) if (j != i && active_kind[i][j]) n->net->conn_peer(pid_of(j), -1, rdelay[i]);
        n->net->has_peer(pid_of((i + 1) % nnodes)); Quiet _; asked++; t_last = std::max(t_last, now()); });
    wait_until(now() + 20 * SEC, 1 * MS, [] { return asked == nnodes; });
    u64 first; { Quiet _; first = 0; for (auto &l : connect_log()) if (!first || l.t < first) first = l.t; }
    bool sure = asked == nnodes && (!first || t_last < first + lat * 7 / 8); // every request took effect before anything could be established
    probe(sure ? "simultaneous" : "not_simultaneous");
    u64 W = 120 * SEC, e = now() + W; while (now() < e && !agreed()) sleep_ns(5 * MS);
    if (!agreed()) { Quiet _; violation("C06", "peers do not settle within %.0f s without any fault: %s", W / 1e9, why.c_str()); return; }
    if (now() > t_last + 1500 * MS) sure = false; // slower than the retry delay
    auto check = [&] { Quiet _; if (sure) for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) if (i != j && active_kind[i][j] + active_kind[j][i] == 1) { auto &L = (*nodes)[i]->live[j]; // (an attempt of the other side that is under way may replace the first one)
        if (L.downs || L.ups > 1) violation("C06", "node %d: its connection to peer %d was reported connected %d and disconnected %d times although nothing went wrong and nobody asked for it", i, j, L.ups, L.downs); } };
    sleep_ns(4 * SEC); check(); for (int k = 0; k < 50 && !agreed(); k++) sleep_ns(2 * SEC); sleep_ns(4 * SEC); 
    std::map<std::pair<u64, int>, int> before; u64 t1 = now(); auto pings = [&](std::map<std::pair<u64, int>, int> &m) { Quiet _; for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) if (i != j && (*nodes)[i]->live[j].c) { u64 t = (*nodes)[i]->live[j].tcp; int a, p; conn_nodes(t, a, p); m[{t, i}] = npings(t, a == i); } };
    if (capture) pings(before);
    u64 until = t1 + (u64)(idle_periods * ping_period * 1e9), k = 0;
    while (now() < until) { if (steady) for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) if (i != j) { Node *n = (*nodes)[i]; Busy bz(n); if (bz.ok) send1(n, 3, j, HDR + (k++ * 37) % 200, false); } sleep_ns(std::max<u64>(5 * MS, (u64)(ping_period * 1e9 / 4))); }
    if (capture) { std::map<std::pair<u64, int>, int> after; u64 t2 = now(); pings(after); Quiet _; for (auto &x : after) if (before.count(x.first)) { int c = x.second - before[x.first], lim = (int)((t2 - t1) / 1e9 / ping_period) + 2;
        if (c > lim) violation("C08", "%d pings were sent to an idle peer in %.2f s with a ping period of %.2f s", c, (t2 - t1) / 1e9, ping_period); } }
    check(); if (!agreed()) { Quiet _; violation("C06", "peers do not stay connected: %s", why.c_str()); }
    { Quiet _; u64 h = 0; for (int i = 0; i < nnodes; i++) for (int j = 0; j < nnodes; j++) h = h * 31 + (*nodes)[i]->live[j].tcp; set_state_hash((h * 64 + crecs->size()) | 1); }
    for (int i = 0; i < nnodes; i++) (*nodes)[i]->want_stop = true;
    bool d = wait_until(now() + 120 * SEC, 1 * MS, [] { for (int i = 0; i < nnodes; i++) if (!(*nodes)[i]->done) return false; return true; });
    Quiet _; if (!d) violation("C17", "networks could not be stopped within 120 s");
}
static RegScenario reg3(Scenario{"simul", gen, run, opname});
}
