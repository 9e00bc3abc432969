// C19: client network: addressed sends reach exactly the client at that address.
#include "scen/common.h"
#include "salticidae/network.h"
#include <memory>
#include <arpa/inet.h>
using namespace scen; using namespace sim;
using salticidae::EventContext; using salticidae::NetAddr; using salticidae::DataStream; using salticidae::TimerEvent; using salticidae::ConnPool; using salticidae::bytearray_t;
typedef salticidae::MsgNetwork<uint8_t> CNet; typedef salticidae::ClientNetwork<uint8_t> SNet;

enum { OP_CONN, OP_TERM, OP_SEND, OP_DEFER, OP_UP, OP_STALL, OP_RESET, OP_PART, OP_CRASH, OP_STERM, OP_BOGUS, OP_HAMMER, OP_NOPS };
static int nclients, nports, nworker[8]; static size_t sendbuf, burst; static u64 horizon; static bool tls; static double p_reply;
static void gen(Plan &p, Rng &r) {
    tls = run_variant & 1; nclients = r.range(1, 3); nports = r.range(1, 4); sendbuf = r.chance(0.3) ? r.range(1, 12) : 0; burst = r.chance(0.5) ? 1000 : r.range(1, 4); for (auto &w : nworker) w = r.range(1, 3);
    horizon = r.logrange(3, 300) * MS; p_reply = r.real(); cfg.eph_ports = nports;
    int n = r.range(6, 40); bool resets = r.chance(0.5), parts = r.chance(0.2), stalls = r.chance(0.5), crashes = r.chance(0.4), sterm = r.chance(0.4), hammer = r.chance(0.4);
    for (int i = 0; i < n; i++) {
        Op o{}; o.t = r.below(horizon); o.node = 1 + r.below(nclients); for (auto &x : o.a) x = r.next();
        switch (r.below(20)) {
            case 0: case 1: case 2: case 3: o.kind = OP_CONN; break; case 4: case 5: o.kind = OP_TERM; break; case 6: case 7: o.kind = OP_DEFER; break; case 8: case 9: o.kind = OP_UP; break;
            case 10: o.kind = stalls ? OP_STALL : OP_SEND; break; case 11: o.kind = resets ? OP_RESET : OP_CONN; break; case 12: o.kind = parts ? OP_PART : OP_SEND; break; case 13: o.kind = crashes ? OP_CRASH : OP_TERM; break;
            case 14: o.kind = sterm ? OP_STERM : OP_CONN; break; case 15: o.kind = OP_BOGUS; break; case 16: case 17: o.kind = hammer ? OP_HAMMER : OP_SEND; break; default: o.kind = OP_SEND;
        }
        if (i < nclients) { o.kind = OP_CONN; o.node = 1 + i; o.t = r.below(horizon / 4 + 1); }
        p.ops.push_back(o);
    }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    if (tls) { cfg.slice_max = std::max<u64>(cfg.slice_max, 200); if (cfg.p_seg > 0 && cfg.seg_max < 24) cfg.seg_max = 24; }
    else { cfg.seg_max = std::max<u64>(cfg.seg_max, 8); }
}
static std::string opname(const Op &o) { static const char *n[] = {"client connects", "client terminates a connection", "server sends", "server defers sends", "client sends", "stall", "reset", "partition", "client crashes", "server terminates a connection", "server sends to an unused address", "server hammers"}; char b[160]; snprintf(b, sizeof b, "%s %d %d %d", n[o.kind], (int)(o.a[0] % 1000), (int)(o.a[1] % 1000), (int)(o.a[2] % 1000)); return b; }

struct Rec { int uid, node; u64 tcp = 0; NetAddr addr; bool has_addr = false; int ncon = 0, ndisc = 0; u64 t_con = 0, t_disc = 0; u16 lport = 0; bool gone = false; std::map<int, int> last; };
enum { PENDING, OK, FALSE_, THROWN };
struct M { NetAddr to; int thr, seq; u64 t0, t1 = 0; int res = PENDING; int ndel = 0; int32_t id = -1; bool deferred = false; int conn = -1; bool nobody0 = false, nobody1 = false, final = false; };
static std::vector<Rec *> *recs; static std::vector<M> *ms; static std::map<int32_t, int> *errs; static std::map<int, int> *seqs;
struct TS : public SNet::Conn { Rec *rec; TS() { Quiet _; rec = new Rec(); rec->uid = recs->size(); rec->node = 0; recs->push_back(rec); } int get_fd() const { return fd; } };
struct TC : public CNet::Conn { Rec *rec; TC() { Quiet _; rec = new Rec(); rec->uid = recs->size(); rec->node = cur_node(); recs->push_back(rec); } int get_fd() const { return fd; } };
struct Data { static const uint8_t opcode; DataStream serialized; bytearray_t bytes; Data(bytearray_t &&b): serialized(std::move(b)) {} Data(DataStream &&s): bytes(std::move(s)) {} };
const uint8_t Data::opcode = 0x01;
class TSNet : public SNet { public: TSNet(const EventContext &ec, const Config &c): SNet(ec, c) {} ConnPool::Conn *create_conn() override { return new TS(); }
    void on_worker_setup(const ConnPool::conn_t &c) override { { Quiet _; auto t = static_cast<TS *>(c.get()); t->rec->tcp = sock_conn_id(t->get_fd()); } SNet::on_worker_setup(c); } };
class TCNet : public CNet { public: TCNet(const EventContext &ec, const Config &c): CNet(ec, c) {} ConnPool::Conn *create_conn() override { return new TC(); }
    void on_worker_setup(const ConnPool::conn_t &c) override { { Quiet _; auto t = static_cast<TC *>(c.get()); SockInfo si; if (sock_info(t->get_fd(), si)) { t->rec->lport = si.lport; t->rec->tcp = sock_conn_id(t->get_fd()); } } CNet::on_worker_setup(c); } };
static TSNet *snet; static EventContext *sec; static bool s_up = false, s_done = false, s_stop = false; static int s_fiber = -1; static u64 s_stall = 0; static std::vector<ConnPool::conn_t> *s_held; static NetAddr *s_addr;
struct Client { int id; int inst = 0; EventContext *ec = nullptr; TCNet *net = nullptr; bool up = false, stop = false, done = true, dead = false; int busy = 0; u64 stall = 0; std::vector<ConnPool::conn_t> held; };
static std::vector<Client *> *cl; static u64 progress = 0; static bool ending = false;
static const char *CD() { return CERT_DIR; }
static Rec *live_rec(const NetAddr &a) { Rec *b = nullptr; for (auto r : *recs) if (r->node == 0 && r->ncon && !r->ndisc && r->has_addr && r->addr == a && (!b || r->t_con > b->t_con)) b = r; return b; }
// no connection from that address exists or has existed for two seconds
static bool nobody(const NetAddr &a) {
    for (auto r : *recs) if (r->node == 0 && r->has_addr && r->addr == a && (!r->ndisc || r->t_disc + 2 * SEC > now())) return false;
    int node = -1; for (int i = 1; i <= nclients; i++) if (a.ip == node_ip(i)) node = i;
    return node < 0 || tcp_from(node, ntohs(a.port)) == 0;
}
static bytearray_t payload(u32 idx, const M &m, size_t len) { if (len < 16) len = 16; bytearray_t b(len); u32 hd[4] = {idx, m.to.ip, m.to.port, (u32)len}; memcpy(b.data(), hd, 16); u32 x = idx * 2654435761u | 1; for (size_t i = 16; i < len; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; b[i] = x; } return b; }
static int send_to(const NetAddr &a, int thr, size_t len, bool deferred, bool final = false) {
    int idx; bytearray_t b;
    { Quiet _; idx = ms->size(); ms->emplace_back(); auto &m = ms->back(); m.to = a; m.thr = thr; m.seq = (*seqs)[thr]++; m.t0 = now(); m.deferred = deferred; m.final = final; if (auto r = live_rec(a)) m.conn = r->uid; m.nobody0 = nobody(a); b = payload(idx, m, len); }
    int res = OK; int32_t id = -1;
    if (deferred) { if (thr & 1) id = snet->send_msg_deferred(Data(std::move(b)), a); else { Data d(std::move(b)); id = snet->send_msg_deferred(std::move(d), a); } }
    else try { if (!snet->send_msg(Data(std::move(b)), a)) res = FALSE_; } catch (salticidae::ClientNetworkError &) { res = THROWN; } catch (salticidae::SalticidaeError &) { res = THROWN; }
    Quiet _; auto &m = (*ms)[idx]; m.t1 = now(); m.res = res; m.id = id; m.nobody1 = nobody(a); progress++;
    if (!deferred) {
        if (res != OK && m.ndel) violation("C19", "message to %s was delivered although its send failed", std::string(a).c_str());
        if (res == FALSE_ && !sendbuf) violation("C19", "send to %s refused although the send buffer is unbounded", std::string(a).c_str());
        if (res == OK && m.nobody0 && m.nobody1) violation("C19", "send to %s, where no client is connected, reported as successful", std::string(a).c_str());
    } else if (id < 0) violation("C19", "deferred send returned id %d", id);
    return res;
}
static void client_got(Client *c, TC *t, const bytearray_t &b) {
    Quiet _; progress++; u32 hd[4]; if (b.size() < 16) { violation("C19", "truncated message"); return; } memcpy(hd, b.data(), 16);
    if (hd[0] >= ms->size() || hd[3] != b.size()) { violation("C19", "corrupted message"); return; }
    auto &m = (*ms)[hd[0]]; if (b != payload(hd[0], m, b.size())) { violation("C19", "corrupted message"); return; }
    NetAddr me(node_ip(c->id), htons(t->rec->lport));
    if (!(m.to == me)) violation("C19", "message for %s was delivered to the client at %s", std::string(m.to).c_str(), std::string(me).c_str());
    if (m.ndel++) violation("C19", "message for %s delivered twice", std::string(m.to).c_str());
    if (m.res == FALSE_ || m.res == THROWN) violation("C19", "message for %s delivered although its send failed", std::string(m.to).c_str());
    if (m.id >= 0 && errs->count(m.id)) violation("C19", "message for %s delivered although an error was reported for it", std::string(m.to).c_str());
    auto &l = t->rec->last[m.thr + (m.deferred ? 100 : 0)]; if (l > m.seq) violation("C19", "messages of one thread for %s out of order", std::string(m.to).c_str()); l = m.seq + 1;
    note(610, hd[0]); probe("delivered");
}
static void server_main() {
    s_fiber = cur_fiber(); sec = new EventContext(); SNet::Config c; ConnPool::Config &pc = c;
    pc.nworker(nworker[0]).max_send_buff_size(sendbuf).conn_server_timeout(2); c.burst_size(burst).max_msg_queue_size(2 + run_seed % 60);
    if (tls) pc.enable_tls(true).tls_cert_file(std::string(CD()) + "/n0.crt").tls_key_file(std::string(CD()) + "/n0.key");
    snet = new TSNet(*sec, c); bool reply = p_reply > 0;
    snet->reg_handler([reply](Data &&, const SNet::conn_t &conn) {
        Rec *r; { Quiet _; progress++; r = static_cast<TS *>(conn.get())->rec; }
        if (reply && coin(K_APP, p_reply)) send_to(conn->get_addr(), 0, 20, coin(K_APP, 0.3)); });
    snet->reg_conn_handler([](const ConnPool::conn_t &conn, bool con) {
        NetAddr a = conn->get_addr(); Rec *r;
        { Quiet _; progress++; r = static_cast<TS *>(conn.get())->rec; r->addr = a; r->has_addr = true; if (con) { r->ncon++; r->t_con = now(); s_held->push_back(conn); } else { r->ndisc++; r->t_disc = now(); for (size_t i = 0; i < s_held->size(); i++) if ((*s_held)[i].get() == conn.get()) { s_held->erase(s_held->begin() + i); break; } }
          tracef("server conn %d %s %s", r->uid, std::string(a).c_str(), con ? "connected" : "disconnected"); note(611, r->uid, con);
          for (auto o : *recs) if (con && o != r && o->node == 0 && o->has_addr && o->addr == a) { probe("address_reused"); if (!o->ndisc) probe("address_reused_early"); break; } }
        if (con && coin(K_APP, 0.4)) send_to(a, 0, 24, coin(K_APP, 0.3));
        if (!con && coin(K_APP, 0.3)) send_to(a, 0, 24, coin(K_APP, 0.3));
        return true; });
    snet->reg_error_handler([](const std::exception_ptr e, bool fatal, int32_t id) {
        Quiet _; std::string w; try { std::rethrow_exception(e); } catch (std::exception &x) { w = x.what(); } catch (...) { w = "?"; }
        tracef("server error fatal=%d id=%d %s", fatal, id, w.c_str()); progress++;
        if (fatal) violation("C19", "fatal error: %s", w.c_str()); if (id >= 0 && ++(*errs)[id] > 1) violation("C19", "two errors for request %d", id); });
    snet->start(); snet->listen(*s_addr);
    auto ctl = new TimerEvent(*sec, nullptr); ctl->set_callback([ctl](TimerEvent &) { if (s_stall) { u64 s = s_stall; s_stall = 0; sleep_ns(s); } if (s_stop) { sec->stop(); return; } ctl->add(0.008); }); ctl->add(0.008);
    s_up = true; sec->dispatch(); s_up = false; delete ctl; s_held->clear(); delete snet; snet = nullptr; delete sec; Quiet _; s_done = true;
}
static void client_main(Client *n) {
    n->ec = new EventContext(); CNet::Config c; ConnPool::Config &pc = c; pc.nworker(nworker[n->id]).conn_server_timeout(1); c.max_msg_queue_size(2 + run_seed % 60);
    if (tls) pc.enable_tls(true).tls_cert_file(std::string(CD()) + "/n1.crt").tls_key_file(std::string(CD()) + "/n1.key");
    n->net = new TCNet(*n->ec, c);
    n->net->reg_handler([n](Data &&m, const CNet::conn_t &conn) { client_got(n, static_cast<TC *>(static_cast<ConnPool::Conn *>(conn.get())), m.bytes); });
    n->net->reg_conn_handler([n](const ConnPool::conn_t &conn, bool con) { Quiet _; progress++; auto r = static_cast<TC *>(conn.get())->rec; if (con) { r->ncon++; n->held.push_back(conn); } else { r->ndisc++; for (size_t i = 0; i < n->held.size(); i++) if (n->held[i].get() == conn.get()) { n->held.erase(n->held.begin() + i); break; } } return true; });
    n->net->reg_error_handler([](const std::exception_ptr, bool fatal, int32_t) { Quiet _; if (fatal) violation("C19", "fatal error in a client"); });
    n->net->start();
    auto ctl = new TimerEvent(*n->ec, nullptr); ctl->set_callback([n, ctl](TimerEvent &) { if (n->stall) { u64 s = n->stall; n->stall = 0; sleep_ns(s); } if (n->stop && !n->busy) { n->ec->stop(); return; } ctl->add(0.008); }); ctl->add(0.008);
    n->up = true; n->ec->dispatch(); n->up = false; delete ctl; { std::vector<ConnPool::conn_t> x; { Quiet _; x.swap(n->held); } } delete n->net; n->net = nullptr; delete n->ec; Quiet _; n->done = true;
}
static void start_client(int i) { Quiet _; auto n = new Client(); n->id = i; n->done = false; if ((*cl)[i]) n->inst = (*cl)[i]->inst + 1; (*cl)[i] = n; spawn(i, ("client" + std::to_string(i)).c_str(), [n] { client_main(n); }); }
struct Busy { Client *n; bool ok; Busy(Client *n): n(n) { Quiet _; ok = n->up && !n->stop && !n->dead; if (ok) n->busy++; } ~Busy() { Quiet _; if (ok) n->busy--; } };
static NetAddr pick_addr(u64 sel) { // an address that is or was in use, or may come into use
    Quiet _; std::vector<NetAddr> v; for (auto r : *recs) if (r->node == 0 && r->has_addr && !r->ndisc) { v.push_back(r->addr); v.push_back(r->addr); } for (auto r : *recs) if (r->node == 0 && r->has_addr) v.push_back(r->addr);
    if (v.empty() || sel % 11 == 10) return NetAddr(node_ip(1 + sel / 11 % nclients), htons(40000 + sel / 100 % nports)); return v[sel % v.size()];
}
static void exec_op(const Op &o, int thr) {
    Client *n = (*cl)[o.node];
    switch (o.kind) {
        case OP_CONN: { Busy b(n); if (!b.ok) break; int k = 1 + (o.a[0] % 4 == 0); for (int i = 0; i < k; i++) { if (o.a[1] % 2) n->net->connect(*s_addr); else try { n->net->connect_sync(*s_addr); } catch (std::exception &) {} } break; }
        case OP_TERM: { Busy b(n); if (!b.ok) break; ConnPool::conn_t c; { Quiet _; if (n->held.size()) c = n->held[o.a[0] % n->held.size()]; } if (c) n->net->terminate(c); break; }
        case OP_UP: { Busy b(n); if (!b.ok) break; ConnPool::conn_t c; { Quiet _; if (n->held.size()) c = n->held[o.a[0] % n->held.size()]; } if (c) for (int i = 0; i <= (int)(o.a[1] % 3); i++) n->net->send_msg(Data(bytearray_t(16)), salticidae::static_pointer_cast<CNet::Conn>(c)); break; }
        case OP_SEND: for (int i = 0; i <= (int)(o.a[1] % 4); i++) { send_to(pick_addr(o.a[0] + (o.a[2] & 1) * i), thr, 16 + o.a[3] % 200, false); if (o.a[2] & 2) sleep_ns(o.a[4] % (3 * MS)); } break;
        case OP_DEFER: for (int i = 0; i <= (int)(o.a[1] % 4); i++) send_to(pick_addr(o.a[0] + (o.a[2] & 1) * i), thr, 16 + o.a[3] % 200, true); break;
        case OP_BOGUS: send_to(NetAddr(node_ip(1 + o.a[0] % 6), htons(20 + o.a[1] % 5)), thr, 20, o.a[2] & 1); break;
        case OP_HAMMER: { int k = 10 + o.a[1] % 50; for (int i = 0; i < k; i++) { send_to(o.a[2] % 3 ? NetAddr(node_ip(1 + (o.a[0] + i) % nclients), htons(40000 + (o.a[0] + i / nclients) % nports)) : pick_addr(o.a[0] + i), thr, 16, false); if (o.a[3] % 2) sleep_ns(o.a[4] % (100 * US)); } break; }
        case OP_STALL: { Quiet _; u64 d = o.a[1] % (20 * MS); switch (o.a[0] % 3) { case 0: s_stall = d; break; case 1: n->stall = d; break; default: { int f = o.a[2] % fiber_count(); if (f) stall_fiber(f, now() + d); } } break; }
        case OP_RESET: reset_conns_between(0, o.node); break;
        case OP_PART: { partition(0, o.node, true); int nd = o.node; at(now() + o.a[0] % (50 * MS), [nd] { partition(0, nd, false); }); break; }
        case OP_STERM: { ConnPool::conn_t c; { Quiet _; if (s_held->size()) c = (*s_held)[o.a[0] % s_held->size()]; } if (c) snet->terminate(c); break; }
        case OP_CRASH: { { Quiet _; if (n->dead || !n->up || n->busy) break; n->dead = true; for (auto r : *recs) if (r->node == o.node) r->gone = true; } crash_node(o.node, o.a[0] % 3 == 0); sleep_ns(o.a[1] % (5 * MS)); { Quiet _; } start_client(o.node); break; }
    }
}
static int exec_done = 0;
static void executor(Plan &pl, int thr, int nexec) {
    u64 t0 = now();
    for (size_t i = 0; i < pl.ops.size(); i++) { if (!pl.enabled[i] || (int)(pl.ops[i].a[5] % nexec) != thr) continue; auto &o = pl.ops[i]; if (now() < t0 + o.t) sleep_ns(t0 + o.t - now()); exec_op(o, thr + 1); }
    Quiet _; exec_done++;
}
static bool both_up(Rec *r) { if (!r->ncon || r->ndisc) return false; for (auto c : *recs) if (c->node && c->tcp == r->tcp && c->ncon && !c->ndisc && !c->gone) return true; return false; }
static void settle(u64 quiet, u64 limit) { u64 p = progress, t = now(), t0 = now(); while (now() < t0 + limit) { sleep_ns(2 * MS); if (p != progress) { p = progress; t = now(); } else if (now() - t > quiet) break; } }
static void run(Plan &pl) {
    endless_means("C19 C05");
    { Quiet _; recs = new std::vector<Rec *>(); ms = new std::vector<M>(); ms->reserve(4096); errs = new std::map<int32_t, int>(); seqs = new std::map<int, int>(); s_held = new std::vector<ConnPool::conn_t>(); cl = new std::vector<Client *>(8); s_addr = new NetAddr(node_ip(0), htons(9000)); }
    spawn(0, "server", [] { server_main(); }); while (!s_up) sleep_ns(1 * MS);
    for (int i = 1; i <= nclients; i++) start_client(i);
    wait_until(now() + 5 * SEC, 1 * MS, [] { for (int i = 1; i <= nclients; i++) if (!(*cl)[i]->up) return false; return true; });
    faults_on = true; int nexec = 1 + run_seed % 3;
    for (int i = 0; i < nexec; i++) spawn(9, ("exec" + std::to_string(i)).c_str(), [&pl, i, nexec] { executor(pl, i, nexec); });
    wait_until(now() + 200 * SEC, 1 * MS, [nexec] { return exec_done == nexec; });
    if (exec_done != nexec) { Quiet _; violation("C19", "the calls of the application do not return"); return; }
    faults_on = false; heal_all(); sleep_ns(4 * SEC); settle(500 * MS, 20 * SEC);
    // everybody has a connection now; sends to each of them must arrive
    for (int i = 1; i <= nclients; i++) { auto n = (*cl)[i]; wait_until(now() + 5 * SEC, 1 * MS, [n] { return n->up; }); Busy b(n); if (b.ok && n->held.empty()) for (int k = 0; k < 10; k++) { try { n->net->connect_sync(*s_addr); break; } catch (std::exception &) { sleep_ns(500 * MS); } } }
    sleep_ns(1 * SEC); settle(500 * MS, 20 * SEC);
    std::vector<NetAddr> live; { Quiet _; for (auto r : *recs) if (r->node == 0 && both_up(r)) live.push_back(r->addr); }
    for (auto &a : live) for (int k = 0; k < 3; k++) { bool def = k == 1; int r = send_to(a, 7, 20 + 10 * k, def, true); if (r == THROWN) { Quiet _; violation("C19", "send to the connected client at %s failed", std::string(a).c_str()); } sleep_ns(20 * MS); }
    settle(500 * MS, 20 * SEC);
    { Quiet _; u64 h = 0;
      for (size_t i = 0; i < ms->size(); i++) { auto &m = (*ms)[i]; Rec *r = m.conn >= 0 ? (*recs)[m.conn] : nullptr; h = h * 31 + m.res * 4 + m.ndel;
        int ne = m.id >= 0 && errs->count(m.id) ? 1 : 0;
        // the connection was reported as up before the call and long enough after it
        bool up = r && r->t_con < m.t0 && (!r->ndisc || r->t_disc > m.t1 + 2 * SEC);
        if (up && m.res == THROWN) violation("C19", "send %zu to %s failed although the client there is connected", i, std::string(m.to).c_str());
        if (up && m.deferred && ne && !sendbuf) violation("C19", "deferred send to %s reported as failed although the client there is connected", std::string(m.to).c_str());
        if (up && both_up(r) && m.res == OK && !ne && m.ndel != 1) violation("C19", "message %zu for the connected client at %s was never delivered", i, std::string(m.to).c_str());
        if (m.deferred && m.ndel && ne) violation("C19", "deferred message delivered and reported as failed");
        if (m.deferred && m.nobody0 && m.nobody1 && m.to.port != 0 && ntohs(m.to.port) < 1000 && !ne) violation("C19", "deferred send to %s, where no client is connected, reported no error", std::string(m.to).c_str());
      } set_state_hash(h | 1); }
    // everybody leaves; all addresses are dead now
    for (int i = 1; i <= nclients; i++) { auto n = (*cl)[i]; { Quiet _; n->stop = true; } }
    wait_until(now() + 30 * SEC, 1 * MS, [] { for (int i = 1; i <= nclients; i++) if (!(*cl)[i]->done) return false; return true; });
    sleep_ns(1 * SEC); settle(500 * MS, 10 * SEC); sleep_ns(2 * SEC);
    std::set<u64> seen; std::vector<NetAddr> all; { Quiet _; for (auto r : *recs) if (r->node == 0 && r->has_addr && r->ndisc && seen.insert((u64)r->addr.ip << 16 | r->addr.port).second) all.push_back(r->addr); }
    for (auto &a : all) { send_to(a, 7, 20, false); int k; { Quiet _; k = ms->size(); } send_to(a, 7, 20, true); sleep_ns(300 * MS); Quiet _; auto &m = (*ms)[k]; if (m.nobody0 && m.nobody1 && !errs->count(m.id)) violation("C19", "deferred send to %s, where no client is connected any more, reported no error", std::string(a).c_str()); }
    s_stop = true; wait_until(now() + 60 * SEC, 1 * MS, [] { return s_done; });
    Quiet _; if (!s_done) violation("C17", "server cannot be stopped");
}
static RegScenario reg(Scenario{"client", gen, run, opname});
