// C23: a receiver that does not keep up does not cost its peers unbounded memory, stops nobody else, and
// loses nothing.  Node 0 floods node 1 whose message handler stands still; node 2 keeps up.
#include "scen/common.h"
#include "salticidae/network.h"
#include <memory>
using namespace scen; using namespace sim;
using salticidae::EventContext; using salticidae::NetAddr; using salticidae::DataStream; using salticidae::TimerEvent; using salticidae::ConnPool; using salticidae::bytearray_t; using salticidae::htole; using salticidae::letoh;
typedef salticidae::MsgNetwork<uint8_t> Net;
static const int B = 4;
static bool tls; static size_t L, chunk, recvbuf, sendbuf, msgq, burst; static int nworker[3], nconn1, end_mode; static u64 horizon;
enum { OP_BURST, OP_HOLD, OP_STALLTHR };
static void gen(Plan &p, Rng &r) {
    tls = run_variant & 1; L = r.logrange(12, 400); chunk = r.logrange(16, 2000); recvbuf = r.range(1, 8); sendbuf = r.chance(0.3) ? 0 : r.range(1, 24); msgq = r.range(1, 24); burst = r.chance(0.3) ? 1000 : r.range(1, 6);
    for (auto &w : nworker) w = r.range(1, 3); nconn1 = r.chance(0.3) ? 2 : 1; end_mode = r.below(4); horizon = r.logrange(1, 60) * MS;
    int n = r.range(2, 14); for (int i = 0; i < n; i++) { Op o{}; o.t = r.below(horizon); o.node = r.below(3); for (auto &x : o.a) x = r.next(); o.kind = r.chance(0.7) ? OP_BURST : r.chance(0.7) ? OP_HOLD : OP_STALLTHR; p.ops.push_back(o); }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    cfg.sndbuf = r.logrange(200, 4000); cfg.rcvbuf = r.logrange(200, 4000); cfg.seg_max = std::max<u64>(cfg.seg_max, 64); cfg.p_f_reset = 0; cfg.eph_ports = 20000; cfg.lat_ns = std::min<u64>(cfg.lat_ns, 200 * US); cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 200 * US); cfg.lat_long_ns = std::min<u64>(cfg.lat_long_ns, 5 * MS);
    if (tls) { cfg.slice_max = std::max<u64>(cfg.slice_max, 200); chunk = std::max<size_t>(chunk, 64); }
}
static std::string opname(const Op &o) { static const char *n[] = {"sends a burst", "stops handling messages for a while", "loop thread stalls"}; return "node " + std::to_string(o.node) + " " + n[o.kind]; }
struct Rec { int from, to, ci; bool acc; int ndel; };
struct Chan { ConnPool::conn_t conn; int from, to; }; // sending ends
struct Node { int id; EventContext *ec = nullptr; Net *net = nullptr; bool up = false, stop = false, done = false; u64 hold_until = 0; bool hold = false, in_handler = false; u64 nacc = 0, ndel = 0; };
static Node nd[3]; static std::vector<Rec> *ms; static std::vector<Chan> *ch; static int ndisc = 0; static int exec_done = 0; static bool ending = false, closing = false; static u64 rx_base = 0, rx_worst = 0, last_idx[8];
static u64 hdr_len() { return Net::Msg::header_size + L; }
// the number of messages that the buffers on the way of one connection may hold
static u64 slots(size_t cap) { return (std::max<size_t>(cap / B, 1) + 1) * B; }
static u64 recv_side() { return (recvbuf + 1) * chunk / hdr_len() + 3; }
static u64 bound_conn() { return slots(sendbuf) + 2 + (cfg.sndbuf + cfg.rcvbuf) / hdr_len() + 2 + recv_side() + 4; }
static u64 bound_total(int nc) { return nc * bound_conn() + slots(msgq) + 8; }
static void bad(const char *s) { violation("C23", "%s", s); }
static bool do_send(int ci) {
    auto &c = (*ch)[ci]; uint32_t idx; { Quiet _; idx = ms->size(); ms->push_back(Rec{c.from, c.to, ci, false, 0}); }
    DataStream s; s << htole(idx); { Quiet _; for (size_t i = 4; i < L; i++) s << (uint8_t)(idx * 7 + i); }
    bool ok = nd[c.from].net->_send_msg(Net::Msg(0x10, bytearray_t(std::move(s))), salticidae::static_pointer_cast<Net::Conn>(c.conn));
    Quiet _; (*ms)[idx].acc = ok; if (ok) { nd[c.to].nacc++; } else { probe("refused"); if (!sendbuf) bad("a message was refused although the send buffer is not bounded"); } return ok;
}
static u64 backlog_of(int ci) { u64 n = 0; for (auto &m : *ms) if (m.ci == ci && m.acc && !m.ndel) n++; return n; }
static void got(Node &n, const Net::Msg &msg) {
    DataStream s = msg.get_payload(); uint32_t idx = 0; size_t sz = s.size(); if (sz >= 4) { s >> idx; idx = letoh(idx); }
    { Quiet _; if (sz != L || idx >= ms->size() || (*ms)[idx].to != n.id) { bad("a message arrived that was never sent"); return; } auto &m = (*ms)[idx]; const uint8_t *p = s.data(); for (size_t i = 4; i < L; i++) if (p[i - 4] != (uint8_t)(idx * 7 + i)) { bad("a message arrived with other contents"); return; }
      if (m.ndel++) bad("a message arrived twice"); n.ndel++; n.in_handler = true; }
    while ((n.hold || now() < n.hold_until) && !n.stop) sleep_ns(500 * US);
    Quiet _; n.in_handler = false;
}
static void node_main(Node &n) {
    n.ec = new EventContext(); Net::Config c; ConnPool::Config &pc = c; pc.nworker(nworker[n.id]).recv_chunk_size(chunk).max_recv_buff_size(recvbuf).max_send_buff_size(sendbuf).conn_server_timeout(5);
    std::string cf = std::string(CERT_DIR) + "/n" + std::to_string(n.id); if (tls) pc.enable_tls(true).tls_cert_file(cf + ".crt").tls_key_file(cf + ".key");
    c.max_msg_queue_size(msgq).burst_size(burst).max_msg_size(L); n.net = new Net(*n.ec, c);
    n.net->set_handler(0x10, [&n](const Net::Msg &m, const Net::conn_t &) { got(n, m); });
    n.net->reg_conn_handler([&n](const ConnPool::conn_t &conn, bool con) { Quiet _; if (!con) { ndisc++; if (!closing) bad("a connection was closed though nothing failed"); } else if (conn->get_mode() == ConnPool::Conn::PASSIVE) ch->push_back(Chan{conn, n.id, -1}); return true; });
    n.net->reg_error_handler([](const std::exception_ptr e, bool fatal, int32_t) { Quiet _; if (fatal) bad("fatal error"); });
    n.net->start(); n.net->listen(NetAddr(node_ip(n.id), htons(9000)));
    auto ctl = new TimerEvent(*n.ec, nullptr); ctl->set_callback([&n, ctl](TimerEvent &) { if (n.stop) { n.ec->stop(); return; } ctl->add(0.008); }); ctl->add(0.008);
    n.up = true; n.ec->dispatch(); delete ctl; { Quiet _; for (auto &c : *ch) if (c.from == n.id) c.conn = nullptr; } delete n.net; delete n.ec; Quiet _; n.done = true; n.up = false;
}
static int pick(const Op &o) { std::vector<int> v; for (size_t i = 0; i < ch->size(); i++) if ((*ch)[i].from == o.node && ((*ch)[i].to == 1 || o.a[1] % 3)) v.push_back(i); if (v.empty()) return -1; return v[o.a[0] % v.size()]; }
static void watch() { // bytes read by the stalled node but not yet handed to the application
    u64 per = hdr_len(), d = node_rx_bytes(1) - rx_base, h = (nd[1].ndel - 0) * per; if (tls) return; if (d > h + nconn1 * ((recvbuf + 1) * chunk + 2 * per) + (slots(msgq) + 2) * per) bad("a node keeps reading from its connections although it does not handle the messages");
}
static void do_op(const Op &o) {
    switch (o.kind) { case OP_HOLD: { Quiet _; nd[1].hold_until = now() + (1 + o.a[0] % 30) * MS; } break; case OP_STALLTHR: stall_fiber(o.a[0] % fiber_count(), now() + o.a[1] % (5 * MS)); break;
        default: { int ci; { Quiet _; ci = pick(o); } if (ci < 0) return; int k = 1 + o.a[2] % 30; while (k--) if (!do_send(ci) && o.a[3] % 2) break; watch(); } }
}
static void executor(Plan &pl, int thr, int nexec) { u64 t0 = now(); for (size_t i = 0; i < pl.ops.size(); i++) { if (!pl.enabled[i] || (int)(pl.ops[i].a[5] % nexec) != thr) continue; auto &o = pl.ops[i]; if (now() < t0 + o.t) sleep_ns(t0 + o.t - now()); do_op(o); } Quiet _; exec_done++; }
static bool all_delivered(int ci) { for (auto &m : *ms) if ((ci < 0 || m.ci == ci) && m.acc && !m.ndel) return false; return true; }
static const u64 LONG = 60 * SEC;
static void run(Plan &pl) {
    endless_means("C23"); { Quiet _; ms = new std::vector<Rec>(); ms->reserve(20000); ch = new std::vector<Chan>(); ch->reserve(16); }
    for (int i = 0; i < 3; i++) { nd[i].id = i; spawn(i, i == 0 ? "node0" : i == 1 ? "node1" : "node2", [i] { node_main(nd[i]); }); wait_until(now() + 20 * SEC, 1 * MS, [i] { return nd[i].up; }); }
    // connections: node 1 (one or two) and node 2 connect to node 0
    for (int k = 0; k < nconn1 + 1; k++) { int who = k < nconn1 ? 1 : 2; size_t have; { Quiet _; have = ch->size(); }
        bool rev = run_seed >> (5 + k) & 1; int act = rev ? 0 : who, pas = rev ? who : 0; // either side may have opened it
        auto c = nd[act].net->connect_sync(NetAddr(node_ip(pas), htons(9000))); wait_until(now() + 20 * SEC, 1 * MS, [have] { return ch->size() > have; });
        Quiet _; if (ch->size() <= have) { bad("no connection"); return; } ch->back().to = act; ch->push_back(Chan{c, act, pas}); }
    { Quiet _; rx_base = node_rx_bytes(1); }
    faults_on = true; int nexec = 1 + run_seed % 3; for (int i = 0; i < nexec; i++) spawn(9, "exec", [&pl, i, nexec] { executor(pl, i, nexec); });
    wait_until(now() + 100 * SEC, 1 * MS, [nexec] { return exec_done == nexec; }); faults_on = (run_seed >> 3) & 1;
    { Quiet _; nd[1].hold_until = 0; } if (!wait_until(now() + LONG, 2 * MS, [] { return all_delivered(-1); })) { Quiet _; bad("messages that were accepted are not delivered after the receiver went on"); return; }
    // now node 1 stands still and is flooded until it refuses or the buffers must have overflown
    { Quiet _; nd[1].hold = true; } u64 lim = bound_total(nconn1), sent = 0; std::vector<int> to1, from1; int to2 = -1, from2 = -1; { Quiet _; for (size_t i = 0; i < ch->size(); i++) { auto &c = (*ch)[i]; (c.to == 1 ? to1.push_back(i) : c.from == 1 ? from1.push_back(i) : c.to == 2 ? (void)(to2 = i) : (void)(from2 = i)); } }
    u64 refused_in_row = 0, cap_try = lim + 200; bool full = false;
    for (; sent < cap_try && !full; sent++) { bool any = false; for (auto ci : to1) any |= do_send(ci); watch(); if (!any) { refused_in_row++; sleep_ns(1 * MS); if (refused_in_row > 40) full = true; } else { refused_in_row = 0; if (sent % 8 == 7) sleep_ns(100 * US); }
        Quiet _; if (sendbuf) { u64 n = 0; for (auto ci : to1) { u64 b = backlog_of(ci); n += b; if (b > bound_conn() + slots(msgq)) { bad("a connection to a receiver that stands still keeps accepting messages"); return; } } if (n > lim) { bad("connections to a receiver that stands still keep accepting messages"); return; } } }
    if (!sendbuf) { wait_until(now() + 20 * MS, 2 * MS, [] { watch(); return false; }); }
    if (sendbuf && full) { probe("full"); u64 a, b; { Quiet _; a = mem_user().live_bytes; } bool some = false; for (int i = 0; i < 300; i++) for (auto ci : to1) some |= do_send(ci); { Quiet _; b = mem_user().live_bytes; if (!some && b > a + 100 * (L + 64) + 4096) bad("refused messages remain in memory"); } }
    // the others, and the other direction, go on
    for (int ci : {to2, from2, from1[0]}) { int k = 1 + run_seed % 5; while (k--) if (!do_send(ci)) { Quiet _; if (backlog_of(ci) < (u64)std::max<int>(1, sendbuf / B) * B && backlog_of(ci) == 0) bad("a message was refused by an idle connection"); break; } }
    if (!wait_until(now() + LONG, 2 * MS, [to2, from2, &from1] { return all_delivered(to2) && all_delivered(from2) && all_delivered(from1[0]); })) { Quiet _; bad(!all_delivered(from1[0]) ? "a node that does not handle its messages cannot send any more" : "a receiver that stands still holds up another connection"); return; }
    if (end_mode == 0) { probe("stopped_while_full"); } // node 1 goes away while everything is full
    else {
        { Quiet _; nd[1].hold = false; } if (!wait_until(now() + LONG, 2 * MS, [] { return all_delivered(-1); })) { Quiet _; bad("messages that were accepted are not delivered after the receiver went on"); return; }
        for (auto ci : to1) { bool ok = do_send(ci); Quiet _; if (!ok) bad("a message is refused although everything was delivered"); }
        if (!wait_until(now() + LONG, 2 * MS, [] { return all_delivered(-1); })) { Quiet _; bad("a message sent after the receiver went on is not delivered"); return; }
    }
    { Quiet _; u64 h = 0; for (auto &m : *ms) h = h * 3 + m.acc; set_state_hash(h | 1); closing = true; }
    int order[3] = {1, 0, 2}; if (end_mode == 2) std::swap(order[0], order[1]);
    for (int i : order) { { Quiet _; nd[i].stop = true; } if (!wait_until(now() + LONG, 1 * MS, [i] { return nd[i].done; })) { Quiet _; bad("a node whose buffers are full does not stop"); return; } }
}
static RegScenario reg(Scenario{"flood", gen, run, opname});
