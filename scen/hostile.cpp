// Hostile remote scenario: two honest peers (nodes 0 and 1) and an attacker (node 2) that sends whatever it likes.
// C12 C13 C09 (variant bit 1 = TLS).  Plain: the attacker uses raw sockets; TLS: raw sockets and a TLS endpoint writing raw bytes.
#include "scen/common.h"
#include "salticidae/network.h"
#include <arpa/inet.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <unistd.h>
using namespace scen; using namespace sim;
using salticidae::EventContext; using salticidae::NetAddr; using salticidae::DataStream; using salticidae::TimerEvent;
using salticidae::ConnPool; using salticidae::bytearray_t; using salticidae::PeerId;
typedef salticidae::PeerNetwork<uint8_t> Net;
typedef Net::MsgNet MsgNet;

enum { OP_ATTACK, OP_ATTACK2, OP_STALL, OP_SEND, OP_RESET, OP_VANISH, OP_FLOOD, OP_DELADD };
static bool tls, certid, spoof, reg_hostile, hostile_listens; static size_t max_msg, chunk, recvbuf, msgq, burst, sendbuf; static int nworker[3]; static double ping_period, conn_timeout, conn_to, rdelay; static u64 horizon;
static void gen(Plan &p, Rng &r) {
    tls = run_variant & 1; certid = tls && r.chance(0.8); spoof = !certid && r.chance(0.3); reg_hostile = r.chance(0.5); hostile_listens = reg_hostile || r.chance(0.2);
    max_msg = r.logrange(64, 1500); chunk = r.chance(0.3) ? r.logrange(1, 64) : 4096; recvbuf = r.chance(0.6) ? 4096 : r.range(1, 8); msgq = r.chance(0.4) ? 256 : r.range(1, 12); burst = r.chance(0.5) ? 1000 : r.range(1, 5);
    sendbuf = r.chance(0.7) ? 0 : r.range(4, 30);
    for (auto &w : nworker) w = r.range(1, 3);
    ping_period = 0.02 * r.logrange(2, 60); conn_timeout = ping_period * 1.5 + 2 + 2 * r.real(); conn_to = r.chance(0.5) ? 2 : 0.05 * r.range(4, 20); rdelay = 0.02 * r.logrange(1, 30);
    horizon = r.logrange(5, 1500) * MS;
    int nops = r.range(2, 16); bool stalls = r.chance(0.6), resets = r.chance(0.3), vanish = r.chance(0.25), flood = r.chance(0.15), del = reg_hostile && r.chance(0.2);
    for (int i = 0; i < nops; i++) {
        Op o{}; o.t = r.below(horizon); o.node = r.below(2); for (auto &x : o.a) x = r.next();
        switch (r.below(14)) {
            default: o.kind = OP_ATTACK; break;
            case 5: o.kind = OP_ATTACK2; break;
            case 6: case 7: o.kind = stalls ? OP_STALL : OP_ATTACK; break;
            case 8: case 9: o.kind = OP_SEND; break;
            case 10: o.kind = resets ? OP_RESET : OP_ATTACK; break;
            case 11: o.kind = vanish ? OP_VANISH : OP_ATTACK; break;
            case 12: o.kind = flood ? OP_FLOOD : OP_ATTACK; break;
            case 13: o.kind = del ? OP_DELADD : OP_ATTACK; break;
        }
        if (i == 0) o.kind = OP_ATTACK;
        p.ops.push_back(o);
    }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    if (chunk < 16 || cfg.seg_max < 8) { cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 100000); cfg.lat_ns = std::min<u64>(cfg.lat_ns, 100000); }
    cfg.lat_ns = std::min<u64>(cfg.lat_ns, 20 * MS); cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 20 * MS); cfg.p_loss = 0; cfg.p_lat_long = 0;
    if (tls) { cfg.slice_max = std::max<u64>(cfg.slice_max, 200); if (cfg.p_seg > 0 && cfg.seg_max < 24) cfg.seg_max = 24; }
    if (tls && std::min(cfg.sndbuf, cfg.rcvbuf) < 1024) { cfg.lat_ns = std::min<u64>(cfg.lat_ns, 300 * US); cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 300 * US); } // a handshake takes dozens of round trips
    if (tls) rdelay = std::max(rdelay, 0.05 + 20 * (cfg.lat_ns + cfg.lat_jit_ns) / 1e9); // leaves an attempt the time to succeed before the next one replaces it
}
static std::string opname(const Op &o) {
    static const char *n[] = {"attack", "slow-attack", "loop-stall", "honest-sends", "reset-attacker", "attacker-vanishes", "connection-flood", "del-add-hostile"};
    char b[200]; snprintf(b, sizeof b, "%s a0=%llu a1=%llu a2=%llu a3=%llu", n[o.kind], (unsigned long long)o.a[0] % 1000, (unsigned long long)o.a[1] % 1000, (unsigned long long)o.a[2] % 1000, (unsigned long long)o.a[3] % 1000);
    return b;
}
// ---- messages ---------------------------------------------------------------------------------------------
struct Data { static const uint8_t opcode; DataStream serialized; bytearray_t bytes; Data(bytearray_t &&b): serialized(std::move(b)) {} Data(DataStream &&s): bytes(std::move(s)) {} };
struct HData { static const uint8_t opcode; DataStream serialized; bytearray_t bytes; HData(DataStream &&s): bytes(std::move(s)) {} };
struct Thrower { static const uint8_t opcode; DataStream serialized; uint32_t a[4]; Thrower(DataStream &&s) { s >> a[0] >> a[1] >> a[2] >> a[3]; } };
const uint8_t Data::opcode = 0x21; const uint8_t HData::opcode = 0x31; const uint8_t Thrower::opcode = 0x32;
typedef std::string Bytes;
static u32 sum_of(const Bytes &p) { salticidae::MsgBase<uint8_t> m(0); m.set_payload(bytearray_t(p.begin(), p.end())); return m.get_checksum(); }
static void put32(Bytes &b, u32 x) { for (int i = 0; i < 4; i++) b += (char)(x >> (8 * i)); }
static Bytes frame(uint8_t op, const Bytes &payload, long len = -1, int bad = 0, u32 magic = 0) {
    Bytes b; put32(b, magic); b += (char)op; put32(b, len < 0 ? payload.size() : (u32)len); put32(b, sum_of(payload) ^ (bad ? (1u << (bad % 32)) : 0)); return b + payload;
}
static Bytes hs(const NetAddr &a, u32 nonce) { Bytes b; b += (char)1; DataStream s; s << a; bytearray_t t(std::move(s)); b.append((char *)t.data(), t.size()); put32(b, nonce); return b; }
// ---- attacks --------------------------------------------------------------------------------------------------
struct Attack {
    int id, victim; u64 tcp = 0; std::vector<Bytes> chunks; // what is written, piece by piece
    int nok = 0, must = 0;      // intact messages that may be / have to be delivered
    bool inbound = false, over = false, over_sure = false, hold = true, closed_seen = false, unknown_ping = false, finished = false, failed = false, bad_end = false; NetAddr claimed; int got = 0; u64 t_end = 0; bool written = false; int kills = 0, k_parse = 0, k_unknown = 0;
};
static std::vector<Attack *> *attacks; static std::map<u64, Attack *> *by_tcp;
static Bytes hpay(int id, int seq, size_t len) { Bytes b; put32(b, 0x484f5354); put32(b, id); put32(b, seq); if (len < 16) len = 16; put32(b, len); u32 x = id * 77777 + seq * 131 + 1; while (b.size() < len) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; b += (char)x; } return b; }
static NetAddr addr_of(int k) { char b[40]; snprintf(b, sizeof b, "10.0.0.%d:%d", k + 1, 7000 + k); return NetAddr(std::string(b)); }
// builds the script of an attack; inbound: the victim connected to us
static void build(Attack *a, u64 seed, bool inbound) {
    Rng r; r.seed(seed); int n = r.range(1, 10); bool open = true; // open: what follows is still framed and read by the victim
    bool must = true; std::vector<Bytes> fr;
    auto ok = [&] { int s = a->nok; if (!open) return; fr.push_back(frame(HData::opcode, hpay(a->id, s, 16 + r.below(r.chance(0.3) ? max_msg - 15 : 30)))); a->nok++; if (must) a->must = a->nok; };
    bool hostile = false;
    for (int i = 0; i < n && open; i++) {
        int k = r.below(20);
        if (k >= 17 && !inbound) { ok(); continue; }
        switch (k) {
            default: ok(); break;
            case 3: { Bytes p = hpay(a->id, 5000 + i, 16 + r.below(40)); fr.push_back(frame(HData::opcode, p, -1, 1 + r.below(31))); hostile = true; break; }
            case 4: { Bytes p = hpay(a->id, 6000 + i, 16 + r.below(40)), f = frame(HData::opcode, p); f[13 + r.below(p.size())] ^= 1 << r.below(8); fr.push_back(f); hostile = true; break; }
            case 5: { long len = r.chance(0.5) ? max_msg + 1 + r.below(50) : r.chance(0.5) ? 0xffffffffL : r.range(max_msg + 1, 0x7fffffff); fr.push_back(frame(HData::opcode, hpay(a->id, 7000, 16 + r.below(60)), len)); a->over = true; a->over_sure = must; open = false; break; }
            case 6: { Bytes g; int m = r.range(1, 60); for (int j = 0; j < m; j++) g += (char)r.next(); fr.push_back(g); open = false; must = false; a->bad_end = true; break; }
            case 7: { fr.push_back(frame(0x77, Bytes(r.below(20), 'x'))); break; } // unregistered opcode
            case 8: { fr.push_back(frame(Thrower::opcode, Bytes(r.below(16), 'y'))); must = false; a->kills++; a->k_parse++; break; }
            case 9: { fr.push_back(frame(0xf0, r.chance(0.5) ? Bytes() : Bytes(1 + r.below(6), '\1'))); must = false; a->kills++; a->k_parse++; break; } // truncated ping
            case 10: { fr.push_back(frame(0xf1, r.chance(0.5) ? Bytes() : Bytes(1 + r.below(6), '\1'))); must = false; a->kills++; a->k_parse++; break; } // truncated pong
            case 11: fr.push_back(frame(0xf0, Bytes(1, '\0'))); break; // heartbeat ping
            case 12: fr.push_back(frame(0xf1, Bytes(1, '\0'))); break; // heartbeat pong
            case 13: { NetAddr c = r.chance(0.5) ? addr_of(2) : NetAddr("10.9.9.9:999"); if (spoof && r.chance(0.6)) c = addr_of(1 - a->victim); else if (certid && r.chance(0.4)) c = addr_of(1 - a->victim); if (r.chance(0.1)) c = NetAddr();
                       u32 nonce = r.chance(0.2) ? 0 : r.chance(0.3) ? 0xffff : r.chance(0.2) ? 0xffffffffu : r.range(1, 65536);
                       fr.push_back(frame(0xf0, hs(c, nonce))); 
                       bool known = certid ? reg_hostile : (reg_hostile && c == addr_of(2)) || c == addr_of(0) || c == addr_of(1);
                       if (!c.is_null()) { if (!known && must && !inbound) { a->unknown_ping = true; a->claimed = c; } must = false; if (!known && !inbound) { a->kills++; a->k_unknown++; } } break; }
            case 14: case 17: case 18: { NetAddr c = r.chance(0.6) ? addr_of(2) : r.chance(0.5) ? addr_of(1) : NetAddr("10.9.9.9:999"); fr.push_back(frame(0xf1, hs(c, r.chance(0.3) ? 0xffff : r.next()))); must = false; break; }
            case 15: fr.push_back(frame(HData::opcode, hpay(a->id, a->nok, 16), -1, 0, (u32)r.next())); a->nok++; if (must) a->must = a->nok; break; // other magic: not checked by the library
            case 16: { Bytes f = frame(HData::opcode, hpay(a->id, 8000, 30)); fr.push_back(f.substr(0, r.below(f.size()))); open = false; a->bad_end = true; break; } // truncated
        }
    }
    (void)hostile;
    Bytes all; for (auto &f : fr) all += f;
    size_t o = 0; while (o < all.size()) { size_t k = r.chance(0.4) ? all.size() - o : 1 + r.below(r.chance(0.5) ? 8 : 200); k = std::min(k, all.size() - o); a->chunks.push_back(all.substr(o, k)); o += k; }
    a->hold = r.chance(0.7);
}
// ---- honest nodes ----------------------------------------------------------------------------------------------
static u64 progress = 0;
struct CRec { int uid, node; u64 tcp = 0; int remote = -1; };
static std::vector<CRec *> *crecs;
struct TConn : public Net::Conn { CRec *rec; TConn() { Quiet _; rec = new CRec(); rec->uid = crecs->size(); rec->node = cur_node(); crecs->push_back(rec); } int get_fd() const { return fd; } };
static CRec *rc(const ConnPool::conn_t &c) { auto t = dynamic_cast<TConn *>(c.get()); return t ? t->rec : nullptr; }
class TestNet : public Net {
    public: TestNet(const EventContext &ec, const Config &c): Net(ec, c) {}
    ConnPool::Conn *create_conn() override { return new TConn(); }
    void on_worker_setup(const ConnPool::conn_t &c) override {
        { Quiet _; auto t = dynamic_cast<TConn *>(c.get()); t->rec->tcp = sock_conn_id(t->get_fd()); int a, p; if (conn_nodes(t->rec->tcp, a, p)) t->rec->remote = a == t->rec->node ? p : a; }
        Net::on_worker_setup(c);
    }
};
struct Node {
    int id; EventContext *ec = nullptr; TestNet *net = nullptr; bool up = false, want_stop = false, done = false; int loop_fiber = -1, in_cb = 0; u64 stall = 0;
    NetAddr addr; PeerId pid; int ups[4] = {}, downs[4] = {}; CRec *live[4] = {}; std::vector<NetAddr> unknown; int noversized = 0, nerr = 0; u32 nsent = 0, nrecv = 0, nman = 0; bool del_hostile = false;
};
static std::vector<Node *> *nodes; static std::vector<bytearray_t> *ders; static bool attacking = false;
static PeerId pid_of(int k) { return (*nodes)[k]->pid; }
static void enter(Node *n, const char *w) { Quiet _; if (n->in_cb) violation("C12", "%s runs inside another callback", w); n->in_cb++; }
static void leave(Node *n) { n->in_cb--; }
static void on_hostile(Node *n, const bytearray_t &b, const Net::conn_t &c) {
    Quiet _; progress++; auto r = rc(salticidae::static_pointer_cast<ConnPool::Conn>(c));
    auto it = by_tcp->find(r ? r->tcp : 0);
    if (it == by_tcp->end() && r && r->remote == 2 && b.size() >= 16) { u32 id; memcpy(&id, b.data() + 4, 4); if (id < attacks->size() && !(*attacks)[id]->got) { (*attacks)[id]->tcp = r->tcp; it = by_tcp->emplace(r->tcp, (*attacks)[id]).first; } } // connected at a later try
    if (it == by_tcp->end()) { violation("C13", "hostile data message on a connection of nobody"); return; }
    auto a = it->second; u32 hd[4]; if (b.size() < 16) { violation("C13", "message of %zu bytes delivered that was never sent", b.size()); return; }
    memcpy(hd, b.data(), 16); note(800, a->id, hd[2]);
    Bytes s((const char *)b.data(), b.size());
    if (hd[0] != 0x484f5354 || (int)hd[1] != a->id || hd[3] != b.size() || s != hpay(a->id, hd[2], b.size())) { violation("C13", "corrupt message delivered"); return; }
    if (hd[2] >= 5000 || (int)hd[2] >= a->nok) violation("C13", "%s message delivered", hd[2] >= 8000 ? "a truncated" : hd[2] >= 7000 ? "an oversized" : hd[2] >= 5000 ? "a corrupt (checksum mismatch)" : "an unsent");
    else if ((int)hd[2] != a->got) violation("C13", "message %u delivered, expected %d (attack %d)", hd[2], a->got, a->id);
    else a->got++;
}
static void on_data(Node *n, const bytearray_t &b, const Net::conn_t &c) {
    Quiet _; progress++; u32 hd[4]; if (b.size() < 16) { violation("C12", "honest message corrupted"); return; } memcpy(hd, b.data(), 16);
    if ((int)hd[1] != 1 - n->id) { violation("C12", "honest message from the wrong node"); return; }
    if (hd[0] == 2) { n->nman++; return; }
    if (!spoof) { if (hd[2] != n->nrecv) violation("C12", "honest message %u arrives instead of %u", hd[2], n->nrecv); n->nrecv = hd[2] + 1; }
    else n->nrecv = std::max(n->nrecv, hd[2] + 1);
}
static bytearray_t honest(int from, u32 seq, u32 kind) { bytearray_t b(16 + seq % 40); u32 hd[4] = {kind, (u32)from, seq, 0}; memcpy(b.data(), hd, 16); return b; }
static void node_main(Node *n) {
    n->loop_fiber = cur_fiber(); n->ec = new EventContext();
    Net::Config c; ConnPool::Config &pc = c;
    pc.max_listen_backlog(10).conn_server_timeout(conn_to).recv_chunk_size(chunk).nworker(nworker[n->id]).max_recv_buff_size(recvbuf).max_send_buff_size(sendbuf);
    if (tls) pc.enable_tls(true).tls_cert_file(std::string(CERT_DIR) + "/n" + std::to_string(n->id) + ".crt").tls_key_file(std::string(CERT_DIR) + "/n" + std::to_string(n->id) + ".key");
    MsgNet::Config &mc = c; mc.max_msg_size(max_msg).max_msg_queue_size(msgq).burst_size(burst);
    c.ping_period(ping_period).conn_timeout(conn_timeout).id_mode(certid ? Net::CERT_BASED : Net::ADDR_BASED);
    n->net = new TestNet(*n->ec, c);
    n->net->reg_handler([n](Data &&m, const Net::conn_t &conn) { enter(n, "message handler"); on_data(n, m.bytes, conn); leave(n); });
    n->net->reg_handler([n](HData &&m, const Net::conn_t &conn) { enter(n, "message handler"); on_hostile(n, m.bytes, conn); leave(n); });
    n->net->reg_handler([n](Thrower &&m, const Net::conn_t &conn) { Quiet _; violation("C13", "a message that cannot be parsed was delivered"); });
    n->net->reg_peer_handler([n](const Net::conn_t &conn, bool up) { enter(n, "peer callback"); { Quiet _; auto r = rc(salticidae::static_pointer_cast<ConnPool::Conn>(conn)); tracef("node %d: peer callback %d tcp %llu remote %d", n->id, up, (unsigned long long)r->tcp, r->remote); progress++;
        int j = r->remote;
        if (j >= 0 && j < 4) { if (up) { n->ups[j]++; n->live[j] = r; if (j == 2 && !reg_hostile && !spoof) violation("C09", "an unregistered remote became a connected peer"); if (certid) { auto cert = conn->get_peer_cert(); if (!cert || cert->get_der() != (*ders)[j]) violation("C09", "peer %d connected without its certificate", j); } }
            else if (n->live[j] == r) { n->downs[j]++; n->live[j] = nullptr; } } } leave(n); });
    n->net->reg_unknown_peer_handler([n](const NetAddr &a, const salticidae::X509 *x) { enter(n, "unknown-peer callback"); { Quiet _; n->unknown.push_back(a); if (tls && (!x || x->get_der() != (*ders)[2])) violation("C09", "unknown-peer callback without the remote's certificate"); } leave(n); });
    n->net->reg_error_handler([n](const std::exception_ptr e, bool fatal, int32_t id) {
        enter(n, "error callback"); { Quiet _; std::string w; int code = 0; try { std::rethrow_exception(e); } catch (salticidae::SalticidaeError &x) { w = x.what(); code = x.get_code(); } catch (std::exception &x) { w = x.what(); } catch (...) { w = "?"; }
        tracef("node %d error callback: fatal=%d id=%d %s", n->id, fatal, id, w.c_str()); n->nerr++; if (code == salticidae::SALTI_ERROR_CONN_OVERSIZED_MSG) n->noversized++;
        if (fatal) violation("C12", "fatal error raised: %s", w.c_str()); } leave(n); });
    n->net->start();
    n->net->listen(n->addr);
    int o = 1 - n->id; n->net->add_peer(pid_of(o)); n->net->set_peer_addr(pid_of(o), addr_of(o)); n->net->conn_peer(pid_of(o), -1, rdelay);
    if (reg_hostile) { n->net->add_peer(pid_of(2)); if (hostile_listens) { n->net->set_peer_addr(pid_of(2), addr_of(2)); n->net->conn_peer(pid_of(2), -1, rdelay); } }
    TimerEvent *ctl = new TimerEvent(*n->ec, nullptr);
    ctl->set_callback([n, ctl](TimerEvent &) { if (n->stall) { u64 s = n->stall; n->stall = 0; sleep_ns(s); } if (n->want_stop) { n->ec->stop(); return; } ctl->add(0.002); });
    ctl->add(0.002);
    n->up = true; n->ec->dispatch(); n->up = false;
    if (coin(K_APP, 0.5)) n->net->stop();
    delete ctl; delete n->net; delete n->ec;
    Quiet _; if (open_fds(n->id)) violation("C16", "descriptors still open after the network was destroyed: %s", describe_fds().c_str());
    n->done = true;
}
// ---- the attacker -----------------------------------------------------------------------------------------------
class ANet : public MsgNet { public: ANet(const EventContext &ec, const Config &c): MsgNet(ec, c) {} ConnPool::Conn *create_conn() override; };
struct AConn : public MsgNet::Conn { int get_fd() const { return fd; } };
ConnPool::Conn *ANet::create_conn() { return new AConn(); }
static bool vanished = false; static ANet *anet = nullptr; static bool anet_up = false, anet_stop = false, anet_done = true; static int active_attacks = 0; static int lfd = -1; static bool attacker_quit = false; static u64 inbound_seed = 0;
static void track(Attack *a, u64 tcp) { Quiet _; a->tcp = tcp; if (tcp) (*by_tcp)[tcp] = a; }
static bool raw_write(int fd, const Bytes &b) { size_t o = 0; int spins = 0; while (o < b.size()) { ssize_t k = send(fd, b.data() + o, b.size() - o, MSG_NOSIGNAL); if (k > 0) { o += k; spins = 0; continue; } if (errno != EAGAIN && errno != EWOULDBLOCK) return false; if (++spins > 3000) return false; sleep_ns(1 * MS); } return true; }
// true if the victim has closed it
static bool raw_drain(int fd) { char buf[512]; for (int i = 0; i < 50; i++) { ssize_t k = recv(fd, buf, sizeof buf, MSG_DONTWAIT); if (k == 0) return true; if (k < 0) return errno != EAGAIN && errno != EWOULDBLOCK; } return false; }
static bool expect_met(Attack *a) { Quiet _; return a->got >= a->must; }
static void judge_prompt(Attack *a, u64 t_written) { // an offending connection is closed at once, not only when its timeout expires
    if (cfg.rcvbuf < 2048 || cfg.sndbuf < 2048 || (cfg.p_seg > 0 && cfg.seg_max < 8) || chunk < 8 || a->over || a->bad_end || now() - t_written < 1500 * MS) return;
    if (a->k_parse) violation("C13", "connection stays open for %.3f s after a message that cannot be parsed (attack %d)", (now() - t_written) / 1e9, a->id);
    else if (a->k_unknown) violation("C09", "connection stays open for %.3f s after the handshake of an unknown peer (attack %d)", (now() - t_written) / 1e9, a->id);
}
static void raw_attack(Attack *a, int fd, bool reads, bool slow, u64 seed) {
    Rng r; r.seed(seed); bool fine = true;
    for (auto &c : a->chunks) { if (!(fine = raw_write(fd, c))) break; if (reads && raw_drain(fd)) { a->closed_seen = true; } if (slow || r.chance(0.3)) sleep_ns(r.below(slow ? 20 * MS : 2 * MS)); }
    a->written = fine; if (!fine) a->failed = true;
    if (a->hold && fine) {
        u64 tw = now(), until = tw + 20 * SEC;
        while (now() < until && !attacker_quit) { if ((a->over || a->kills) ? a->closed_seen : expect_met(a)) break; if (raw_drain(fd)) a->closed_seen = true; if (a->closed_seen && !a->over && !a->kills) break; sleep_ns(5 * MS); }
        { Quiet _; bool interfered = conn_was_reset(a->tcp) || a->failed || vanished; u64 lim = (u64)(conn_timeout * 1e9) - 200 * MS; (void)lim;
          if (!interfered && !attacker_quit) judge_prompt(a, tw);
          if (!interfered) {
            if (a->over && !a->closed_seen) violation("C13", "connection stays open after an oversized message (attack %d)", a->id);
            if (a->kills && !a->closed_seen && !a->over && !a->bad_end) violation("C12", "connection stays open after an unacceptable message (attack %d)", a->id); } }
    }
    a->finished = true; a->t_end = now();
    if (r.chance(0.3)) shutdown(fd, SHUT_WR);
    if (r.chance(0.3)) sleep_ns(r.below(50 * MS));
    close(fd);
}
static int raw_connect(int victim, u64 &tcp) {
    int fd = socket(AF_INET, SOCK_STREAM, 0); if (fd < 0) return -1; fcntl(fd, F_SETFL, O_NONBLOCK);
    sockaddr_in in{}; in.sin_family = AF_INET; in.sin_addr.s_addr = node_ip(victim); in.sin_port = htons(7000 + victim);
    int k = connect(fd, (sockaddr *)&in, sizeof in); if (k < 0 && errno != EINPROGRESS) { close(fd); return -1; }
    for (int i = 0; i < 400; i++) { if (send(fd, "", 0, MSG_NOSIGNAL) == 0 && (tcp = sock_conn_id(fd))) return fd; sleep_ns(5 * MS); if (attacker_quit) break; }
    close(fd); return -1;
}
static void tls_attack(Attack *a, ConnPool::conn_t c, bool slow, u64 seed) {
    Rng r; r.seed(seed);
    for (auto &x : a->chunks) { if (c->is_terminated()) break; c->write(bytearray_t(x.begin(), x.end())); if (slow || r.chance(0.3)) sleep_ns(r.below(slow ? 20 * MS : 2 * MS)); }
    a->written = true;
    if (a->hold) {
        u64 tw = now(), until = tw + 20 * SEC;
        while (now() < until && !attacker_quit) { if ((a->over || a->kills) ? c->is_terminated() : expect_met(a)) break; if (c->is_terminated()) break; sleep_ns(5 * MS); }
        Quiet _; a->closed_seen = c->is_terminated();
        if (!conn_was_reset(a->tcp) && !vanished) { if (!attacker_quit && c->is_terminated() && a->kills) judge_prompt(a, tw); if (a->over && !a->closed_seen) violation("C13", "connection stays open after an oversized message (attack %d)", a->id);
            if (a->kills && !a->closed_seen && !a->over && !a->bad_end) violation("C12", "connection stays open after an unacceptable message (attack %d)", a->id); }
    }
    a->finished = true; a->t_end = now();
    if (!c->is_terminated() && anet_up) anet->terminate(salticidae::static_pointer_cast<AConn>(c));
}
static Attack *new_attack(int victim, u64 seed, bool inbound) { Quiet _; auto a = new Attack(); a->id = attacks->size(); a->victim = victim; attacks->push_back(a); a->inbound = inbound; build(a, seed, inbound); return a; }
static void attack_fiber(Op o) {
    int victim = o.node; bool slow = o.kind == OP_ATTACK2;
    if (tls && o.a[1] % 3 != 0) {
        if (anet_up) { Attack *a = new_attack(victim, o.a[0], false);
            try { auto c = anet->connect_sync((*nodes)[victim]->addr); auto ac = dynamic_cast<AConn *>(c.get());
                // a TLS connection is usable once the callback has run; data may be queued before
                u64 t0 = now(); while (!(c->is_terminated()) && !sock_conn_id(ac->get_fd()) && now() - t0 < 3 * SEC) sleep_ns(1 * MS);
                track(a, c->is_terminated() ? 0 : sock_conn_id(ac->get_fd())); if (!a->tcp) { a->failed = true; } else tls_attack(a, salticidae::static_pointer_cast<ConnPool::Conn>(c), slow, o.a[2]); }
            catch (std::exception &e) { a->failed = true; } }
    } else {
        u64 tcp = 0; int fd = raw_connect(victim, tcp);
        if (fd >= 0) {
            if (tls) { // not even TLS
                Rng r; r.seed(o.a[0]); int m = r.range(0, 300); Bytes g; bool hello = r.chance(0.5); if (hello) { g = Bytes("\x16\x03\x01\x01\x00\x01\x00\x00\xfc\x03\x03", 11); } for (int i = 0; i < m; i++) g += (char)r.next();
                raw_write(fd, g); u64 t0 = now(); u64 hold = r.chance(0.5) ? 30 * SEC : r.below(200 * MS); bool closed = false;
                while (now() - t0 < hold && !attacker_quit) { if (raw_drain(fd)) { closed = true; break; } sleep_ns(10 * MS); }
                if (hold == 30 * SEC && !closed && !vanished && !attacker_quit && !conn_was_reset(tcp)) { Quiet _; violation("C12", "a connection that never completes its TLS handshake is kept open"); }
                probe("not_tls"); close(fd);
            } else { Attack *a = new_attack(victim, o.a[0], false); track(a, tcp); raw_attack(a, fd, o.a[3] % 4 != 0, slow, o.a[2]); }
        }
    }
    Quiet _; active_attacks--;
}
static void listener_fiber() { // plain: the attacker's own listening socket
    lfd = socket(AF_INET, SOCK_STREAM, 0); fcntl(lfd, F_SETFL, O_NONBLOCK);
    sockaddr_in in{}; in.sin_family = AF_INET; in.sin_port = htons(7002); bind(lfd, (sockaddr *)&in, sizeof in); listen(lfd, 5);
    int k = 0;
    while (!attacker_quit) {
        int fd = accept(lfd, nullptr, nullptr); if (fd < 0) { sleep_ns(2 * MS); continue; }
        if (k++ > 12) { sleep_ns(20 * MS); close(fd); continue; }
        u64 tcp = sock_conn_id(fd); fcntl(fd, F_SETFL, O_NONBLOCK); int a = 0, p = 0; conn_nodes(tcp, a, p);
        u64 seed = inbound_seed * 31 + k; { Quiet _; active_attacks++; }
        spawn(2, "inbound", [fd, tcp, a, seed] { Attack *x = new_attack(a, seed, true); track(x, tcp); if (seed % 3) sleep_ns(seed % (10 * MS)); raw_attack(x, fd, true, seed % 5 == 0, seed); Quiet _; active_attacks--; });
    }
    close(lfd);
}
static void anet_main() {
    auto ec = new EventContext(); MsgNet::Config c; ConnPool::Config &pc = c; pc.nworker(1).conn_server_timeout(2).enable_tls(true).tls_cert_file(std::string(CERT_DIR) + "/n2.crt").tls_key_file(std::string(CERT_DIR) + "/n2.key"); c.max_msg_size(100000);
    anet = new ANet(*ec, c); int k = 0;
    anet->reg_conn_handler([&k](const ConnPool::conn_t &conn, bool up) {
        if (up && conn->get_mode() == ConnPool::Conn::PASSIVE && !attacker_quit && k++ < 12) { auto ac = dynamic_cast<AConn *>(conn.get()); u64 tcp = sock_conn_id(ac->get_fd()); int a = 0, p = 0; conn_nodes(tcp, a, p); u64 seed = inbound_seed * 31 + k; { Quiet _; active_attacks++; }
            spawn(2, "inbound", [conn, tcp, a, seed] { Attack *x = new_attack(a, seed, true); track(x, tcp); if (seed % 3) sleep_ns(seed % (10 * MS)); tls_attack(x, conn, seed % 5 == 0, seed); Quiet _; active_attacks--; }); }
        return true; });
    anet->reg_error_handler([](const std::exception_ptr, bool, int32_t) {});
    anet->start(); if (hostile_listens) anet->listen(addr_of(2));
    TimerEvent ctl(*ec, nullptr); ctl.set_callback([&](TimerEvent &) { if (anet_stop) { ec->stop(); return; } ctl.add(0.005); }); ctl.add(0.005);
    anet_up = true; ec->dispatch(); anet_up = false; ctl.clear(); anet->stop(); delete anet; delete ec; anet_done = true;
}
static bool linked() { Quiet _; auto a = (*nodes)[0]->live[1], b = (*nodes)[1]->live[0]; return a && b && a->tcp == b->tcp; }
static void hsend(Node *n, int k) { for (int i = 0; i < k; i++) { bool ok = n->net->send_msg(Data(honest(n->id, n->nsent, 1)), pid_of(1 - n->id)); Quiet _; if (ok) n->nsent++; } }
static void run(Plan &pl) {
    endless_means("C12 C13 C17"); step_limit(4000000);
    { Quiet _; crecs = new std::vector<CRec *>(); crecs->reserve(4096); nodes = new std::vector<Node *>(); attacks = new std::vector<Attack *>(); by_tcp = new std::map<u64, Attack *>(); ders = new std::vector<bytearray_t>();
      inbound_seed = run_seed * 7 + 3;
      for (int i = 0; i < 3; i++) { auto n = new Node(); n->id = i; n->addr = addr_of(i); nodes->push_back(n);
          if (tls) { auto x = salticidae::X509::create_from_pem_file(std::string(CERT_DIR) + "/n" + std::to_string(i) + ".crt"); ders->push_back(x.get_der()); n->pid = certid ? PeerId(x) : PeerId(n->addr); } else n->pid = PeerId(n->addr); } }
    set_node(9);
    for (int i = 0; i < 2; i++) spawn(i, ("node" + std::to_string(i)).c_str(), [i] { node_main((*nodes)[i]); });
    { Quiet _; attacking = true; }
    u64 W = (u64)((2 * (conn_timeout + 2 * ping_period) + 60 * (1.5 * rdelay + 2 * conn_to + 0.2)) * 1e9);
    // the honest peers connect first (unless their identity can be claimed)
    u64 ok_since = 0, t_end = now() + W; bool ok = false;
    while (now() < t_end || ok_since) { if (linked()) { if (!ok_since) ok_since = now(); if (now() - ok_since > (u64)((1.5 * rdelay + 1) * 1e9)) { ok = true; break; } } else ok_since = 0; if (now() > t_end * 2) break; sleep_ns(10 * MS); }
    if (!ok) { inconclusive("honest peers did not settle"); }
    int fd0[2]; 
    if (reg_hostile && hostile_listens) for (int i = 0; i < 2; i++) { (*nodes)[i]->net->conn_peer(pid_of(2), 0); (*nodes)[i]->net->has_peer(pid_of(2)); }
    sleep_ns((u64)((conn_to * 2 + 0.5) * 1e9)); for (int i = 0; i < 2; i++) { Quiet _; fd0[i] = open_fds(i); }
    if (!linked()) inconclusive("honest peers did not settle");
    int downs0[2]; { Quiet _; for (int i = 0; i < 2; i++) downs0[i] = (*nodes)[i]->downs[1 - i]; }
    if (tls) { anet_done = false; spawn(2, "anet", anet_main); wait_until(now() + 5 * SEC, 1 * MS, [] { return anet_up; }); }
    else if (hostile_listens) spawn(2, "listener", listener_fiber);
    if (reg_hostile && hostile_listens) for (int i = 0; i < 2; i++) (*nodes)[i]->net->conn_peer(pid_of(2), -1, rdelay);
    u64 base = now() + 2 * MS;
    for (size_t i = 0; i < pl.ops.size(); i++) {
        auto o = pl.ops[i]; if (!pl.enabled[i]) continue; u64 t = base + o.t; if (now() < t) sleep_ns(t - now());
        Node *n = (*nodes)[o.node];
        switch (o.kind) {
            case OP_ATTACK: case OP_ATTACK2: { Quiet _; active_attacks++; spawn(2, "attack", [o] { attack_fiber(o); }); break; }
            case OP_STALL: { Quiet _; n->stall = (1 + o.a[1] % 200) * 100 * US; break; }
            case OP_SEND: hsend(n, 1 + o.a[1] % 6); break;
            case OP_RESET: reset_conns_between(o.node, 2); break;
            case OP_VANISH: { { Quiet _; vanished = true; } int a = o.node; partition(a, 2, true); at(now() + (u64)(o.a[1] % 2 ? conn_timeout * 2e9 : 300e6), [a] { partition(a, 2, false); }); break; }
            case OP_FLOOD: { int c = 5 + o.a[1] % 20; int v = o.node; { Quiet _; active_attacks++; } spawn(2, "flood", [v, c] { std::vector<int> f; for (int i = 0; i < c; i++) { int fd = socket(AF_INET, SOCK_STREAM, 0); fcntl(fd, F_SETFL, O_NONBLOCK); sockaddr_in in{}; in.sin_family = AF_INET; in.sin_addr.s_addr = node_ip(v); in.sin_port = htons(7000 + v); connect(fd, (sockaddr *)&in, sizeof in); f.push_back(fd); } sleep_ns(50 * MS); for (int fd : f) close(fd); Quiet _; active_attacks--; }); break; }
            case OP_DELADD: { n->net->del_peer(pid_of(2)); if (o.a[1] % 2) sleep_ns(o.a[1] % (5 * MS)); n->net->add_peer(pid_of(2)); if (hostile_listens) { n->net->set_peer_addr(pid_of(2), addr_of(2)); n->net->conn_peer(pid_of(2), -1, rdelay); } break; }
        }
        if (o.a[5] % 4 == 0) hsend((*nodes)[o.a[4] % 2], 1 + o.a[5] % 3);
    }
    { Quiet _; for (auto n : *nodes) n->stall = 0; }
    // let the attacks play out
    wait_until(now() + 45 * SEC, 2 * MS, [] { return active_attacks == 0; });
    { Quiet _; faults_on = false; attacker_quit = true; heal_all(); cfg.p_seg = std::min(cfg.p_seg, 0.05); cfg.seg_max = std::max<u64>(cfg.seg_max, 256); cfg.lat_ns = std::min<u64>(cfg.lat_ns, 5 * MS); cfg.lat_jit_ns = std::min<u64>(cfg.lat_jit_ns, 1 * MS); cfg.p_stall = 0; cfg.sndbuf = cfg.rcvbuf = 65536; cfg.eph_ports = 20000; cfg.p_slice = std::min(cfg.p_slice, 0.2); cfg.p_nonce_small = 0; cfg.rand_mode = 0; }
    wait_until(now() + 60 * SEC, 2 * MS, [] { return active_attacks == 0; });
    if (active_attacks) inconclusive("attacker stuck");
    sleep_ns(2 * SEC); // reports travel through queues
    { Quiet _; // C13: what had to be delivered was delivered
      for (auto a : *attacks) { if (!a->tcp || a->failed || !a->hold || !a->written || vanished || conn_was_reset(a->tcp)) continue;
          if (a->got < a->must && !(a->kills || spoof) && !(a->inbound && a->closed_seen)) { bool cert_unknown = false; (void)cert_unknown; violation("C13", "only %d of %d intact messages of attack %d were delivered", a->got, a->must, a->id); } }
      int over[2] = {0, 0}; for (auto a : *attacks) if (a->over_sure && a->closed_seen && !a->inbound && a->hold && !a->failed && !a->kills && a->nok == a->must && !conn_was_reset(a->tcp) && !vanished) over[a->victim]++;
      for (int i = 0; i < 2; i++) if ((*nodes)[i]->noversized < over[i]) violation("C13", "node %d: %d oversized messages but only %d errors reported", i, over[i], (*nodes)[i]->noversized);
      for (auto a : *attacks) if (a->unknown_ping && a->kills == 1 && !a->bad_end && a->written && !a->failed && a->hold && !a->over && !vanished && !conn_was_reset(a->tcp) && !tls) { bool f = false; for (auto &x : (*nodes)[a->victim]->unknown) if (x == a->claimed) f = true; if (!f) violation("C09", "an unknown peer (attack %d) was not reported", a->id); } }
    if (reg_hostile) for (int i = 0; i < 2; i++) { auto n = (*nodes)[i]; n->net->del_peer(pid_of(2)); n->net->has_peer(pid_of(2)); }
    if (tls) { anet_stop = true; wait_until(now() + 60 * SEC, 1 * MS, [] { return anet_done; }); }
    // honest peers
    if (!spoof) { Quiet _; for (int i = 0; i < 2; i++) if ((*nodes)[i]->downs[1 - i] != downs0[i]) violation("C12", "node %d: the connection between the honest peers was disturbed", i); }
    t_end = now() + W; ok_since = 0; ok = false;
    while (now() < t_end || ok_since) { if (linked()) { if (!ok_since) ok_since = now(); if (now() - ok_since > (u64)((spoof ? 1.5 * rdelay + 2 * conn_to + 1 : 0.05) * 1e9)) { ok = true; break; } } else ok_since = 0; if (now() > t_end + W) break; sleep_ns(10 * MS); }
    if (!ok) { Quiet _; violation("C12", "the honest peers do not (re)connect after the attack"); return; }
    for (int i = 0; i < 2; i++) { auto n = (*nodes)[i]; u32 s0 = n->nsent; for (int q = 0; q < 100 && n->nsent == s0; q++) { hsend(n, 1); sleep_ns(10 * MS); } }
    bool del = wait_until(now() + 20 * SEC, 5 * MS, [] { return (*nodes)[0]->nrecv == (*nodes)[1]->nsent && (*nodes)[1]->nrecv == (*nodes)[0]->nsent; });
    if (!del) { Quiet _; violation("C12", "messages between the honest peers are not delivered (%u/%u, %u/%u)", (*nodes)[0]->nrecv, (*nodes)[1]->nsent, (*nodes)[1]->nrecv, (*nodes)[0]->nsent); }
    // a new connection can be made
    for (int i = 0; i < 2; i++) { Node *n = (*nodes)[i], *m = (*nodes)[1 - i]; u32 before = m->nman; bool got = false;
        for (int q = 0; q < 3 && !got; q++) { try { auto c = n->net->connect_sync(m->addr); n->net->send_msg(Data(honest(n->id, 0, 2)), salticidae::static_pointer_cast<MsgNet::Conn>(c)); got = wait_until(now() + 10 * SEC, 5 * MS, [m, before] { return m->nman > before; }); n->net->terminate(c); } catch (std::exception &) {} if (!got) sleep_ns(500 * MS); }
        if (!got) { Quiet _; violation("C12", "node %d takes no new connections after the attack", m->id); } }
    // all resources the attacker occupied are released
    u64 lim = (u64)((conn_timeout + 2 * conn_to + 2) * 1e9); int npend[2] = {0, 0};
    bool freed = wait_until(now() + lim, 20 * MS, [&] { for (int i = 0; i < 2; i++) if (open_fds(i) > fd0[i]) return false; return true; });
    if (!freed) { Quiet _; violation("C12", "connections of the attacker are still open (descriptors: node 0 %d/%d, node 1 %d/%d): %s", open_fds(0), fd0[0], open_fds(1), fd0[1], describe_fds().c_str()); }
    for (int i = 0; i < 2; i++) { npend[i] = (*nodes)[i]->net->get_npending(); if (freed && npend[i]) { Quiet _; violation("C12", "node %d: %d pending connections although there is none", i, npend[i]); } }
    { Quiet _; u64 h = 0; for (auto a : *attacks) h = h * 131 + a->got * 16 + a->closed_seen * 2 + a->over; set_state_hash(h | 1); }
    for (int i = 0; i < 2; i++) (*nodes)[i]->want_stop = true;
    bool d = wait_until(now() + 60 * SEC, 1 * MS, [] { return (*nodes)[0]->done && (*nodes)[1]->done; });
    Quiet _; if (!d) violation("C17", "networks could not be stopped within 60 s");
}
static RegScenario reg(Scenario{"hostile", gen, run, opname});
