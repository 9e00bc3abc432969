// C24: the C interface.  Nodes are driven by C functions only; C++ is used for the oracle.
#include "scen/common.h"
#include "salticidae/network.h"
#include "salticidae/event.h"
#include <arpa/inet.h>
using namespace scen; using namespace sim;
using namespace salticidae; using salticidae::NetAddr; using salticidae::bytearray_t; using salticidae::ConnPool;
enum { KIND_MSG, KIND_PEER, KIND_CLIENT };
enum { OP_SEND, OP_DEFER, OP_MULTI, OP_CONN, OP_TERM, OP_STALL, OP_RESET, OP_PART, OP_ERR, OP_VIACONN, OP_QUERY, OP_NOPS };
static const int NN = 3; static int kind; static bool tls, calm, unknown2, by_move; static size_t sendbuf, queue_size, burst, chunk, rbuf; static u64 horizon; static u32 magic; static int nworker[NN];
static double ping_period, conn_timeout, retry_delay;
static bool active_side(int i, int j) { return kind == KIND_PEER ? i < j : kind == KIND_CLIENT ? j == 0 : true; }
static void gen(Plan &p, Rng &r) {
    tls = run_variant & 1; kind = run_variant / 2; calm = r.chance(0.5); unknown2 = kind == KIND_PEER && r.chance(0.25); by_move = r.chance(0.5);
    sendbuf = r.chance(0.3) ? r.range(1, 10) : 0; queue_size = 2 + r.below(60); burst = r.chance(0.5) ? 1000 : r.range(1, 4); chunk = r.chance(0.5) ? 4096 : r.logrange(16, 2000); rbuf = r.chance(0.7) ? 4096 : r.range(1, 8);
    horizon = r.logrange(5, 300) * MS; for (auto &w : nworker) w = r.range(1, 3); magic = 0;
    ping_period = 0.3 + r.real(); conn_timeout = 2 * ping_period + 0.7 + 2 * r.real(); retry_delay = 0.2 + r.real();
    int n = r.range(6, 36); bool stalls = r.chance(0.5);
    for (int i = 0; i < n; i++) {
        Op o{}; o.t = r.below(horizon); o.node = r.below(NN); for (auto &x : o.a) x = r.next();
        switch (r.below(18)) {
            case 0: case 1: o.kind = OP_DEFER; break; case 2: case 3: o.kind = kind == KIND_PEER ? OP_MULTI : OP_SEND; break; case 4: case 5: o.kind = kind == KIND_PEER ? OP_VIACONN : OP_CONN; break;
            case 6: o.kind = calm ? OP_SEND : OP_TERM; break; case 7: o.kind = stalls ? OP_STALL : OP_SEND; break; case 8: o.kind = calm ? OP_SEND : OP_RESET; break; case 9: o.kind = calm ? OP_DEFER : OP_PART; break;
            case 10: o.kind = OP_ERR; break; case 11: case 12: o.kind = OP_QUERY; break; default: o.kind = OP_SEND;
        }
        p.ops.push_back(o);
    }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    if (calm) { cfg.p_f_reset = 0; cfg.p_f_socket = cfg.p_f_accept = cfg.p_f_setsockopt = cfg.p_f_fcntl = cfg.p_f_connect = 0; }
    cfg.eph_ports = 20000;
    if (tls) { cfg.slice_max = std::max<u64>(cfg.slice_max, 200); if (cfg.p_seg > 0 && cfg.seg_max < 24) cfg.seg_max = 24; } else cfg.seg_max = std::max<u64>(cfg.seg_max, 8);
}
static std::string opname(const Op &o) { static const char *n[] = {"send", "deferred send", "multicast", "connect", "terminate", "stall", "reset", "partition", "provoke an error", "send via connection", "query"}; char b[160]; snprintf(b, sizeof b, "node %d: %s %d %d", o.node, n[o.kind], (int)(o.a[0] % 1000), (int)(o.a[1] % 1000)); return b; }

struct CRec { int uid, node; void *ptr; msgnetwork_conn_t *copy; int ncon = 0, ndisc = 0; u64 t_con = 0, t_disc = 0; u64 tcp = 0; NetAddr addr; int mode = -1; std::map<int, int> last; };
struct Peerst { bool con = false; u64 since = 0; int n = 0; };
enum { PENDING, OK, FALSE_ };
struct M { int from, to, thr, seq; u64 t0, t1 = 0; int res = PENDING, ndel = 0, want = 1; int32_t id = -1; bool def = false, final = false; int conn = -1; u64 tcp = 0; bool up0 = false; u64 since_s = 0, since_r = 0; };
struct Expect { int code; bool seen = false; u64 t; };
struct Node { int id; eventcontext_t *ec = nullptr; msgnetwork_t *mn = nullptr; peernetwork_t *pn = nullptr; clientnetwork_t *cn = nullptr; timerev_t *ctl = nullptr; netaddr_t *addr = nullptr; peerid_t *pid = nullptr; x509_t *cert = nullptr;
    bool up = false, stop = false, done = false; int busy = 0; u64 stall = 0; std::vector<CRec *> recs; Peerst peers[NN]; std::map<int32_t, int> errs; std::map<int32_t, Expect> expect; int nunknown = 0; std::map<void *, int> pconn; bool unknown_bad = false; };
static Node nd[NN]; static std::vector<M> *ms; static std::map<int, int> *seqs; static u64 progress = 0; static bool ending = false; static int exec_done = 0;
static const char *pem(int i, const char *ext) { static char b[8][300]; static int k = 0; k = (k + 1) % 8; snprintf(b[k], sizeof b[k], "%s/n%d.%s", CERT_DIR, i, ext); return b[k]; }
static void bad(const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation("C24", "%s", b); }
struct FdPeek : public ConnPool::Conn { static int get(ConnPool::Conn *c) { return c->*(&FdPeek::fd); } };
static u64 tcp_of(const msgnetwork_conn_t *c) { if ((*c)->is_terminated()) return 0; return sock_conn_id(FdPeek::get((*c).get())); }

// ---- payloads: a program of typed fields, derived from the message's number
struct Prog { Rng r; Prog(u32 idx) { r.seed(idx * 7919ULL + 13); } };
static bytearray_t *make_payload(u32 idx, size_t extra) {
    datastream_t *s = datastream_new(); bool ok = datastream_put_u32(s, idx); ok &= datastream_put_u32(s, (u32)extra);
    Prog p(idx); int n = p.r.below(8);
    for (int i = 0; i < n; i++) { u64 v = p.r.next(); switch (p.r.below(9)) {
        case 0: ok &= datastream_put_u8(s, v); break; case 1: ok &= datastream_put_u16(s, v); break; case 2: ok &= datastream_put_u32(s, v); break; case 3: ok &= datastream_put_u64(s, v); break;
        case 4: ok &= datastream_put_i8(s, v); break; case 5: ok &= datastream_put_i16(s, v); break; case 6: ok &= datastream_put_i32(s, v); break; case 7: ok &= datastream_put_i64(s, v); break;
        default: { uint8_t b[32]; for (auto &x : b) x = p.r.next(); ok &= datastream_put_data(s, b, v % 33); } } }
    for (size_t i = 0; i < extra; i++) ok &= datastream_put_u8(s, (uint8_t)(idx + i * 3));
    if (!ok) { Quiet _; bad("datastream_put_* failed"); }
    bytearray_t *b;
    switch (idx % 4) { case 0: b = bytearray_new_moved_from_datastream(s); break; case 1: b = bytearray_new_copied_from_datastream(s); break;
        case 2: b = bytearray_new_from_bytes(datastream_data(s), datastream_size(s)); break; default: { char *h = datastream_get_hex(s); b = bytearray_new_from_hex(h); free(h); } }
    datastream_free(s); return b;
}
// false: not what make_payload() wrote
static bool check_payload(datastream_t *s, u32 &idx) {
    bool ok = true; idx = datastream_get_u32(s, &ok); if (!ok) return false; if (idx >= ms->size()) return false; u32 extra = datastream_get_u32(s, &ok); if (!ok) return false;
    Prog p(idx); int n = p.r.below(8);
    for (int i = 0; i < n; i++) { u64 v = p.r.next(); bool k = true, g = true; switch (p.r.below(9)) {
        case 0: g = datastream_get_u8(s, &k) == (uint8_t)v; break; case 1: g = datastream_get_u16(s, &k) == (uint16_t)v; break; case 2: g = datastream_get_u32(s, &k) == (uint32_t)v; break; case 3: g = datastream_get_u64(s, &k) == v; break;
        case 4: g = datastream_get_i8(s, &k) == (int8_t)v; break; case 5: g = datastream_get_i16(s, &k) == (int16_t)v; break; case 6: g = datastream_get_i32(s, &k) == (int32_t)v; break; case 7: g = datastream_get_i64(s, &k) == (int64_t)v; break;
        default: { uint8_t b[32]; for (auto &x : b) x = p.r.next(); if (v % 33) { auto q = datastream_get_data_inplace(s, v % 33); g = q && !memcmp(q, b, v % 33); } } }
        if (!g || !k) return false; }
    if (datastream_size(s) != extra) return false;
    if (idx % 3 == 0 && extra) { bytearray_t *rest = idx & 1 ? bytearray_new_copied_from_datastream(s) : bytearray_new_moved_from_datastream(s); bool g = bytearray_size(rest) == extra; for (size_t i = 0; g && i < extra; i++) g = bytearray_data(rest)[i] == (uint8_t)(idx + i * 3); bytearray_free(rest); return g; }
    for (size_t i = 0; i < extra; i++) { if (datastream_get_u8(s, &ok) != (uint8_t)(idx + i * 3) || !ok) return false; }
    ok = true; datastream_get_u8(s, &ok); if (ok) { bad("reading beyond the end of a data stream succeeded"); return true; }
    ok = true; datastream_get_i64(s, &ok); if (ok) bad("reading beyond the end of a data stream succeeded");
    if (datastream_get_data_inplace(s, 1 + idx % 9)) bad("reading beyond the end of a data stream succeeded");
    return true;
}
static CRec *rec_of(Node &n, const void *p) { for (auto r : n.recs) if (r->ptr == p) return r; return nullptr; }
static int node_of_ip(u32 ip) { for (int i = 0; i < NN; i++) if (node_ip(i) == ip) return i; return -1; }
static int node_of_pid(const peerid_t *p) { for (int i = 0; i < NN; i++) if (nd[i].pid && uint256_is_eq(peerid_as_uint256(nd[i].pid), peerid_as_uint256(p))) return i; return -1; }

// ---- callbacks (userdata: the node)
static void on_msg(const msg_t *msg, const msgnetwork_conn_t *conn, void *ud) {
    Node &n = *(Node *)ud; _opcode_t oc = msg_get_opcode(msg); u32 mg = msg_get_magic(msg); datastream_t *s = msg_consume_payload(msg); u32 idx = 0; peerid_t *pid = nullptr; netaddr_t *pa = nullptr;
    bool good = check_payload(s, idx); datastream_free(s);
    if (kind == KIND_PEER) { peernetwork_conn_t *pc = peernetwork_conn_new_from_msgnetwork_conn_unsafe(conn); pid = peernetwork_conn_get_peer_id(pc); pa = peernetwork_conn_get_peer_addr(pc); peernetwork_conn_free(pc); }
    { Quiet _; progress++;
      if (!good) bad("message received with contents other than those sent");
      else { auto &m = (*ms)[idx]; if (oc != 0x10 + m.thr % 3) bad("message received with opcode %d instead of %d", oc, 0x10 + m.thr % 3); if (mg != magic) bad("message received with magic %x", mg);
        if (m.to >= 0 && m.to != n.id) bad("message for node %d delivered to node %d", m.to, n.id);
        if (++m.ndel > m.want && kind != KIND_PEER) bad("message delivered twice"); if (kind == KIND_PEER && m.ndel > m.want) bad("message delivered %d times instead of %d", m.ndel, m.want);
        if (m.res == FALSE_) bad("message delivered although its send was reported as failed");
        if (m.id >= 0 && nd[m.from].errs.count(m.id) && m.to >= 0) bad("message delivered although its deferred send was reported as failed");
        CRec *r = rec_of(n, (*conn).get()); if (r) { if (!r->tcp) r->tcp = tcp_of(conn); if (m.tcp && r->tcp && r->tcp != m.tcp) bad("message delivered on another connection than the one it was sent to");
            auto &l = r->last[m.from * 1000 + m.thr * 2 + m.def]; if (l > m.seq) bad("messages of one thread received out of order"); l = m.seq; }
        if (kind == KIND_PEER && pid && node_of_pid(pid) != m.from) bad("message of node %d attributed to peer %d", m.from, node_of_pid(pid));
        if (kind != KIND_PEER || pid) probe("delivered"); note(700, idx, n.id); } }
    if (pid) peerid_free(pid); if (pa) netaddr_free(pa);
}
static bool on_conn(const msgnetwork_conn_t *conn, bool connected, void *ud) {
    Node &n = *(Node *)ud; msgnetwork_t *net = msgnetwork_conn_get_net(conn); auto mode = msgnetwork_conn_get_mode(conn); const netaddr_t *a = msgnetwork_conn_get_addr(conn); netaddr_t *ac = netaddr_copy(a);
    const x509_t *cert = msgnetwork_conn_get_peer_cert(conn); int cert_of = -1;
    if (cert && connected) { bytearray_t *der = x509_get_der(cert); for (int i = 0; i < NN; i++) if (nd[i].cert) { bytearray_t *d = x509_get_der(nd[i].cert); if (bytearray_size(d) == bytearray_size(der) && !memcmp(bytearray_data(d), bytearray_data(der), bytearray_size(d))) cert_of = i; bytearray_free(d); } bytearray_free(der); }
    msgnetwork_conn_t *cp; { cp = connected ? msgnetwork_conn_copy(conn) : nullptr; }
    { Quiet _; progress++; if (net != n.mn) bad("msgnetwork_conn_get_net() returned another network"); int rn = node_of_ip(netaddr_get_ip(ac));
      if (connected) { if (rec_of(n, (*conn).get())) bad("connection reported as connected twice"); auto r = new CRec(); r->uid = n.recs.size(); r->node = n.id; r->ptr = (*conn).get(); r->copy = cp; r->ncon = 1; r->t_con = now(); r->mode = mode; r->addr = *ac; r->tcp = tcp_of(conn); n.recs.push_back(r);
        if (mode == CONN_MODE_ACTIVE && (rn < 0 || !netaddr_is_eq(ac, nd[rn].addr))) bad("active connection to an address nobody listens at");
        if (tls && kind != KIND_CLIENT && cert_of != rn) bad("certificate of node %d on a connection to node %d", cert_of, rn); if (!tls && cert) bad("certificate on a plain connection");
        tracef("node %d conn %d connected mode %d to %d", n.id, r->uid, mode, rn);
      } else { auto r = rec_of(n, (*conn).get()); if (r) { if (r->ndisc++) bad("connection reported as disconnected twice"); r->t_disc = now(); tracef("node %d conn %d disconnected", n.id, r->uid); } } }
    if (!connected && !msgnetwork_conn_is_terminated(conn)) { Quiet _; bad("disconnected connection not reported as terminated"); }
    netaddr_free(ac); return true;
}
static void on_err(const SalticidaeCError *e, bool fatal, int32_t id, void *ud) {
    Node &n = *(Node *)ud; const char *s = salticidae_strerror(e->code); Quiet _; progress++; tracef("node %d error %s fatal %d id %d", n.id, s ? s : "?", fatal, id);
    if (!s) bad("no text for error code %d", e->code); if (e->code == SALTI_NORMAL) bad("error reported with the code of success"); if (fatal) bad("fatal error: %s", s);
    if (id >= 0) { if (++n.errs[id] > 1) bad("two errors for request %d", id); auto it = n.expect.find(id); if (it != n.expect.end()) { it->second.seen = true; if (it->second.code != e->code) bad("request %d failed with \"%s\" instead of \"%s\"", id, s, salticidae_strerror(it->second.code)); } else { for (auto &m : *ms) if (m.id == id && m.from == n.id) return; n.expect[id] = Expect{-e->code, true, now()}; } }
}
static void on_peer(const peernetwork_conn_t *conn, bool connected, void *ud) {
    Node &n = *(Node *)ud; peerid_t *pid = peernetwork_conn_get_peer_id(conn); int p = node_of_pid(pid); peerid_free(pid); Quiet _; progress++; tracef("node %d peer %d %s", n.id, p, connected ? "up" : "down");
    // the connection of a peer may have been replaced by the time it is asked for its peer
    if (connected) n.pconn[(*conn).get()] = p; else { auto it = n.pconn.find((*conn).get()); if (it != n.pconn.end()) { if (p < 0 || it->second < 0) p = it->second; else if (p != it->second) bad("connection of peer %d became one of peer %d", it->second, p); n.pconn.erase(it); } }
    if (p < 0) { probe("replaced_before_asked"); return; }
    if (p == n.id) { bad("peer callback for an unknown peer"); return; } if (connected && unknown2 && (p == 2 || n.id == 2) && (p == 0 || n.id == 0)) bad("unknown peer reported as connected");
    auto &q = n.peers[p]; if (q.con && connected) bad("peer reported as connected twice"); if (!q.con && !connected) { probe("failed_attempt"); return; } /* a failed attempt is reported, too */ q.con = connected; q.since = now(); q.n++;
}
static void on_unknown(const netaddr_t *a, const x509_t *cert, void *ud) { Node &n = *(Node *)ud; netaddr_t *c = netaddr_copy(a); Quiet _; n.nunknown++; int r = node_of_ip(netaddr_get_ip(c)); if (!unknown2 || n.id != 0 || r != 2) n.unknown_bad = true; if (r >= 0 && !netaddr_is_eq(c, nd[r].addr)) bad("unknown peer at node %d reported with another address than it claims", r); if ((cert != nullptr) != tls) bad("unknown peer reported %s certificate", cert ? "with a" : "without its"); netaddr_free(c); progress++; }
static void on_tick(timerev_t *t, void *ud) { Node &n = *(Node *)ud;
    for (;;) { msgnetwork_conn_t *c = nullptr; { Quiet _; if (n.busy) break; int dead = 0; CRec *old = nullptr; for (auto r : n.recs) if (r->copy && r->ndisc) { if (!old) old = r; dead++; } if (dead < 6) break; c = old->copy; old->copy = nullptr; old->ptr = nullptr; } msgnetwork_conn_free(c); }
    if (n.stall) { u64 s = n.stall; n.stall = 0; sleep_ns(s); } if (n.stop && !n.busy) { eventcontext_stop(n.ec); return; } timerev_add(t, 0.008); }

static void node_main(Node &n) {
    n.ec = eventcontext_new(); peernetwork_config_t *pc = kind == KIND_PEER ? peernetwork_config_new() : nullptr; msgnetwork_config_t *c = pc ? peernetwork_config_as_msgnetwork_config(pc) : msgnetwork_config_new();
    msgnetwork_config_nworker(c, nworker[n.id]); msgnetwork_config_max_send_buff_size(c, sendbuf); msgnetwork_config_max_msg_queue_size(c, queue_size); msgnetwork_config_burst_size(c, burst); msgnetwork_config_recv_chunk_size(c, chunk); msgnetwork_config_max_recv_buff_size(c, rbuf); msgnetwork_config_conn_server_timeout(c, 2); msgnetwork_config_max_listen_backlog(c, 10); msgnetwork_config_max_msg_size(c, 4096);
    SalticidaeCError e = salticidae_cerror_unknown();
    if (tls) { msgnetwork_config_enable_tls(c, true); n.cert = x509_new_from_pem_file(pem(n.id, "crt"), nullptr, &e); if (!n.cert || e.code) { Quiet _; bad("cannot load a certificate"); return; }
        if (by_move) { pkey_t *k = pkey_new_privkey_from_pem_file(pem(n.id, "key"), nullptr, &e); bytearray_t *d = x509_get_der(n.cert); x509_t *x = x509_new_from_der(d, &e); bytearray_free(d); if (!k || !x || e.code) { Quiet _; bad("cannot load a key"); return; } msgnetwork_config_tls_key_by_move(c, k); msgnetwork_config_tls_cert_by_move(c, x); pkey_free(k); x509_free(x); }
        else { msgnetwork_config_tls_key_file(c, pem(n.id, "key")); msgnetwork_config_tls_cert_file(c, pem(n.id, "crt")); } }
    { SalticidaeCError e2 = salticidae_cerror_normal(); x509_t *x = x509_new_from_pem_file("/nonexistent", nullptr, &e2); if (x || e2.code != SALTI_ERROR_TLS_X509) { Quiet _; bad("loading a certificate from a missing file: code %d", e2.code); } }
    e = salticidae_cerror_unknown();
    if (kind == KIND_PEER) { peernetwork_config_ping_period(pc, ping_period); peernetwork_config_conn_timeout(pc, conn_timeout); peernetwork_config_id_mode(pc, tls ? ID_MODE_CERT_BASED : ID_MODE_ADDR_BASED); n.pn = peernetwork_new(n.ec, pc, &e); n.mn = n.pn ? peernetwork_as_msgnetwork(n.pn) : nullptr; if (n.pn && msgnetwork_as_peernetwork_unsafe(n.mn) != n.pn) bad("network conversion"); peernetwork_config_free(pc); }
    else if (kind == KIND_CLIENT && n.id == 0) { n.cn = clientnetwork_new(n.ec, c, &e); n.mn = n.cn ? clientnetwork_as_msgnetwork(n.cn) : nullptr; msgnetwork_config_free(c); }
    else { n.mn = msgnetwork_new(n.ec, c, &e); msgnetwork_config_free(c); }
    if (!n.mn || e.code != SALTI_NORMAL) { Quiet _; bad("creating a network failed with code %d", e.code); return; }
    for (int i = 0; i < 3; i++) msgnetwork_reg_handler(n.mn, 0x10 + i, on_msg, &n);
    msgnetwork_reg_conn_handler(n.mn, on_conn, &n); msgnetwork_reg_error_handler(n.mn, on_err, &n);
    if (n.pn) { peernetwork_reg_peer_handler(n.pn, on_peer, &n); peernetwork_reg_unknown_peer_handler(n.pn, on_unknown, &n); }
    { Quiet _; n.addr = nullptr; } char ip[40]; { Quiet _; struct in_addr in; in.s_addr = node_ip(n.id); snprintf(ip, sizeof ip, "%s", inet_ntoa(in)); }
    e = salticidae_cerror_unknown(); netaddr_t *la = netaddr_new_from_ip_port(node_ip(n.id), htons(9000 + n.id), &e); if (!la || e.code || netaddr_get_ip(la) != node_ip(n.id) || netaddr_get_port(la) != htons(9000 + n.id)) { Quiet _; bad("netaddr_new_from_ip_port()"); return; }
    { SalticidaeCError e2 = salticidae_cerror_normal(); netaddr_t *x = netaddr_new_from_sipport("10.0.0.1", &e2), *y = netaddr_new_from_sipport("10.0.0.1:70000", &e2); if (x || y || e2.code != SALTI_ERROR_NETADDR_INVALID) { Quiet _; bad("invalid address accepted"); } }
    msgnetwork_start(n.mn);
    bool lis = kind != KIND_CLIENT || n.id == 0;
    if (lis) { bool f = run_seed & 1; double pb = cfg.p_f_bind; bool fo = faults_on;
        if (f) { { Quiet _; cfg.p_f_bind = 1; faults_on = true; } SalticidaeCError e2 = salticidae_cerror_normal(); if (n.pn) peernetwork_listen(n.pn, la, &e2); else msgnetwork_listen(n.mn, la, &e2); Quiet _; cfg.p_f_bind = pb; faults_on = fo; if (e2.code != SALTI_ERROR_LISTEN) bad("listen() with failing bind reported code %d", e2.code); probe("listen_failed"); }
        { Quiet _; cfg.p_f_bind = 0; } e = salticidae_cerror_unknown(); if (n.pn) peernetwork_listen(n.pn, la, &e); else msgnetwork_listen(n.mn, la, &e); { Quiet _; cfg.p_f_bind = pb; if (e.code != SALTI_NORMAL) { bad("listen() failed with code %d", e.code); return; } } }
    n.ctl = timerev_new(n.ec, on_tick, &n); timerev_add(n.ctl, 0.008);
    peerid_t *pid = tls ? peerid_new_from_x509(n.cert) : peerid_new_from_netaddr(la); { Quiet _; n.pid = pid; n.addr = la; n.up = true; }
    eventcontext_dispatch(n.ec); n.up = false;
    timerev_free(n.ctl); if (run_seed & 2) msgnetwork_stop(n.mn); for (auto r : n.recs) if (r->copy) { msgnetwork_conn_free(r->copy); r->copy = nullptr; }
    if (n.pn) peernetwork_free(n.pn); else if (n.cn) clientnetwork_free(n.cn); else msgnetwork_free(n.mn);
    eventcontext_free(n.ec); Quiet _; n.done = true;
}
struct Busy { Node &n; bool ok; Busy(Node &n): n(n) { Quiet _; ok = n.up && !n.stop; if (ok) n.busy++; } ~Busy() { Quiet _; if (ok) n.busy--; } };
static CRec *partner(CRec *r) { if (!r->tcp) return nullptr; for (auto &n : nd) if (n.id != r->node) for (auto q : n.recs) if (q->tcp == r->tcp) return q; return nullptr; }
static bool rec_up(CRec *r) { return r && r->ncon && !r->ndisc; }
static bool link_ok(int i, int j) { return !(unknown2 && ((i == 0 && j == 2) || (i == 2 && j == 0))); }
static msg_t *new_msg(u32 idx, int thr, size_t extra) { bytearray_t *b = make_payload(idx, extra); msg_t *m = msg_new_moved_from_bytearray(0x10 + thr % 3, b); bytearray_free(b); return m; }
// to: node (peer), or ignored when r is given
static void do_send(Node &n, CRec *r, int to, int thr, size_t extra, bool def, bool via, bool final = false) {
    u32 idx; { Quiet _; idx = ms->size(); ms->emplace_back(); auto &m = ms->back(); m.from = n.id; m.thr = thr; m.def = def; m.final = final; m.seq = ++(*seqs)[n.id * 1000 + thr]; m.t0 = now(); if (r) { m.conn = r->uid; m.tcp = r->tcp; m.to = node_of_ip(r->addr.ip); m.up0 = rec_up(r); } else { m.to = to; m.up0 = n.peers[to].con && nd[to].peers[n.id].con; m.since_s = n.peers[to].n; m.since_r = nd[to].peers[n.id].n; } }
    msg_t *msg = new_msg(idx, thr, extra); bool ok = true; int32_t id = -1;
    if (kind == KIND_PEER && !r) { if (def) id = peernetwork_send_msg_deferred_by_move(n.pn, msg, nd[to].pid); else ok = peernetwork_send_msg(n.pn, msg, nd[to].pid); }
    else if (n.cn && !via) { netaddr_t *a = netaddr_copy(&r->addr); if (def) id = clientnetwork_send_msg_deferred_by_move(n.cn, msg, a); else ok = clientnetwork_send_msg(n.cn, msg, a); netaddr_free(a); { Quiet _; (*ms)[idx].tcp = 0; } }
    else if (def) id = msgnetwork_send_msg_deferred_by_move(n.mn, msg, r->copy); else ok = msgnetwork_send_msg(n.mn, msg, r->copy);
    if (!def && n.pn && !r && ok && 0) {} msg_free(msg);
    Quiet _; auto &m = (*ms)[idx]; m.t1 = now(); m.res = ok ? OK : FALSE_; m.id = id; progress++;
    if (!ok && m.ndel) bad("message delivered although its send was reported as failed"); if (def && id < 0) bad("deferred send returned request %d", id);
}
static void settle(u64 quiet, u64 limit) { u64 p = progress, t = now(), t0 = now(); while (now() < t0 + limit) { sleep_ns(2 * MS); if (p != progress) { p = progress; t = now(); } else if (now() - t > quiet) break; } }
static CRec *pick(Node &n, u64 sel) { Quiet _; std::vector<CRec *> v, all; for (auto r : n.recs) if (r->copy) { all.push_back(r); if (rec_up(r)) v.push_back(r); } if (v.empty() || sel % 13 == 12) { if (all.empty()) return nullptr; return all[sel / 13 % all.size()]; } return v[sel % v.size()]; }
static void expect(Node &n, int32_t id, int code) { Quiet _; if (id < 0) { bad("request number %d", id); return; } auto it = n.expect.find(id); if (it != n.expect.end()) { if (-it->second.code != code) bad("request %d failed with \"%s\" instead of \"%s\"", id, salticidae_strerror(-it->second.code), salticidae_strerror(code)); it->second.code = code; } else n.expect[id] = Expect{code, false, now()}; }
static void do_err(Node &n, const Op &o, int thr) {
    SalticidaeCError e = salticidae_cerror_normal();
    if (kind == KIND_PEER) {
        netaddr_t *ua = netaddr_new_from_ip_port(node_ip(7), htons(77), &e); peerid_t *u = peerid_new_from_netaddr(ua); int j = (n.id + 1) % NN; if (!link_ok(n.id, j)) j = 1; if (j == n.id) j = 2;
        switch (o.a[0] % 8) {
            case 0: expect(n, peernetwork_del_peer(n.pn, u), SALTI_ERROR_PEER_NOT_EXIST); break; case 1: expect(n, peernetwork_add_peer(n.pn, nd[j].pid), SALTI_ERROR_PEER_ALREADY_EXISTS); break;
            case 2: expect(n, peernetwork_conn_peer(n.pn, u, 1, 1), SALTI_ERROR_PEER_NOT_EXIST); break; case 3: expect(n, peernetwork_set_peer_addr(n.pn, u, ua), SALTI_ERROR_PEER_NOT_EXIST); break;
            case 4: { auto c = peernetwork_get_peer_conn(n.pn, u, &e); if (c || e.code != SALTI_ERROR_PEER_NOT_EXIST) { Quiet _; bad("connection of an unknown peer: code %d", e.code); } break; }
            case 5: { bytearray_t *b = bytearray_new_from_hex("0011"); msg_t *m = msg_new_moved_from_bytearray(0x10, b); bytearray_free(b); bool ok = peernetwork_send_msg(n.pn, m, u); msg_free(m); if (ok) { Quiet _; bad("send to an unknown peer reported as successful"); } break; }
            case 6: { bytearray_t *b = bytearray_new_from_hex("0011"); msg_t *m = msg_new_moved_from_bytearray(0x10, b); bytearray_free(b); int32_t id = peernetwork_send_msg_deferred_by_move(n.pn, m, u); msg_free(m); expect(n, id, SALTI_ERROR_PEER_NOT_EXIST); break; }
            case 7: { bool h1 = peernetwork_has_peer(n.pn, u), h2 = peernetwork_has_peer(n.pn, nd[j].pid); Quiet _; if (h1 || !h2) bad("peernetwork_has_peer() is wrong"); break; }
        }
        peerid_free(u); netaddr_free(ua);
    } else if (n.cn) {
        netaddr_t *ua = netaddr_new_from_ip_port(node_ip(7), htons(77), &e); bytearray_t *b = bytearray_new_from_hex("0011"); msg_t *m = msg_new_moved_from_bytearray(0x10, b); bytearray_free(b);
        if (o.a[0] & 1) { if (clientnetwork_send_msg(n.cn, m, ua)) { Quiet _; bad("send to an address without client reported as successful"); } } else expect(n, clientnetwork_send_msg_deferred_by_move(n.cn, m, ua), SALTI_ERROR_CLIENT_NOT_EXIST);
        msg_free(m); netaddr_free(ua);
    } else { bool b4 = cfg.refuse_immediate; { Quiet _; cfg.refuse_immediate = true; } netaddr_t *ua = netaddr_new_from_ip_port(node_ip((n.id + 1) % NN), htons(77), &e); msgnetwork_conn_t *c = msgnetwork_connect_sync(n.mn, ua, &e); { Quiet _; cfg.refuse_immediate = b4; if (c ? e.code != SALTI_NORMAL : e.code != SALTI_ERROR_CONNECT) bad("connect_sync(): connection %p, code %d", (void *)c, e.code); if (c && 0) progress++; } if (c) msgnetwork_conn_free(c); else probe("connect_failed"); netaddr_free(ua); }
}
static void exec_op(const Op &o, int thr) {
    Node &n = nd[o.node]; size_t extra = o.a[3] % 8 ? o.a[3] % 100 : o.a[3] / 8 % 3000; int to = (n.id + 1 + o.a[0] % 2) % NN;
    switch (o.kind) {
        case OP_SEND: case OP_DEFER: { Busy b(n); if (!b.ok) break; for (int i = 0; i <= (int)(o.a[1] % 5); i++) { if (kind == KIND_PEER) { if (link_ok(n.id, to)) do_send(n, nullptr, to, thr, extra, o.kind == OP_DEFER, false); } else if (auto r = pick(n, o.a[0] + (o.a[2] & 1) * i)) do_send(n, r, -1, thr, extra, o.kind == OP_DEFER, o.a[2] & 4); if (o.a[2] & 2) sleep_ns(o.a[4] % (3 * MS)); } break; }
        case OP_MULTI: { Busy b(n); if (!b.ok) break; std::vector<const peerid_t *> v; u32 first; int cntto[NN] = {0};
            // one message record for all receivers; each expects as many copies as it is listed
            { Quiet _; int k = 1 + o.a[0] % 3; for (int i = 0; i < k; i++) { int j = (o.a[1] >> (2 * i)) % NN; if (j != n.id && link_ok(n.id, j)) { v.push_back(nd[j].pid); cntto[j]++; } } if (v.empty()) break; first = ms->size(); ms->emplace_back(); auto &m = ms->back(); m.from = n.id; m.to = -1; m.thr = thr; m.def = true; m.want = v.size(); m.seq = ++(*seqs)[n.id * 1000 + thr]; m.t0 = now(); m.up0 = true; for (int j = 0; j < NN; j++) if (cntto[j]) { m.up0 = m.up0 && n.peers[j].con && nd[j].peers[n.id].con; m.since_s += n.peers[j].n; m.since_r += nd[j].peers[n.id].n; } m.conn = -2 - (cntto[0] ? 1 : 0) - (cntto[1] ? 2 : 0) - (cntto[2] ? 4 : 0); }
            msg_t *msg = new_msg(first, thr, extra); peerid_array_t *arr = peerid_array_new_from_peers(v.data(), v.size()); int32_t id = peernetwork_multicast_msg_by_move(n.pn, msg, arr); peerid_array_free(arr); msg_free(msg); Quiet _; auto &m = (*ms)[first]; m.id = id; m.res = OK; m.t1 = now(); probe("multicast"); break; }
        case OP_VIACONN: { Busy b(n); if (!b.ok || !link_ok(n.id, to)) break; SalticidaeCError e = salticidae_cerror_unknown(); auto pc = peernetwork_get_peer_conn(n.pn, nd[to].pid, &e); if (!pc || e.code) { Quiet _; bad("peernetwork_get_peer_conn() of a known peer failed with code %d", e.code); break; }
            peernetwork_conn_t *p2 = peernetwork_conn_copy(pc); msgnetwork_conn_t *mc = msgnetwork_conn_new_from_peernetwork_conn(p2); bool term = msgnetwork_conn_is_terminated(mc); { Quiet _; if (!term && msgnetwork_conn_get_net(mc) != n.mn) bad("peer connection of another network"); }
            peernetwork_conn_free(pc); peernetwork_conn_free(p2); msgnetwork_conn_free(mc); break; }
        case OP_CONN: { if (kind == KIND_CLIENT) to = 0; if (to == n.id) break; Busy b(n); if (!b.ok) break; if (o.a[1] & 1) { int32_t id = msgnetwork_connect(n.mn, nd[to].addr); Quiet _; if (id < 0) bad("msgnetwork_connect() returned %d", id); } else { SalticidaeCError e = salticidae_cerror_unknown(); auto c = msgnetwork_connect_sync(n.mn, nd[to].addr, &e); if (!c != (e.code != SALTI_NORMAL)) { Quiet _; bad("connect_sync(): connection %p, code %d", (void *)c, e.code); } if (c) msgnetwork_conn_free(c); } break; }
        case OP_TERM: { Busy b(n); if (!b.ok) break; auto r = pick(n, o.a[0]); if (r) msgnetwork_terminate(n.mn, r->copy); break; }
        case OP_STALL: { Quiet _; u64 d = o.a[1] % (30 * MS); if (o.a[0] % 2) n.stall = d; else { int f = o.a[2] % fiber_count(); if (f) stall_fiber(f, now() + d); } break; }
        case OP_RESET: reset_conns_between(n.id, to); break;
        case OP_PART: { int a = n.id, b = to; partition(a, b, true); at(now() + o.a[1] % (80 * MS), [a, b] { partition(a, b, false); }); break; }
        case OP_ERR: { Busy b(n); if (b.ok) do_err(n, o, thr); break; }
        case OP_QUERY: { Busy b(n); if (!b.ok) break; if (auto r = pick(n, o.a[0])) { bool t = msgnetwork_conn_is_terminated(r->copy); Quiet _; if (!t && r->ndisc) bad("disconnected connection not reported as terminated"); if (msgnetwork_conn_get_mode(r->copy) != r->mode) bad("mode of a connection changed"); if (!netaddr_is_eq(msgnetwork_conn_get_addr(r->copy), &r->addr)) bad("address of a connection changed"); } break; }
    }
}
static void executor(Plan &pl, int thr, int nexec) {
    u64 t0 = now();
    for (size_t i = 0; i < pl.ops.size(); i++) { if (!pl.enabled[i] || (int)(pl.ops[i].a[5] % nexec) != thr) continue; auto &o = pl.ops[i]; if (now() < t0 + o.t) sleep_ns(t0 + o.t - now()); exec_op(o, thr + 1); }
    Quiet _; exec_done++;
}
static bool all_connected() { for (int i = 0; i < NN; i++) for (int j = 0; j < NN; j++) if (i != j && link_ok(i, j)) { if (kind == KIND_PEER) { if (!nd[i].peers[j].con) return false; } else if (kind == KIND_MSG || j == 0) { bool any = false; for (auto r : nd[i].recs) if (rec_up(r) && r->addr.ip == node_ip(j) && rec_up(partner(r))) any = true; if (!any) return false; } } return true; }
static void ensure_conns() {
    for (int k = 0; k < 20; k++) { { Quiet _; if (all_connected()) return; }
        if (kind != KIND_PEER) for (int i = 0; i < NN; i++) for (int j = 0; j < NN; j++) if (i != j && active_side(i, j)) { bool any = false; { Quiet _; for (auto r : nd[i].recs) if (rec_up(r) && r->addr.ip == node_ip(j) && rec_up(partner(r))) any = true; } if (any) continue; if (k & 1) msgnetwork_connect(nd[i].mn, nd[j].addr); else { SalticidaeCError e; auto c = msgnetwork_connect_sync(nd[i].mn, nd[j].addr, &e); if (c) msgnetwork_conn_free(c); } }
        wait_until(now() + 3 * SEC, 2 * MS, [] { return all_connected(); }); }
}
// dry: only counts the messages that are still missing
static int judge(bool dry) {
    int missing = 0;
    for (size_t i = 0; i < ms->size(); i++) { auto &m = (*ms)[i]; Node &n = nd[m.from]; int ne = m.id >= 0 && n.errs.count(m.id) ? 1 : 0; if (!dry && m.ndel && ne && m.to >= 0) bad("message delivered although its deferred send was reported as failed");
        if (m.res == PENDING || !m.up0) continue; bool up;
        if (m.conn >= 0) { auto r = n.recs[m.conn]; auto q = partner(r); up = rec_up(r) && rec_up(q) && r->t_con < m.t0; }
        else if (m.conn == -1) up = n.peers[m.to].con && n.peers[m.to].n == (int)m.since_s && nd[m.to].peers[m.from].n == (int)m.since_r && nd[m.to].peers[m.from].con;
        else { u64 a = 0, b = 0; up = true; for (int j = 0; j < NN; j++) if ((-2 - m.conn) >> j & 1) { a += n.peers[j].n; b += nd[j].peers[m.from].n; up = up && n.peers[j].con && nd[j].peers[m.from].con; } up = up && a == m.since_s && b == m.since_r; }
        if (!up) continue;
        if (dry) { if (m.res == OK && !ne && m.ndel < m.want) missing++; continue; }
        if (m.res == FALSE_) { if (!sendbuf) bad("send refused although the connection stays up and the send buffer is unbounded"); continue; }
        if (ne) { if (!sendbuf) bad("deferred send to a connected %s failed although the send buffer is unbounded", kind == KIND_PEER ? "peer" : "node"); continue; }
        if (m.ndel != m.want) bad("message %zu of node %d was delivered %d times instead of %d although its connection stayed up", i, m.from, m.ndel, m.want); probe("judged"); }
    if (dry) return missing;
    for (auto &n : nd) { for (auto &x : n.expect) if (x.second.code >= 0 && !x.second.seen) bad("request %d of node %d should have failed with \"%s\"; no error was reported", x.first, n.id, salticidae_strerror(x.second.code)); if (n.unknown_bad) bad("a known peer was reported as unknown"); }
    return 0;
}
static void run(Plan &pl) {
    endless_means("C24"); { Quiet _; ms = new std::vector<M>(); ms->reserve(8192); seqs = new std::map<int, int>(); for (int i = 0; i < NN; i++) nd[i].id = i; }
    for (int i = 0; i < NN; i++) { spawn(i, ("node" + std::to_string(i)).c_str(), [i] { node_main(nd[i]); }); wait_until(now() + 20 * SEC, 1 * MS, [i] { return nd[i].up; }); if (!nd[i].up) { Quiet _; bad("node %d does not start", i); return; } }
    if (kind == KIND_PEER) for (int i = 0; i < NN; i++) for (int j = 0; j < NN; j++) if (i != j) { if (unknown2 && i == 0 && j == 2) continue; bool reg = !(unknown2 && i == 2 && j == 0) || 1; if (!reg) continue; peernetwork_add_peer(nd[i].pn, nd[j].pid); bool act = active_side(i, j) || (unknown2 && i == 2 && j == 0); if (act) { peernetwork_set_peer_addr(nd[i].pn, nd[j].pid, nd[j].addr); } }
    if (kind == KIND_PEER) { for (auto &n : nd) { peernetwork_has_peer(n.pn, n.pid); } for (int i = 0; i < NN; i++) for (int j = 0; j < NN; j++) if (i != j && (active_side(i, j) ? !(unknown2 && i == 0 && j == 2) : (unknown2 && i == 2 && j == 0))) peernetwork_conn_peer(nd[i].pn, nd[j].pid, -1, retry_delay); }
    if (calm || (run_seed >> 3 & 1)) { ensure_conns(); } else if (kind != KIND_PEER) for (int i = 0; i < NN; i++) for (int j = 0; j < NN; j++) if (i != j && active_side(i, j)) msgnetwork_connect(nd[i].mn, nd[j].addr);
    faults_on = true; int nexec = 1 + run_seed % 3;
    for (int i = 0; i < nexec; i++) spawn(9, ("exec" + std::to_string(i)).c_str(), [&pl, i, nexec] { executor(pl, i, nexec); });
    wait_until(now() + 200 * SEC, 1 * MS, [nexec] { return exec_done == nexec; }); if (exec_done != nexec) { Quiet _; bad("the calls of the application do not return"); return; }
    faults_on = false; heal_all(); sleep_ns(4 * SEC); settle(500 * MS, 20 * SEC); ensure_conns(); { Quiet _; if (!all_connected()) { std::string w; for (int i = 0; i < NN; i++) for (int j = 0; j < NN; j++) w += " " + std::to_string(kind == KIND_PEER ? nd[i].peers[j].con : -1); bad("nodes do not connect any more (peers:%s)", w.c_str()); return; } }
    for (int i = 0; i < NN; i++) for (int j = 0; j < NN; j++) if (i != j && link_ok(i, j)) { if (kind == KIND_PEER) { do_send(nd[i], nullptr, j, 5, 20, false, false, true); do_send(nd[i], nullptr, j, 5, 40, true, false, true); } else { CRec *r = nullptr; { Quiet _; for (auto x : nd[i].recs) if (rec_up(x) && x->addr.ip == node_ip(j) && rec_up(partner(x))) r = x; } if (r) { do_send(nd[i], r, -1, 5, 20, false, i & 1, true); do_send(nd[i], r, -1, 5, 40, true, i & 1, true); } } }
    sleep_ns(300 * MS); settle(500 * MS, 20 * SEC);
    wait_until(now() + 100 * SEC, 20 * MS, [] { Quiet _; return judge(true) == 0; });
    { Quiet _; judge(false); if (unknown2 && nd[0].nunknown == 0) bad("the handshake of an unknown peer was not reported"); u64 h = 0; for (auto &m : *ms) h = h * 31 + m.res * 4 + m.ndel; set_state_hash(h | 1); }
    if (kind == KIND_PEER && (run_seed >> 5 & 1)) { // a node that falls silent is noticed
        node_silent(1, true); u64 t = (u64)((ping_period * 2 + conn_timeout + 2) * SEC); sleep_ns(t); Quiet _; for (int i = 0; i < NN; i += 2) if (nd[i].peers[1].con) bad("silent peer still reported as connected after %.1f s (ping period %.2f, timeout %.2f)", t / 1e9, ping_period, conn_timeout); probe("silent_noticed"); }
    for (auto &n : nd) { { Quiet _; n.stop = true; } wait_until(now() + 60 * SEC, 1 * MS, [&n] { return n.done; }); Quiet _; if (!n.done) { bad("node %d cannot be stopped", n.id); return; } if (open_fds(n.id)) bad("descriptors left open by node %d: %s", n.id, describe_fds().c_str()); }
}
static RegScenario reg(Scenario{"capi", gen, run, opname});
