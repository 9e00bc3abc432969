// C25: what is put into a message is what is read from it, and malformed contents are refused.
// Two networks exchange messages whose payload is a random program of fields; a part of them is mutated
// on the way into the send call.  A reference reader predicts what the library's reader must return.
#include "scen/common.h"
#include "salticidae/network.h"
#include <memory>
using namespace scen; using namespace sim;
using salticidae::EventContext; using salticidae::NetAddr; using salticidae::DataStream; using salticidae::TimerEvent; using salticidae::ConnPool; using salticidae::bytearray_t; using salticidae::uint256_t; using salticidae::Bits; using salticidae::htole; using salticidae::letoh;
typedef salticidae::MsgNetwork<uint8_t> Net; typedef std::vector<uint8_t> V;
static int nmsg; static double p_mut; static u64 horizon;
static void gen(Plan &p, Rng &r) {
    p_mut = r.chance(0.7) ? r.real() : 0; horizon = r.logrange(1, 20) * MS; int n = r.range(1, 20);
    for (int i = 0; i < n; i++) { Op o{}; o.t = r.below(horizon); o.node = r.below(2); for (auto &x : o.a) x = r.next(); o.kind = 0; p.ops.push_back(o); }
    std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; });
    cfg.seg_max = std::max<u64>(cfg.seg_max, 8); cfg.p_f_reset = 0;
}
static std::string opname(const Op &o) { char b[80]; snprintf(b, sizeof b, "node %d sends message %d", o.node, (int)(o.a[0] % 100000)); return b; }
enum { F_U8, F_U16, F_U32, F_U64, F_I8, F_I32, F_I64, F_BYTES, F_STR, F_HASH, F_BITS, F_ADDR, F_INPLACE, F_BLOB512, F_N };
struct Field { int type; u64 v; V data; };
// what a field looks like on the wire (independent of the library)
static void le(V &o, u64 v, int n) { for (int i = 0; i < n; i++) o.push_back(v >> (8 * i)); }
static void ref_write(V &o, const Field &f) {
    switch (f.type) { case F_U8: case F_I8: le(o, f.v, 1); break; case F_U16: le(o, f.v, 2); break; case F_U32: case F_I32: le(o, f.v, 4); break; case F_U64: case F_I64: le(o, f.v, 8); break;
        case F_BYTES: case F_STR: case F_INPLACE: le(o, f.data.size(), f.type == F_INPLACE ? 8 : 4); o.insert(o.end(), f.data.begin(), f.data.end()); break;
        case F_HASH: case F_BLOB512: o.insert(o.end(), f.data.begin(), f.data.end()); break;
        case F_BITS: { le(o, f.data.size() * 8, 4); V d = f.data; while (d.size() % 8) d.push_back(0); o.insert(o.end(), d.begin(), d.end()); break; }
        case F_ADDR: le(o, f.v, 4); le(o, f.v >> 32, 2); break; }
}
static std::vector<Field> program(u64 seed) {
    Rng r; r.seed(seed); std::vector<Field> fs; int n = r.below(8);
    for (int i = 0; i < n; i++) { Field f; f.type = r.below(F_N); f.v = r.chance(0.2) ? 0 : r.chance(0.2) ? ~0ULL : r.next(); int len = r.chance(0.2) ? 0 : r.chance(0.3) ? r.below(200) : r.below(20); if (f.type == F_HASH) len = 32; if (f.type == F_BLOB512) len = 64; bool ff = r.chance(0.2); for (int k = 0; k < len; k++) f.data.push_back(ff ? 0xff : r.next()); fs.push_back(f); }
    return fs;
}
typedef salticidae::Blob<512> Blob512;
// written with the library
static bytearray_t lib_write(const std::vector<Field> &fs, u64 how) {
    DataStream s;
    for (auto &f : fs) switch (f.type) {
        case F_U8: s << (uint8_t)f.v; break; case F_U16: s << htole((uint16_t)f.v); break; case F_U32: s << htole((uint32_t)f.v); break; case F_U64: s << htole((uint64_t)f.v); break;
        case F_I8: s << (int8_t)f.v; break; case F_I32: s << (int32_t)f.v; break; case F_I64: s << (int64_t)f.v; break;
        case F_BYTES: s << htole((uint32_t)f.data.size()) << bytearray_t(f.data); break; case F_STR: s << htole((uint32_t)f.data.size()) << std::string(f.data.begin(), f.data.end()); break;
        case F_INPLACE: s << htole((uint64_t)f.data.size()); s.put_data(f.data.data(), f.data.data() + f.data.size()); break;
        case F_HASH: { uint256_t h(f.data.data()); s << h; break; } case F_BLOB512: { Blob512 h(bytearray_t(f.data)); s << h; break; }
        case F_BITS: { Bits b(f.data.data(), f.data.size()); if (how & 1) { Bits c(b); s << c; } else s << b; break; }
        case F_ADDR: s << NetAddr((uint32_t)f.v, (uint16_t)(f.v >> 32)); break; }
    if (how & 2) { DataStream t(s); DataStream u; u = std::move(t); s = u; } if (how & 4) return bytearray_t(std::move(s)); return (bytearray_t)s;
}
// reads the same kinds of fields from d with the reference rules; false: must be refused at that field
static bool ref_read(const V &d, size_t &o, Field &f) {
    auto need = [&](u64 n) { return n <= d.size() - o; }; auto rd = [&](int n) { u64 v = 0; for (int i = 0; i < n; i++) v |= (u64)d[o + i] << (8 * i); o += n; return v; };
    int w = 0; switch (f.type) { case F_U8: case F_I8: w = 1; break; case F_U16: w = 2; break; case F_U32: case F_I32: w = 4; break; case F_U64: case F_I64: w = 8; break; }
    if (w) { if (!need(w)) return false; f.v = rd(w); return true; }
    if (f.type == F_BYTES || f.type == F_STR || f.type == F_INPLACE) { int lw = f.type == F_INPLACE ? 8 : 4; if (!need(lw)) return false; u64 n = rd(lw); if (!need(n)) return false; f.data.assign(d.begin() + o, d.begin() + o + n); o += n; return true; }
    if (f.type == F_HASH || f.type == F_BLOB512) { int n = f.type == F_HASH ? 32 : 64; if (!need(n)) return false; f.data.assign(d.begin() + o, d.begin() + o + n); o += n; return true; }
    if (f.type == F_ADDR) { if (!need(6)) return false; f.v = rd(6); return true; }
    if (!need(4)) return false; u64 bits = rd(4), bytes = (bits + 63) / 64 * 8; if (!need(bytes)) return false; f.v = bits; f.data.assign(d.begin() + o, d.begin() + o + bytes); o += bytes; return true;
}
static bool lib_read(DataStream &s, const Field &want, std::string &why) {
    auto num = [&](u64 got, u64 exp) { if (got != exp) why = "an integer was read back as another one"; };
    switch (want.type) {
        case F_U8: { uint8_t x = 0; s >> x; num(x, (uint8_t)want.v); break; } case F_U16: { uint16_t x = 0; s >> x; num(letoh(x), (uint16_t)want.v); break; } case F_U32: { uint32_t x = 0; s >> x; num(letoh(x), (uint32_t)want.v); break; } case F_U64: { uint64_t x = 0; s >> x; num(letoh(x), want.v); break; }
        case F_I8: { int8_t x = 0; s >> x; num((uint8_t)x, (uint8_t)want.v); break; } case F_I32: { int32_t x = 0; s >> x; num((uint32_t)x, (uint32_t)want.v); break; } case F_I64: { int64_t x = 0; s >> x; num((u64)x, want.v); break; }
        case F_BYTES: case F_STR: case F_INPLACE: { u64 n; if (want.type == F_INPLACE) { uint64_t x; s >> x; n = letoh(x); } else { uint32_t x; s >> x; n = letoh(x); }
            const uint8_t *p = s.get_data_inplace(n); V got(p, p + n); if (got != want.data) why = "bytes were read back as others"; break; }
        case F_HASH: { uint256_t h; if (!h.is_null()) why = "a new hash is not null"; s >> h; bytearray_t b = h.to_bytes(); if (V(b.begin(), b.end()) != want.data) why = "a hash was read back as another one"; uint256_t g(want.data.data()); if (!(g == h) || g != h || g < h || h < g || h.is_null()) why = "equal hashes compare as different"; uint256_t k; k.from_bytes(b); if (!(k == h)) why = "a hash was read back as another one"; uint256_t x; x.from_hex(h.to_hex()); if (!(x == h)) why = "a hash was read back from its hexadecimal form as another one"; break; }
        case F_BLOB512: { Blob512 h; s >> h; bytearray_t b = h.to_bytes(); if (V(b.begin(), b.end()) != want.data) why = "a blob was read back as another one"; break; }
        case F_BITS: { Bits b; s >> b; if (b.size() != (uint32_t)want.v && want.v != ~0ULL) why = "a bit array was read back with another size"; size_t n = want.data.size() * 8; for (size_t i = 0; i < b.size() && i < n; i++) if (b.get(i) != (want.data[i / 8] >> (i % 8) & 1)) { why = "a bit of a bit array changed"; break; }
            if (b.size() && n) { uint32_t i = (u64)want.data[0] * 7919 % b.size(), j = b.size() - 1; uint8_t o = b.get(i), oj = b.get(j); b.flip(i); if (b[i] == o) why = "flip() of a bit"; if (i != j && b.get(j) != oj) why = "flip() changed another bit"; b.set(i); if (!b[i]) why = "set() of a bit"; b.unset(i); if (b[i]) why = "unset() of a bit"; if (i != j && b.get(j) != oj) why = "changing a bit changed another one"; } break; }
        case F_ADDR: { NetAddr a; s >> a; if (a.ip != (uint32_t)want.v || a.port != (uint16_t)(want.v >> 32)) why = "an address was read back as another one"; break; }
    }
    return why.empty();
}
struct MRec { int from; u64 seed; V wire; std::vector<Field> fs; bool mutated; int ndel = 0; };
static std::vector<MRec> *ms; struct Node { int id; EventContext *ec = nullptr; Net *net = nullptr; bool up = false, stop = false, done = false; ConnPool::conn_t conn; }; static Node nd[2]; static u64 progress = 0; static int exec_done = 0;
static void bad(const char *f, const char *a) { violation("C25", f, a); }
static void got(Node &n, const Net::Msg &msg) {
    DataStream s = msg.get_payload(); uint32_t idx; { s >> idx; idx = letoh(idx); } if (idx >= ms->size()) { Quiet _; bad("%s", "message with a number never sent"); return; }
    auto &m = (*ms)[idx]; { Quiet _; progress++; if (m.ndel++) bad("%s", "message received twice"); }
    size_t o = 4; bool ok = true;
    for (auto &f0 : m.fs) {
        Field f; bool expect; { Quiet _; f = f0; f.data.clear(); f.v = 0; if (f0.type == F_BITS) f.v = ~0ULL; expect = ref_read(m.wire, o, f); }
        std::string why; bool thrown = false; size_t before = s.size();
        try { lib_read(s, f, why); } catch (std::exception &) { thrown = true; }
        Quiet _; if (thrown && expect) { bad("well-formed contents of a message were refused%s", ""); return; } if (!thrown && !expect) { bad("malformed contents of a message were accepted%s", ""); return; } if (!thrown && !why.empty()) { bad("%s", why.c_str()); return; }
        if (thrown) { probe("refused"); ok = false; if (s.size() > before) bad("%s", "a stream has more data left after a failed read than before"); break; }
        if (s.size() != m.wire.size() - o) { bad("%s", "a read consumed another number of bytes"); return; }
    }
    if (ok) { V left(m.wire.begin() + o, m.wire.end()); std::string h; { Quiet _; static const char *x = "0123456789abcdef"; for (auto b : left) { h += x[b >> 4]; h += x[b & 15]; } }
        std::string gh = s.get_hex(); bytearray_t a = s; std::string st = s; bytearray_t hb = salticidae::from_hex(gh); DataStream c(s); bytearray_t b = std::move(c);
        uint256_t h1 = s.get_hash(), h2 = DataStream(bytearray_t(left)).get_hash();
        Quiet _; if (gh != h) bad("%s", "hexadecimal form of a stream"); if (V(a.begin(), a.end()) != left || V(b.begin(), b.end()) != left || V(hb.begin(), hb.end()) != left || V(st.begin(), st.end()) != left) bad("%s", "what is left of a partly read stream was converted to other bytes"); if (!(h1 == h2)) bad("%s", "hash of a partly read stream"); probe("read"); }
    // malformed hexadecimal strings
    { std::string h; bool valid; { Quiet _; Rng r; r.seed(m.seed ^ 77); int n = r.below(9); valid = n % 2 == 0; for (int i = 0; i < n; i++) { char c = "0123456789abcdefABCDEFgG xX+-z"[r.chance(0.9) ? r.below(22) : r.below(30)]; if (!isxdigit(c)) valid = false; h += c; } }
      bool thrown = false; try { salticidae::from_hex(h); } catch (std::exception &) { thrown = true; } Quiet _; if (thrown == valid) bad(valid ? "hexadecimal string %s refused" : "invalid hexadecimal string \"%s\" accepted", h.c_str()); }
    { Bits e; Bits c(e); if (!c.is_null()) { Quiet _; bad("%s", "copy of a null bit array is not null"); } DataStream z; z << e; Bits b2; z >> b2; Quiet _; if (b2.size()) bad("%s", "a null bit array was read back with bits"); }
}
static void node_main(Node &n) {
    n.ec = new EventContext(); Net::Config c; ConnPool::Config &pc = c; pc.nworker(1 + run_seed % 2); c.max_msg_queue_size(4 + run_seed % 30); n.net = new Net(*n.ec, c);
    n.net->set_handler(0x10, [&n](const Net::Msg &m, const Net::conn_t &) { got(n, m); });
    n.net->reg_conn_handler([&n](const ConnPool::conn_t &conn, bool con) { Quiet _; progress++; if (con) n.conn = conn; else n.conn = nullptr; return true; });
    n.net->reg_error_handler([](const std::exception_ptr e, bool fatal, int32_t) { Quiet _; if (fatal) bad("%s", "fatal error"); });
    n.net->start(); if (n.id == 0) n.net->listen(NetAddr(node_ip(0), htons(9000)));
    auto ctl = new TimerEvent(*n.ec, nullptr); ctl->set_callback([&n, ctl](TimerEvent &) { if (n.stop) { n.ec->stop(); return; } ctl->add(0.008); }); ctl->add(0.008);
    n.up = true; n.ec->dispatch(); n.up = false; delete ctl; n.conn = nullptr; delete n.net; delete n.ec; Quiet _; n.done = true;
}
static void do_op(const Op &o) {
    Node &n = nd[o.node]; u32 idx; V w; std::vector<Field> fs; bool mut;
    { Quiet _; idx = ms->size(); ms->emplace_back(); fs = program(o.a[0]); V body; for (auto &f : fs) ref_write(body, f); le(w, idx, 4); w.insert(w.end(), body.begin(), body.end()); Rng r; r.seed(o.a[1]); mut = r.chance(p_mut);
      auto &m = (*ms)[idx]; m.from = n.id; m.seed = o.a[0]; m.fs = fs; m.mutated = mut; m.wire = w;
      if (mut) { auto &x = m.wire; int k = 1 + r.below(3); while (k--) switch (r.below(4)) { case 0: x.resize(4 + r.below(x.size() - 3)); break; case 1: { int e = r.below(20); while (e--) x.push_back(r.next()); break; } case 2: if (x.size() > 4) x[4 + r.below(x.size() - 4)] ^= 1 << r.below(8); break; default: if (x.size() > 5) { size_t at = 4 + r.below(x.size() - 4); int len = r.range(1, 9); for (int i = 0; i < len && at + i < x.size(); i++) x[at + i] = r.chance(0.7) ? 0xff : r.chance(0.5) ? 0 : r.next(); } } probe("mutated"); } }
    bytearray_t pay;
    if (mut) { Quiet _; auto &m = (*ms)[idx]; pay = bytearray_t(m.wire); }
    else { bytearray_t b = lib_write(fs, o.a[2]); DataStream s; s << htole(idx) << b; pay = bytearray_t(std::move(s)); Quiet _; if (V(pay.begin(), pay.end()) != w) { bad("%s", "a message was serialized to other bytes than its fields stand for"); return; } }
    ConnPool::conn_t c; { Quiet _; c = n.conn; } if (!c) return;
    Net::Msg m(0x10, std::move(pay)); if (o.a[3] & 1) n.net->_send_msg(m, salticidae::static_pointer_cast<Net::Conn>(c)); else n.net->_send_msg_deferred(std::move(m), salticidae::static_pointer_cast<Net::Conn>(c));
}
static void executor(Plan &pl, int thr, int nexec) { u64 t0 = now(); for (size_t i = 0; i < pl.ops.size(); i++) { if (!pl.enabled[i] || (int)(pl.ops[i].a[5] % nexec) != thr) continue; auto &o = pl.ops[i]; if (now() < t0 + o.t) sleep_ns(t0 + o.t - now()); do_op(o); } Quiet _; exec_done++; }
static void run(Plan &pl) {
    endless_means("C25"); { Quiet _; ms = new std::vector<MRec>(); ms->reserve(100); }
    for (int i = 0; i < 2; i++) { nd[i].id = i; spawn(i, i ? "node1" : "node0", [i] { node_main(nd[i]); }); wait_until(now() + 20 * SEC, 1 * MS, [i] { return nd[i].up; }); }
    { auto c = nd[1].net->connect_sync(NetAddr(node_ip(0), htons(9000))); } wait_until(now() + 20 * SEC, 1 * MS, [] { return nd[0].conn && nd[1].conn; }); if (!nd[0].conn || !nd[1].conn) { Quiet _; violation("C25", "no connection"); return; }
    faults_on = true; int nexec = 1 + run_seed % 2; for (int i = 0; i < nexec; i++) spawn(9, "exec", [&pl, i, nexec] { executor(pl, i, nexec); });
    wait_until(now() + 100 * SEC, 1 * MS, [nexec] { return exec_done == nexec; }); faults_on = false;
    wait_until(now() + 100 * SEC, 5 * MS, [] { for (auto &m : *ms) if (!m.ndel) return false; return true; });
    { Quiet _; u64 h = 0; for (auto &m : *ms) { if (!m.ndel) bad("%s", "message not received"); h = h * 31 + m.wire.size(); for (auto &f : m.fs) h = h * 31 + f.type; } set_state_hash(h | 1); }
    for (auto &n : nd) { { Quiet _; n.stop = true; } wait_until(now() + 60 * SEC, 1 * MS, [&n] { return n.done; }); }
}
static RegScenario reg(Scenario{"wire", gen, run, opname});
