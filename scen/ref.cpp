// C20: thread-safe shared references (ArcObj / AweakObj) under arbitrary interleavings.
#include "scen/common.h"
#include "salticidae/ref.h"
#include <mutex>
using namespace scen; using namespace sim;
using salticidae::ArcObj; using salticidae::AweakObj; using salticidae::BoxObj;

static int ncommon, ready = 0; static double p_s, p_w;
struct OState { int strong = 0; bool dead = false; int ndestr = 0; }; // strong: references known to be held
static std::vector<OState> *objs; static bool arrays_on, box_on; static int nthr, nslot, nmail; static double p_up;
struct Base { int id; u64 magic; Base(int i): id(i), magic(0x5a11c1dae0000000ULL + i) {} virtual ~Base() { Quiet _; auto &o = (*objs)[id]; if (magic != 0x5a11c1dae0000000ULL + id) violation("C20", "destructor of object %d runs on a dead object", id); magic = 0; if (o.ndestr++) violation("C20", "object %d destroyed twice", id); if (o.strong > 0) violation("C20", "object %d destroyed while %d references to it are held", id, o.strong); o.dead = true; note(700, id); } };
struct Obj : public Base { char *p; Obj(int i): Base(i), p(new char[24]) { p[0] = (char)i; } ~Obj() { delete[] p; } };
typedef ArcObj<Obj> S; typedef AweakObj<Obj> W; typedef ArcObj<Base> SB;
enum { O_NEW, O_COPY, O_MOVE, O_DROP, O_WEAK, O_UP, O_SEND, O_RECV, O_CAST, O_SELF, O_WDROP, O_WCOPY, O_USE, O_SHARED, O_WSEND, O_WRECV, O_SWAP, O_NKIND };
static const char *names[] = {"new", "copy", "move", "drop", "weak-from", "upgrade", "send", "receive", "cast", "self-assign", "drop-weak", "copy-weak", "use", "copy-shared", "send-weak", "receive-weak", "swap"};
static void gen(Plan &p, Rng &r) {
    nthr = r.range(2, 4); nslot = r.range(1, 3); nmail = r.range(1, 3); p_up = r.real(); ncommon = r.range(1, 3); p_s = r.real(); p_w = r.real();
    int n = r.range(4, r.chance(0.3) ? 60 : 24); u64 mask = r.next() | 1; double wk = r.chance(0.6) ? 0.5 : 0.1;
    for (int i = 0; i < n * nthr; i++) {
        int k = r.chance(wk) ? (r.chance(p_up) ? O_UP : r.chance(0.6) ? O_WEAK : O_WDROP) : (int)r.below(O_NKIND);
        if (r.chance(0.15)) k = O_DROP;
        if (k >= 2 && !(mask >> k & 1) && r.chance(0.7)) k = r.chance(0.5) ? O_COPY : O_DROP;
        p.ops.push_back(Op{k, 0, (int)r.below(nthr), {r.below(nslot), r.below(nslot), r.below(nmail), r.next(), 0, 0}});
    }
    cfg.p_slice = r.chance(0.1) ? 0.3 : 0.75 + 0.25 * r.real(); cfg.slice_max = r.logrange(3, 120);
    if (r.chance(0.5)) { cfg.p_stall = 0.01 + 0.1 * r.real(); cfg.stall_max_ns = r.logrange(2000, 500000); }
}
static std::string opname(const Op &o) { char b[100]; snprintf(b, sizeof b, "thread %d %s slot %d,%d mailbox %d", o.node, names[o.kind], (int)o.a[0], (int)o.a[1], (int)o.a[2]); return b; }
// the model's count is raised after a reference was gained and lowered before it is given up: it never exceeds the real one
static int idof(const S &s) { return s.get() ? s.get()->id : -1; }
static void inc(int id) { if (id < 0) return; Quiet _; (*objs)[id].strong++; }
static void dec(int id) { if (id < 0) return; Quiet _; (*objs)[id].strong--; }
struct Slot { S s; int id = -1; }; struct WSlot { W w; int id = -1; };
struct Mail { std::mutex m; Slot s; WSlot w; };
 static std::vector<Slot> *common; static std::vector<Mail> *mail; static S *shared; static int shared_id; static int done = 0;
static void use(const S &s, int id, const char *how) { // the object must be usable through a strong reference
    if (id < 0) return; bool bad; { Quiet _; bad = (*objs)[id].dead; }
    if (bad) { Quiet _; violation("C20", "object %d was destroyed although a reference to it is held (%s)", id, how); return; }
    if (s.get()->magic != 0x5a11c1dae0000000ULL + id || s->p[0] != (char)id || (*s).id != id) { Quiet _; violation("C20", "object %d is garbage (%s)", id, how); }
    if (s.get_cnt() < 1) { Quiet _; violation("C20", "object %d has reference count 0 although one is held", id); }
}
static void drop(Slot &x) { dec(x.id); x.id = -1; x.s = S(); }
static void worker(Plan &pl, int me) {
    { std::vector<Slot> sl(nslot); std::vector<WSlot> wl(nslot);
    { Rng r; { Quiet _; r.seed(run_seed * 64 + me); } for (int i = 0; i < nslot; i++) { // what the thread is given at the start
        int j = r.below(ncommon); if (r.chance(p_s)) { sl[i].s = (*common)[j].s; sl[i].id = (*common)[j].id; inc(sl[i].id); } j = r.below(ncommon); if (r.chance(p_w)) { wl[i].w = W((*common)[j].s); wl[i].id = (*common)[j].id; } } }
    { Quiet _; ready++; } while (ready < nthr + 1) sleep_ns(1000);
    for (size_t i = 0; i < pl.ops.size(); i++) {
        auto &o = pl.ops[i]; if (!pl.enabled[i] || o.node != me) continue;
        Slot &a = sl[o.a[0]], &b = sl[o.a[1]]; WSlot &w = wl[o.a[0]], &v = wl[o.a[1]]; Mail &m = (*mail)[o.a[2]];
        switch (o.kind) {
            case O_NEW: { drop(a); int id; { Quiet _; id = objs->size(); objs->emplace_back(); } if (o.a[3] % 3 == 0) { BoxObj<Obj> bx(new Obj(id)); a.s = S(std::move(bx)); } else a.s = S(new Obj(id)); a.id = id; inc(id); break; }
            case O_COPY: if (&a != &b) { dec(a.id); a.id = -1; a.s = b.s; a.id = b.id; inc(a.id); } else { S t(a.s); inc(a.id); use(t, a.id, "copy"); dec(a.id); } break;
            case O_MOVE: if (&a != &b && b.id >= 0) { dec(a.id); a.s = std::move(b.s); a.id = b.id; b.id = -1; b.s = S(); } break; // the model's count moves with it
            case O_DROP: drop(a); break;
            case O_WEAK: if (b.id >= 0) { w.w = W(b.s); w.id = b.id; } break;
            case O_UP: { if (w.id < 0) break; S t(w.w); int id = t.get() ? w.id : -1; 
                if (id < 0) { Quiet _; auto &x = (*objs)[w.id]; probe("upgrade_failed"); if (x.strong > 0) violation("C20", "weak reference to living object %d yields nothing", w.id); }
                else { { Quiet _; auto &x = (*objs)[id]; if (x.dead) { violation("C20", "weak reference to destroyed object %d yields a strong one", id); } }
                    inc(id); use(t, id, "upgraded"); dec(a.id); a.s = t; a.id = id; /* t goes away, a takes over its count */ }
                break; }
            case O_SEND: { std::lock_guard<std::mutex> g(m.m); if (a.id < 0) break; dec(m.s.id); m.s.s = std::move(a.s); m.s.id = a.id; a.id = -1; a.s = S(); break; }
            case O_RECV: { std::lock_guard<std::mutex> g(m.m); dec(a.id); a.s = m.s.s; a.id = m.s.id; inc(a.id); if (o.a[3] % 2) drop(m.s); break; }
            case O_WSEND: { std::lock_guard<std::mutex> g(m.m); m.w.w = w.w; m.w.id = w.id; break; }
            case O_WRECV: { std::lock_guard<std::mutex> g(m.m); w.w = m.w.w; w.id = m.w.id; break; }
            case O_CAST: { SB t = salticidae::static_pointer_cast<Base>(a.s); if (a.id >= 0 && t.get()->id != a.id) { Quiet _; violation("C20", "cast reference to another object"); } SB u(std::move(t)); dec(a.id); int id = a.id; a.id = -1; a.s = S(); S q = salticidae::static_pointer_cast<Obj>(std::move(u)); a.s = q; a.id = id; inc(id); break; }
            case O_SELF: { S &r = a.s; if (o.a[3] % 2) a.s = r; else a.s = std::move(r); use(a.s, a.id, "self-assigned"); break; }
            case O_WDROP: w.w = W(); w.id = -1; break;
            case O_WCOPY: if (o.a[3] % 2 || &w == &v) { W t(v.w); W u(std::move(t)); w.w = u; } else w.w = v.w; w.id = v.id; break;
            case O_USE: use(a.s, a.id, "use"); break;
            case O_SHARED: if (shared_id >= 0) { dec(a.id); a.id = -1; const S &cs = *shared; a.s = cs; a.id = shared_id; inc(a.id); } break; // concurrent copies of one reference
            case O_SWAP: if (&a != &b) { std::swap(a.s, b.s); std::swap(a.id, b.id); } break;
        }
        if (a.id >= 0) use(a.s, a.id, names[o.kind]); else if (a.s.get() && a.s.get_cnt()) { Quiet _; violation("C20", "reference not given up (%s)", names[o.kind]); }
    }
    for (auto &x : sl) { dec(x.id); x.id = -1; } }
    Quiet _; done++;
}
static u64 live0;
static void run(Plan &pl) {
    endless_means("C20");
    { Quiet _; objs = new std::vector<OState>(); objs->reserve(pl.ops.size() + 8); }
    live0 = mem_user().live_blocks;
    mail = new std::vector<Mail>(nmail);
    { Quiet _; objs->emplace_back(); } shared = new S(new Obj(0)); shared_id = 0; inc(0);
    common = new std::vector<Slot>(ncommon); for (int i = 0; i < ncommon; i++) { int id; { Quiet _; id = objs->size(); objs->emplace_back(); } (*common)[i].s = S(new Obj(id)); (*common)[i].id = id; inc(id); }
    for (int i = 0; i < nthr; i++) spawn(0, ("thread" + std::to_string(i)).c_str(), [&pl, i] { worker(pl, i); });
    wait_until(now() + 100 * SEC, 1 * US, [] { return ready == nthr; }); { Quiet _; ready++; }
    for (auto &x : *common) dec(x.id); delete common;
    // the shared reference itself is dropped by its owner at some point only after nobody copies it any more
    wait_until(now() + 100 * SEC, 5 * US, [] { return done == nthr; });
    if (done != nthr) { Quiet _; violation("C20", "reference operations did not finish"); return; }
    dec(0); delete shared; for (auto &m : *mail) { dec(m.s.id); } delete mail;
    Quiet _; u64 h = 0; int ndead = 0; for (size_t i = 0; i < objs->size(); i++) { auto &o = (*objs)[i]; if (!o.dead) violation("C20", "object %zu is never destroyed", i); else ndead++; h = h * 31 + o.ndestr; }
    u64 l = mem_user().live_blocks; if (l != live0) violation("C20", "%lld blocks are never freed (objects: %zu)", (long long)(l - live0), objs->size());
    set_state_hash(h | 1);
}
static RegScenario reg(Scenario{"ref", gen, run, opname});
