// C14: lock-free queues under arbitrary interleavings.
#include "scen/common.h"
#include "salticidae/event.h"
#include "salticidae/queue.h"
#include <memory>
using namespace scen; using namespace sim;
using salticidae::MPMCQueue; using salticidae::MPSCQueue; using salticidae::MPMCQueueEventDriven; using salticidae::MPSCQueueEventDriven;
using salticidae::EventContext; using salticidae::MPMCQ_SIZE;

// element with a heap part, so that half-constructed or doubly moved elements show up
struct Item {
    int prod; int seq; u64 tag; char *p;
    Item(): prod(-1), seq(-1), tag(0), p(nullptr) {}
    Item(int a, int b): prod(a), seq(b), tag((u64)a * 1000003 + b), p(new char[16]) { p[0] = (char)(a * 31 + b); }
    Item(const Item &o): prod(o.prod), seq(o.seq), tag(o.tag), p(o.p ? new char[16] : nullptr) { if (p) p[0] = o.p[0]; }
    Item(Item &&o): prod(o.prod), seq(o.seq), tag(o.tag), p(o.p) { o.p = nullptr; o.prod = -2; }
    Item &operator=(Item &&o) { if (p) delete[] p; prod = o.prod; seq = o.seq; tag = o.tag; p = o.p; o.p = nullptr; o.prod = -2; return *this; }
    ~Item() { delete[] p; }
};
struct St { int prod, seq; u64 enq0 = 0, enq1 = 0, deq0 = 0, deq1 = 0; int ndeq = 0; bool ok = false; };
struct Empty { u64 t0, t1; int consumer; };
enum { MPMC, MPSC, MPMC_ED, MPSC_ED };
static int kind, nprod, ncons, perprod, cap, burst; static bool use_cap, rewinds; static double p_try, p_rew;
static std::vector<std::vector<St>> *items; static std::vector<Empty> *empties;
static u64 clk = 0; static int prod_done = 0, cons_done = 0, consumed = 0, accepted = 0; static bool unbounded_used = false;
static u64 tick() { Quiet _; return ++clk; }
static u64 order_hash = 0;

static void gen(Plan &p, Rng &r) {
    static const int ks[] = {MPMC, MPMC, MPMC, MPSC, MPSC, MPSC_ED, MPMC_ED};
    kind = ks[r.below(7)];
    nprod = r.range(1, 4); ncons = (kind == MPSC || kind == MPSC_ED) ? 1 : r.range(1, 3);
    use_cap = r.chance(0.6); cap = r.range(1, 5 * MPMCQ_SIZE);
    perprod = r.range(2, r.chance(0.3) ? 40 : 16);
    p_try = use_cap ? (r.chance(0.5) ? 1.0 : r.real()) : 0;
    rewinds = (kind == MPSC || kind == MPSC_ED) && r.chance(0.6); p_rew = 0.05 + 0.3 * r.real();
    burst = r.range(1, 6);
    cfg.p_slice = r.chance(0.1) ? 0.2 : 0.7 + 0.3 * r.real();
    cfg.slice_max = r.logrange(8, 400);
    if (r.chance(0.5)) { cfg.p_stall = 0.01 + 0.1 * r.real(); cfg.stall_max_ns = r.logrange(5000, 2000000); }
    // one op per (producer, chunk) so that shrinking can remove work
    for (int i = 0; i < nprod; i++) for (int c = 0; c < perprod; c++) p.ops.push_back(Op{0, 0, 0, {(u64)i, (u64)r.chance(p_try), 0, 0, 0, 0}});
}
static std::string opname(const Op &o) { return "producer " + std::to_string(o.a[0]) + (o.a[1] ? " bounded enqueue" : " unbounded enqueue"); }

template<typename Q> static void produce(Q &q, Plan &pl, int me) {
    int seq = 0;
    for (size_t i = 0; i < pl.ops.size(); i++) {
        auto &o = pl.ops[i];
        if (!pl.enabled[i] || (int)o.a[0] != me) continue;
        Item it(me, seq);
        St *s; { Quiet _; auto &v = (*items)[me]; v.emplace_back(); s = nullptr; v.back().prod = me; v.back().seq = seq; v.back().enq0 = tick(); if (!o.a[1]) unbounded_used = true; }
        // publish as accepted before the call, so that a consumer may see it; corrected on refusal
        bool ok;
        for (int tries = 0;; tries++) {
            ok = q.enqueue(it, !o.a[1]);
            if (ok || tries >= 3) break;
            if (coin(K_APP, 0.5)) sched_yield();
        }
        { Quiet _; auto &st = (*items)[me][seq]; st.enq1 = tick(); st.ok = ok; if (ok) accepted++;
          if (!ok && st.ndeq) violation("C14", "item %d/%d was refused but came out of the queue", me, seq);
          if (!ok && it.prod != me) violation("C14", "refused enqueue consumed its argument");
          if (!ok) probe("bounded_refused"); (void)s; }
        seq++;
    }
    Quiet _; prod_done++;
}
static std::vector<int> last_seen[8];
static void got(Item &e, int cons, u64 t0) {
    Quiet _;
    u64 t1 = tick();
    if (e.prod < 0 || e.prod >= nprod || e.seq < 0 || e.seq >= (int)(*items)[e.prod].size())
        { violation("C14", "invented item %d/%d dequeued", e.prod, e.seq); return; }
    auto &s = (*items)[e.prod][e.seq];
    if (e.tag != (u64)e.prod * 1000003 + e.seq || !e.p || e.p[0] != (char)(e.prod * 31 + e.seq)) violation("C14", "item %d/%d corrupted", e.prod, e.seq);
    if (s.enq1 && !s.ok) violation("C14", "refused item %d/%d dequeued", e.prod, e.seq);
    if (s.ndeq++) violation("C14", "item %d/%d dequeued twice", e.prod, e.seq);
    s.deq0 = t0; s.deq1 = t1; consumed++;
    if (last_seen[cons].empty()) last_seen[cons].assign(nprod, -1);
    if (last_seen[cons][e.prod] > e.seq) violation("C14", "consumer %d saw item %d of producer %d after item %d", cons, e.seq, e.prod, last_seen[cons][e.prod]);
    last_seen[cons][e.prod] = e.seq;
    order_hash = order_hash * 1099511628211ULL + e.prod * 97 + cons; note(500, e.prod, e.seq);
}
template<typename Q> static bool deq(Q &q, int cons) {
    Item e; u64 t0 = tick();
    if (!q.try_dequeue(e)) { Quiet _; empties->push_back(Empty{t0, tick(), cons}); return false; }
    got(e, cons, t0);
    return true;
}
static Item held; 
static void post() {
    Quiet _;
    for (int p = 0; p < nprod; p++) for (auto &s : (*items)[p]) {
        if (s.ok && s.ndeq != 1) violation("C14", "accepted item %d/%d was dequeued %d times", p, s.seq, s.ndeq);
    }
    // per-producer FIFO across consumers: a dequeue of a later item must not complete before the dequeue of
    // an earlier one has even begun
    for (int p = 0; p < nprod; p++) {
        u64 mn = ~0ULL; auto &v = (*items)[p]; int w = -1;
        for (int i = (int)v.size() - 1; i >= 0; i--) {
            if (!v[i].ok) continue;
            if (v[i].deq0 > mn) violation("C14", "item %d of producer %d was dequeued after item %d although enqueued before it", i, p, w);
            if (v[i].deq1 < mn) { mn = v[i].deq1; w = i; }
        }
    }
    // an item enqueued completely before a dequeue began and dequeued only by calls that began after it
    // returned was in the queue all the time: the dequeue must not report an empty queue
    for (auto &e : *empties)
        for (auto &v : *items) for (auto &s : v)
            if (s.ok && s.enq1 < e.t0 && s.deq0 > e.t1) { violation("C14", "consumer %d found the queue empty although item %d/%d was in it", e.consumer, s.prod, s.seq); return; }
    set_state_hash(order_hash);
}
template<typename Q> static void capacity_check(Q &q) {
    if (!use_cap) return;
    // everything was consumed and nobody else is active: at least the configured number of blocks is free
    size_t nblk = std::max((size_t)cap / MPMCQ_SIZE, (size_t)1);
    size_t n = 0, lim = (nblk + 1) * MPMCQ_SIZE;
    for (; n <= lim + MPMCQ_SIZE; n++) { Item it(0, 0); if (!q.enqueue(it, false)) break; }
    Quiet _;
    if (n < nblk * MPMCQ_SIZE) violation("C14", "bounded enqueue refused although the queue has room (%zu of %zu accepted)", n, nblk * MPMCQ_SIZE);
    if (!unbounded_used && !rewinds && n > lim) violation("C14", "bounded queue accepted %zu items, capacity is %zu", n, lim);
}
template<typename Q> static void drain_count(Q &q) { Item e; while (q.try_dequeue(e)) {} }

template<typename Q> static bool rewind_maybe(Q &, int, std::false_type) { return false; }
template<typename Q> static bool rewind_maybe(Q &q, int cons, std::true_type) {
    // take one item out and put it back: it must come out next again
    if (!rewinds || !coin(K_APP, p_rew)) return false;
    Item e;
    if (!q.try_dequeue(e)) return false;
    int p = e.prod, s = e.seq;
    q.rewind(e); // NOLINT: e is copied
    probe("rewind");
    Item f; u64 t0 = tick();
    if (!q.try_dequeue(f)) { Quiet _; violation("C14", "rewound item %d/%d vanished", p, s); return false; }
    if (f.prod != p || f.seq != s) { Quiet _; violation("C14", "rewound item %d/%d did not come out first (got %d/%d)", p, s, f.prod, f.seq); }
    got(f, cons, t0);
    return true;
}
template<typename Q, typename IsSC> static void raw(Plan &pl) {
    auto q = new Q();
    if (use_cap) q->set_capacity(cap);
    for (int i = 0; i < nprod; i++) spawn(0, ("prod" + std::to_string(i)).c_str(), [q, &pl, i] { produce(*q, pl, i); });
    for (int i = 0; i < ncons; i++) spawn(0, ("cons" + std::to_string(i)).c_str(), [q, i] {
        for (;;) {
            bool fin = prod_done == nprod;
            if (!rewind_maybe(*q, i, IsSC()) && !deq(*q, i)) {
                if (fin) break;
                sched_yield();
            }
        }
        Quiet _; cons_done++;
    });
    wait_until(now() + 100 * SEC, 20 * US, [] { return prod_done == nprod && cons_done == ncons; });
    if (prod_done != nprod || cons_done != ncons) { Quiet _; violation("C14", "queue operations did not finish"); }
    // consumers may have left with a stale view while others were finishing; the rest must still be there
    while (deq(*q, 0)) {}
    post();
    capacity_check(*q); drain_count(*q);
    delete q;
}
struct Loop { EventContext ec; int cons; };
template<typename Q> static void evented(Plan &pl) {
    auto q = new Q();
    if (use_cap) q->set_capacity(cap);
    std::vector<Loop *> *loops = new std::vector<Loop *>();
    static int inside[4]; static bool stopreq = false;
    for (int i = 0; i < ncons; i++) {
        auto l = new Loop(); l->cons = i; loops->push_back(l);
        q->reg_handler(l->ec, [i](Q &qq) {
            if (inside[i]++) { Quiet _; violation("C14", "handler re-entered"); }
            bool more = true;
            for (int k = 0; k < burst; k++) if (!deq(qq, i)) { more = false; break; }
            inside[i]--;
            return more;
        });
    }
    for (int i = 0; i < ncons; i++) { auto l = (*loops)[i]; spawn(0, ("loop" + std::to_string(i)).c_str(), [l] {
        // a timer lets the loop end when everything is over
        auto t = new salticidae::TimerEvent(l->ec, nullptr);
        t->set_callback([l, t](salticidae::TimerEvent &) { if (stopreq) l->ec.stop(); else t->add(0.01); });
        t->add(0.01);
        l->ec.dispatch(); delete t; Quiet _; cons_done++; }); }
    for (int i = 0; i < nprod; i++) spawn(0, ("prod" + std::to_string(i)).c_str(), [q, &pl, i] { produce(*q, pl, i); });
    wait_until(now() + 100 * SEC, 50 * US, [] { return prod_done == nprod; });
    wait_until(now() + 5 * SEC, 1 * MS, [] { return consumed >= accepted; });
    { Quiet _; if (consumed < accepted) violation("C14", "missed wake-up: %d of %d accepted items consumed after producers stopped", consumed, accepted); }
    stopreq = true;
    wait_until(now() + 100 * SEC, 1 * MS, [] { return cons_done == ncons; });
    post();
    capacity_check(*q); drain_count(*q);
    delete q;
    for (auto l : *loops) delete l;
    Quiet _; if (open_fds(-1)) violation("C14", "event-driven queue left %d descriptors open: %s", open_fds(-1), describe_fds().c_str());
}
static void run(Plan &pl) {
    endless_means("C14");
    { Quiet _; items = new std::vector<std::vector<St>>(nprod); for (auto &v : *items) v.reserve(256); empties = new std::vector<Empty>(); set_state_hash(0); }
    switch (kind) {
        case MPMC: raw<MPMCQueue<Item>, std::false_type>(pl); break;
        case MPSC: raw<MPSCQueue<Item>, std::true_type>(pl); break;
        case MPSC_ED: evented<MPSCQueueEventDriven<Item>>(pl); break;
        case MPMC_ED: evented<MPMCQueueEventDriven<Item>>(pl); break;
    }
}
static RegScenario reg(Scenario{"queue", gen, run, opname});
