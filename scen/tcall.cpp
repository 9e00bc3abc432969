// C15: ThreadCall under arbitrary interleavings.  C21: timers and descriptor events against a model.
#include "scen/common.h"
#include <sys/eventfd.h>
#include "salticidae/event.h"
#include <memory>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
using namespace scen; using namespace sim;
using salticidae::EventContext; using salticidae::ThreadCall; using salticidae::TimerEvent; using salticidae::FdEvent; using salticidae::TimedFdEvent; using salticidae::SalticidaeError;

// ================================================================ C15
namespace tc {
static int nlive = 0; static void up() { Quiet _; nlive++; } static void down() { Quiet _; nlive--; }
struct Counted { int v; char *p; Counted(int x): v(x), p(new char[20]) { p[3] = (char)x; up(); } Counted(const Counted &o): v(o.v), p(new char[20]) { p[3] = o.p[3]; up(); } Counted(Counted &&o): v(o.v), p(o.p) { o.p = nullptr; o.v = -1; up(); } ~Counted() { delete[] p; down(); } bool ok(int x) const { return p && v == x && p[3] == (char)x; } };
struct MoveOnly { std::unique_ptr<Counted> c; int v; MoveOnly(int x): c(new Counted(x)), v(x) {} MoveOnly(MoveOnly &&) = default; };
struct AppErr { int id; Counted c; AppErr(int i): id(i), c(i) {} };
enum { ASYNC, CALL_INT, CALL_STR, CALL_MOVE, CALL_THROW_S, CALL_THROW_R, CALL_THROW_A, ASYNC_THROW, NESTED, CROSS, SLOWCB, CAPI, CALL_NONE, PAUSE, CALL_KEEP, STOP, CALL_RESETRES, NKIND };
static const char *names[] = {"async", "call int", "call string", "call move-only", "call throwing SalticidaeError", "call throwing runtime_error", "call throwing custom", "async throwing", "async submitting", "call making a blocking call", "async slow", "C API async", "call without result", "pause", "call, result kept", "stop", "call setting the result twice"};
static int nloop, nthr; static size_t burst[2]; static bool leftover;
struct Sub { int loop; int by; int seq; int ran = 0; bool fin = false; bool blocking = false; bool returned = false; };
static std::vector<Sub> *subs; static std::map<std::pair<int, int>, int> *nextseq, *lastrun;
static int loopfiber[2] = {-1, -1}, inside[2]; static bool stopped[2], stopreq; static int done = 0, loops_done = 0, loops_up = 0; static u64 h = 0;
static ThreadCall *tcs[2]; static EventContext *ecs[2];
static int submit(int loop, bool blocking) { Quiet _; int id = subs->size(); subs->push_back(Sub{loop, cur_fiber(), (*nextseq)[{cur_fiber(), loop}]++}); subs->back().blocking = blocking; return id; }
static void begin(int id) {
    Quiet _; auto &s = (*subs)[id]; note(600, id, s.loop); h = h * 1099511628211ULL + s.by * 131 + s.loop;
    if (s.ran++) violation("C15", "call %d ran twice", id);
    if (cur_fiber() != loopfiber[s.loop]) violation("C15", "call %d ran on thread %d instead of the thread %d of its loop", id, cur_fiber(), loopfiber[s.loop]);
    if (inside[s.loop]++) violation("C15", "calls on one loop nested");
    if (stopped[s.loop]) violation("C15", "call %d ran after the loop was stopped for calls", id);
    auto &l = (*lastrun)[{s.by, s.loop}]; // 0: none
    if (l > s.seq) violation("C15", "call %d of thread %d ran out of order", id, s.by); else l = s.seq + 1;
}
static void end(int id) { Quiet _; auto &s = (*subs)[id]; inside[s.loop]--; s.fin = true; }
static bool returned(int id, const char *how, bool expect_stop) { // a blocking call came back
    Quiet _; auto &s = (*subs)[id]; s.returned = true;
    if (expect_stop) { probe("call_after_stop"); if (!stopped[s.loop]) violation("C15", "call %d refused although its loop is not stopped", id); if (s.ran) violation("C15", "call %d reported as refused but ran", id); return false; }
    if (!s.fin) violation("C15", "blocking call %d returned (%s) before the callee had finished", id, how);
    return true;
}
struct Guard { int id; ~Guard() { end(id); } };
static void capi_cb(threadcall_handle_t *, void *u) { int id = (int)(long)u; begin(id); Guard g{id}; }
// checks that the call ended by being refused after stop; otherwise rethrows what the callee threw
template<typename F> static void expect_value(int id, F &&f) {
    try { f(); } catch (SalticidaeError &e) {
        if (e.get_code() == salticidae::SALTI_ERROR_NOT_AVAIL) returned(id, "refused", true); else { Quiet _; violation("C15", "call %d raised SalticidaeError %d which nobody threw", id, e.get_code()); }
    } catch (...) { Quiet _; violation("C15", "call %d raised an exception which nobody threw", id); }
}
static void bad(int id, const char *what) { Quiet _; violation("C15", "call %d returned %s", id, what); }
static void worker(Plan &pl, int me) {
    std::vector<std::pair<int, ThreadCall::Result>> kept;
    for (size_t i = 0; i < pl.ops.size(); i++) {
        auto &o = pl.ops[i]; if (!pl.enabled[i] || o.node != me) continue;
        int L = o.a[0] % nloop; ThreadCall &t = *tcs[L]; int x = o.a[1];
        switch (o.kind) {
            case PAUSE: sleep_ns(o.a[2]); break;
            case ASYNC: { int id = submit(L, false); Counted c(id); t.async_call([id, c](ThreadCall::Handle &) { begin(id); Guard g{id}; if (!c.ok(id)) bad(id, "with damaged captures"); }); break; }
            case SLOWCB: { int id = submit(L, false); u64 d = o.a[2]; t.async_call([id, d](ThreadCall::Handle &) { begin(id); Guard g{id}; sleep_ns(d); }); break; }
            case ASYNC_THROW: { int id = submit(L, false); t.async_call([id](ThreadCall::Handle &) { begin(id); Guard g{id}; throw AppErr(id); }); break; }
            case NESTED: { int id = submit(L, false); int M = o.a[2] % nloop, n = 1 + x % 3; t.async_call([id, M, n](ThreadCall::Handle &) { begin(id); Guard g{id}; for (int k = 0; k < n; k++) { int j = submit(M, false); tcs[M]->async_call([j](ThreadCall::Handle &) { begin(j); Guard g{j}; }); } }); break; }
            case CAPI: { int id = submit(L, false); threadcall_async_call(&t, capi_cb, (void *)(long)id); break; }
            case STOP: { int id = submit(L, false); t.async_call([id, L](ThreadCall::Handle &) { begin(id); { Guard g{id}; tcs[L]->stop(); } Quiet _; stopped[L] = true; probe("stop"); }); break; }
            case CALL_INT: { int id = submit(L, true); expect_value(id, [&] { auto r = t.call([id, x](ThreadCall::Handle &hd) { begin(id); Guard g{id}; hd.set_result(x * 3 + id); }); int *p = (int *)r.get(); if (returned(id, "int", false) && (!p || *p != x * 3 + id)) bad(id, "a wrong int"); }); break; }
            case CALL_RESETRES: { int id = submit(L, true); expect_value(id, [&] { auto r = t.call([id, x](ThreadCall::Handle &hd) { begin(id); Guard g{id}; hd.set_result(Counted(x)); hd.set_result(x + 1); }); int *p = (int *)r.get(); if (returned(id, "int", false) && (!p || *p != x + 1)) bad(id, "a wrong int"); }); break; }
            case CALL_STR: { int id = submit(L, true); expect_value(id, [&] { std::string s(20 + x % 100, 'a' + x % 26); auto r = t.call([id, &s](ThreadCall::Handle &hd) { begin(id); Guard g{id}; hd.set_result(s); }); auto p = (std::string *)r.get(); if (returned(id, "string", false) && (!p || *p != s || p->data() == s.data())) bad(id, "a wrong string"); }); break; }
            case CALL_MOVE: { int id = submit(L, true); expect_value(id, [&] { auto r = t.call([id, x](ThreadCall::Handle &hd) { begin(id); Guard g{id}; MoveOnly m(x); hd.set_result(std::move(m)); }); auto p = (MoveOnly *)r.get(); if (returned(id, "object", false) && (!p || p->v != x || !p->c || !p->c->ok(x))) bad(id, "a wrong object"); ThreadCall::Result r2(std::move(r)); if (r2.get() != p) bad(id, "a result that does not survive a move"); }); break; }
            case CALL_KEEP: { int id = submit(L, true); expect_value(id, [&] { auto r = t.call([id](ThreadCall::Handle &hd) { begin(id); Guard g{id}; hd.set_result(Counted(id)); }); auto p = (Counted *)r.get(); if (returned(id, "object", false) && (!p || !p->ok(id))) bad(id, "a wrong object"); if (kept.size() && x % 2) { kept.back().second = std::move(r); kept.back().first = id; } else kept.emplace_back(id, std::move(r)); }); break; }
            case CALL_NONE: { int id = submit(L, true); expect_value(id, [&] { auto r = t.call([id](ThreadCall::Handle &) { begin(id); Guard g{id}; }); if (r.get() != nullptr) bad(id, "something although no result was set"); returned(id, "nothing", false); }); break; }
            case CROSS: { if (nloop < 2) break; int id = submit(0, true); expect_value(id, [&] { auto r = tcs[0]->call([id, x](ThreadCall::Handle &hd) { begin(id); Guard g{id}; int j = submit(1, true); int got = -1; expect_value(j, [&] { auto q = tcs[1]->call([j, x](ThreadCall::Handle &hd2) { begin(j); Guard g{j}; hd2.set_result(x + j); }); got = *(int *)q.get(); if (returned(j, "int", false) && got != x + j) bad(j, "a wrong int"); }); hd.set_result(got == x + j || got == -1); }); bool *p = (bool *)r.get(); if (returned(id, "bool", false) && (!p || !*p)) bad(id, "a wrong nested result"); }); break; }
            case CALL_THROW_S: case CALL_THROW_R: case CALL_THROW_A: {
                int id = submit(L, true); int k = o.kind; bool withres = x % 2;
                try {
                    auto r = t.call([id, k, withres](ThreadCall::Handle &hd) { begin(id); Guard g{id}; if (withres) hd.set_result(Counted(id)); if (k == CALL_THROW_S) throw SalticidaeError(salticidae::SALTI_ERROR_CONN_NOT_READY); if (k == CALL_THROW_R) throw std::runtime_error("runtime error number " + std::to_string(id)); throw AppErr(id); });
                    if (x % 3 == 0) { ThreadCall::Result r2(std::move(r)); r = std::move(r2); }
                    r.get(); bad(id, "normally although the callee threw");
                }
                catch (SalticidaeError &e) { if (e.get_code() == salticidae::SALTI_ERROR_NOT_AVAIL) returned(id, "refused", true); else { returned(id, "exception", false); if (k != CALL_THROW_S || e.get_code() != salticidae::SALTI_ERROR_CONN_NOT_READY) bad(id, "another exception than thrown"); } }
                catch (std::runtime_error &e) { returned(id, "exception", false); if (k != CALL_THROW_R || std::string(e.what()) != "runtime error number " + std::to_string(id)) bad(id, "another exception than thrown"); }
                catch (AppErr &e) { returned(id, "exception", false); if (k != CALL_THROW_A || e.id != id || !e.c.ok(id)) bad(id, "another exception than thrown"); }
                break; }
        }
        for (auto &k : kept) if (!((Counted *)k.second.get())->ok(k.first)) bad(k.first, "an object that was destroyed while its result is kept");
    }
    kept.clear(); kept.shrink_to_fit();
    Quiet _; done++;
}
static void gen(Plan &p, Rng &r) {
    nloop = r.range(1, 2); nthr = r.range(1, 4); burst[0] = r.chance(0.3) ? 128 : r.range(1, 4); burst[1] = r.chance(0.3) ? 128 : r.range(1, 4); leftover = r.chance(0.3);
    int per = r.range(2, r.chance(0.3) ? 40 : 14); u64 mask = r.next() | 1; bool st = r.chance(0.25); int nstop = 0;
    for (int i = 0; i < per * nthr; i++) {
        int k = r.below(NKIND); if (!(mask >> k & 1) && r.chance(0.8)) k = r.chance(0.5) ? ASYNC : CALL_INT;
        if (k == STOP && (!st || i < per * nthr / 3 || nstop++)) k = ASYNC;
        p.ops.push_back(Op{k, 0, (int)r.below(nthr), {r.below(2), r.below(1000), r.logrange(500, 2000000), 0, 0, 0}});
    }
    cfg.p_slice = r.chance(0.1) ? 0.2 : 0.5 + 0.5 * r.real(); cfg.slice_max = r.logrange(5, 800);
    if (r.chance(0.5)) { cfg.p_stall = 0.01 + 0.1 * r.real(); cfg.stall_max_ns = r.logrange(5000, 5000000); }
}
static std::string opname(const Op &o) { char b[120]; snprintf(b, sizeof b, "thread %d loop %d %s %d %llu", o.node, (int)o.a[0], names[o.kind], (int)o.a[1], (unsigned long long)o.a[2]); return b; }
static void run(Plan &pl) {
    endless_means("C15");
    { Quiet _; subs = new std::vector<Sub>(); subs->reserve(4096); nextseq = new std::map<std::pair<int, int>, int>(); lastrun = new std::map<std::pair<int, int>, int>(); }
    u64 live0 = mem_user().live_blocks;
    for (int i = 0; i < nloop; i++) {
        ecs[i] = new EventContext(); tcs[i] = burst[i] == 128 ? new ThreadCall(*ecs[i]) : new ThreadCall(*ecs[i], burst[i]);
        spawn(0, ("loop" + std::to_string(i)).c_str(), [i] {
            { Quiet _; loopfiber[i] = cur_fiber(); loops_up++; }
            { TimerEvent t(*ecs[i], nullptr); t.set_callback([i, &t](TimerEvent &) { if (stopreq) ecs[i]->stop(); else t.add(0.5); }); t.add(0.5);
            ecs[i]->dispatch(); }
            Quiet _; loops_done++;
        });
    }
    while (loops_up < nloop) sleep_ns(1000);
    for (int i = 0; i < nthr; i++) spawn(0, ("caller" + std::to_string(i)).c_str(), [&pl, i] { worker(pl, i); });
    wait_until(now() + 100 * SEC, 50 * US, [] { return done == nthr; });
    if (done != nthr) { Quiet _; int n = 0; for (auto &s : *subs) n += s.blocking && !s.returned; violation("C15", "%d blocking calls never returned", n); return; }
    auto pending = [] { int n = 0; for (auto &s : *subs) n += !s.fin && !stopped[s.loop] && !s.returned; return n; };
    wait_until(now() + 300 * MS, 1 * MS, [&] { Quiet _; return pending() == 0; }); // before the loops' own timers wake them up
    { Quiet _; if (int n = pending()) violation("C15", "%d submitted calls never ran", n); for (auto &s : *subs) if (s.blocking && !s.returned) violation("C15", "a blocking call never returned"); set_state_hash(h); }
    stopreq = true; wait_until(now() + 100 * SEC, 1 * MS, [] { return loops_done == nloop; });
    if (leftover) { Counted c(7); for (int i = 0; i < nloop; i++) for (int k = 0; k < 3; k++) tcs[i]->async_call([c](ThreadCall::Handle &) { Quiet _; violation("C15", "call ran although its loop had ended"); }); }
    for (int i = 0; i < nloop; i++) { delete tcs[i]; delete ecs[i]; }
    Quiet _;
    if (nlive) violation("C15", "%d captured or returned objects were %s", nlive, nlive > 0 ? "never destroyed" : "destroyed more than once");
    if (open_fds(-1)) violation("C15", "%d descriptors left open: %s", open_fds(-1), describe_fds().c_str());
    u64 l = mem_user().live_blocks; if (l != live0) violation("C15", "%lld blocks were never freed", (long long)(l - live0));
}
static RegScenario reg(Scenario{"tcall", gen, run, opname});
}

// ================================================================ C21
namespace tme {
enum { NEW, ADD, DEL, CLEAR, DESTROY, MOVE, SWAP, SETCB, WR, DRAIN, SLEEP, MOVECTOR, NKIND };
static const char *names[] = {"new", "add", "del", "clear", "destroy", "move-assign", "swap", "set-callback", "write", "drain", "busy", "move-construct"};
static const char *kinds[] = {"timer", "fd", "timed-fd"};
static int nslot, nfd; static double p_drain; static bool late_destroy; static int cbmax;
struct Ev { int kind, fd; int gen = 0; bool alive = true, t = false, f = false; u64 early = 0, lateby = 0; u64 tmo = 0; int mask = 0, nlate = 0, nready = 0, ncb = 0; void *obj = nullptr; };
struct Fd { int r = -1, w = -1; bool ev = false; long wr = 0, rd = 0; u64 drained_it = ~0ULL; int owner = -1; };
static std::vector<Ev> *evs; static std::vector<Fd> *fds; static u64 it = 0; static EventContext *ec; static ThreadCall *tcx; static uv_loop_t *loop; static int loopfiber = -1, loop_done = 0, ops_done = 0; static u64 h = 0;
static std::vector<Op> *cbprog; static size_t cbpos = 0; static bool over = false;
template<typename T> struct Slots { std::vector<std::unique_ptr<T>> o; std::vector<int> ev; };
static Slots<TimerEvent> *S0; static Slots<FdEvent> *S1; static Slots<TimedFdEvent> *S2;
static u64 real_ms() { return now() / MS; }
static void arm(Ev &e, u64 ms) { e.t = true; e.early = uv_now(loop) + ms; e.lateby = std::max(e.early, real_ms() + ms) + 2; e.nlate = 0; }
static void exec(const Op &o, int self);
static void incb(int e, int n) { for (int k = 0; k < n && cbpos < cbprog->size(); k++) exec((*cbprog)[cbpos++], e); }
static bool common(int id, int gen, const char *what) {
    auto &e = (*evs)[id]; note(650, id, uv_now(loop)); h = h * 1099511628211ULL + id * 7 + gen; e.ncb++;
    if (over) violation("C21", "callback of event %d after everything was destroyed", id);
    if (cur_fiber() != loopfiber) violation("C21", "callback of event %d on thread %d", id, cur_fiber());
    if (!e.alive) violation("C21", "%s callback of event %d which was cleared or destroyed", what, id);
    if (gen != e.gen) violation("C21", "replaced callback of event %d was called", id);
    return true;
}
static void on_timer(int id, int gen, TimerEvent *ref) {
    { Quiet _; common(id, gen, "timer"); auto &e = (*evs)[id];
      if (!e.t) violation("C21", "timer %d fired although it is not armed", id);
      if (uv_now(loop) < e.early) violation("C21", "timer %d fired %llu ms early", id, (unsigned long long)(e.early - uv_now(loop)));
      if ((void *)ref != e.obj) violation("C21", "timer %d passes another event to its callback", id);
      e.t = false; probe("timer_fired"); }
    incb(id, 1 + (int)decide(K_APP, 0, [](Rng &r) { return r.below(cbmax); }));
}
static void drain(int k) { auto &f = (*fds)[k]; if (f.wr <= f.rd) return; if (f.ev) { u64 v; ssize_t n = read(f.r, &v, 8); Quiet _; if (n == 8) f.rd = f.rd + v; } else { char b[64]; long want; { Quiet _; want = f.wr - f.rd; } while (want > 0) { ssize_t n = read(f.r, b, sizeof b); if (n <= 0) break; Quiet _; f.rd += n; want -= n; } } Quiet _; f.drained_it = it; }
static void on_fd(int id, int gen, int fd, int evm) {
    int k; bool dr = false, del = false;
    { Quiet _; common(id, gen, kinds[(*evs)[id].kind]); auto &e = (*evs)[id]; k = e.fd; auto &f = (*fds)[k];
      if (fd != f.r) violation("C21", "event %d reports descriptor %d instead of %d", id, fd, f.r);
      if (evm & TimedFdEvent::TIMEOUT) {
          if (e.kind != 2 || evm != TimedFdEvent::TIMEOUT) violation("C21", "event %d reports a timeout together with readiness", id);
          if (!e.t) violation("C21", "event %d timed out although it is not waiting", id);
          else if (uv_now(loop) < e.early) violation("C21", "event %d timed out %llu ms early", id, (unsigned long long)(e.early - uv_now(loop)));
          bool rdy = ((e.mask & FdEvent::READ) && f.wr > f.rd) || (e.mask & FdEvent::WRITE);
          if (rdy && e.nready >= 1 && f.drained_it != it) violation("C21", "event %d timed out although its descriptor has been ready", id);
          e.t = e.f = false; probe("fd_timeout");
      } else {
          if (!e.f) violation("C21", "event %d reports readiness although it is not waiting", id);
          if ((evm & FdEvent::ERROR) || !evm || (evm & ~e.mask)) violation("C21", "event %d reports events %x, asked for %x", id, evm, e.mask);
          if ((evm & FdEvent::READ) && f.wr <= f.rd && f.drained_it != it) violation("C21", "event %d reports its descriptor readable, but nothing was written", id);
          e.nready = 0; if (e.kind == 2) { arm(e, e.tmo); } probe("fd_ready");
          dr = e.ncb % 4 == 3 || coin(K_APP, p_drain); del = (e.mask & FdEvent::WRITE) && e.ncb % 3 == 2;
      } }
    if (dr) drain(k);
    if (del) { Op o{DEL, 0, 0, {0, 0, 0, 0, 0, 1}}; exec(o, id); }
    incb(id, (int)decide(K_APP, 0, [](Rng &r) { return r.below(cbmax + 1); }));
}
static void c_cb(timerev_t *t, void *u) { long v = (long)u; on_timer(v >> 16, v & 0xffff, t); }
static void mkcb(TimerEvent *o, int id, int gen) { if (gen % 2) { timerev_set_callback(o, c_cb, (void *)(long)(id << 16 | gen)); return; } o->set_callback([id, gen](TimerEvent &t) { on_timer(id, gen, &t); }); }
static void mkcb(FdEvent *o, int id, int gen) { o->set_callback([id, gen](int fd, int e) { on_fd(id, gen, fd, e); }); }
static void mkcb(TimedFdEvent *o, int id, int gen) { o->set_callback([id, gen](int fd, int e) { on_fd(id, gen, fd, e); }); }
static TimerEvent mkobj(TimerEvent *, int id, int) { return TimerEvent(*ec, [id](TimerEvent &t) { on_timer(id, 0, &t); }); }
static TimerEvent *mknew(TimerEvent *, int id, int c) { return c ? timerev_new(ec, c_cb, (void *)(long)(id << 16)) : nullptr; }
template<typename T> static T *mknew(T *, int, int) { return nullptr; }
static FdEvent mkobj(FdEvent *, int id, int k) { return FdEvent(*ec, (*fds)[k].r, [id](int fd, int e) { on_fd(id, 0, fd, e); }); }
static TimedFdEvent mkobj(TimedFdEvent *, int id, int k) { return TimedFdEvent(*ec, (*fds)[k].r, [id](int fd, int e) { on_fd(id, 0, fd, e); }); }
static void doadd(TimerEvent &o, double s, int) { if (run_seed & 8) timerev_add(&o, s); else o.add(s); }
static void doadd(FdEvent &o, double, int m) { o.add(m); }
static void doadd(TimedFdEvent &o, double s, int m) { o.add(m, s); }
static void kill(int id) { if (id < 0) return; Quiet _; auto &e = (*evs)[id]; e.alive = e.t = e.f = false; e.obj = nullptr; if (e.kind && (*fds)[e.fd].owner == id) (*fds)[e.fd].owner = -1; }
static void *base_of(TimerEvent *t) { return t; } static void *base_of(FdEvent *t) { return t; } static void *base_of(TimedFdEvent *t) { return t; }
template<typename T> static void place(Slots<T> &s, int i) { if (s.ev[i] >= 0) { Quiet _; (*evs)[s.ev[i]].obj = base_of(s.o[i].get()); } }
template<typename T> static void release_fd(Slots<T> &s, int id) { for (size_t i = 0; i < s.ev.size(); i++) if (s.ev[i] == id) { s.ev[i] = -1; kill(id); s.o[i]->clear(); return; } }
template<typename T> static void ex(Slots<T> &s, int kind, const Op &o, int self) {
    int a = o.a[0] % nslot, b = o.a[1] % nslot; u64 ms = o.a[2];
    if (o.a[5] && self >= 0 && (*evs)[self].kind == kind) { for (int i = 0; i < nslot; i++) if (s.ev[i] == self) a = i; }
    int id = s.ev[a];
    switch (o.kind) {
        case NEW: {
            int k = o.a[3] % nfd;
            if (kind) { int w = (*fds)[k].owner; if (w >= 0) { if ((*evs)[w].kind == 1) release_fd(*S1, w); else release_fd(*S2, w); } id = s.ev[a]; }
            int n; { Quiet _; n = evs->size(); Ev e; e.kind = kind; e.fd = k; evs->push_back(e); if (kind) (*fds)[k].owner = n; }
            kill(id); if (kind) { Quiet _; (*fds)[k].owner = n; } s.ev[a] = -1;
            if (!s.o[a] || o.a[4] % 2) { T *p = mknew((T *)nullptr, n, o.a[4] & 4); if (!p) p = new T(mkobj((T *)nullptr, n, k)); s.o[a].reset(p); } else *s.o[a] = mkobj((T *)nullptr, n, k);
            s.ev[a] = n; place(s, a); break; }
        case ADD: { if (id < 0) break; auto &e = (*evs)[id]; int m = (*fds)[e.fd].ev ? 1 + o.a[4] % 3 : (int)FdEvent::READ; if (kind == 1) ms = 0;
            { Quiet _; e.nready = 0; if (kind) { e.f = true; e.mask = m; e.tmo = ms; } if (kind != 1) arm(e, ms); }
            doadd(*s.o[a], ms / 1000.0 + (o.a[4] & 4 ? 0.0004 : 0.0001), m); break; }
        case DEL: if (!s.o[a]) break; if (id >= 0) { Quiet _; (*evs)[id].t = (*evs)[id].f = false; } s.o[a]->del(); break;
        case CLEAR: if (!s.o[a]) break; kill(id); s.ev[a] = -1; s.o[a]->clear(); break;
        case DESTROY: kill(id); s.ev[a] = -1; s.o[a].reset(); break;
        case MOVE: if (!s.o[a] || !s.o[b]) break; if (a != b) { kill(s.ev[b]); s.ev[b] = id; s.ev[a] = -1; place(s, b); } *s.o[b] = std::move(*s.o[a]); break;
        case MOVECTOR: { if (!s.o[a]) break; s.ev[a] = -1; T *p = new T(std::move(*s.o[a])); kill(a == b ? -1 : s.ev[b]); s.o[b].reset(p); s.ev[b] = id; place(s, b); break; }
        case SWAP: if (!s.o[a] || !s.o[b]) break; std::swap(s.ev[a], s.ev[b]); place(s, a); place(s, b); s.o[a]->swap(*s.o[b]); break;
        case SETCB: if (id < 0) break; { int g; { Quiet _; g = ++(*evs)[id].gen; } mkcb(s.o[a].get(), id, g); } break;
    }
}
static void exec(const Op &o, int self) {
    tracef("exec %s self %d", names[o.kind], self);
    if (o.kind == WR) { auto &f = (*fds)[o.a[3] % nfd]; u64 v = 1 + o.a[4] % 5; char b[8] = {0}; { Quiet _; } if (f.ev) { write(f.w, &v, 8); Quiet _; f.wr += v; } else { ssize_t n = write(f.w, b, v); Quiet _; if (n > 0) f.wr += n; } return; }
    if (o.kind == DRAIN) { drain(o.a[3] % nfd); return; }
    if (o.kind == SLEEP) { sleep_ns(o.a[2] * MS / 4); return; }
    int kind = o.node % 3; if (o.a[5] && self >= 0) kind = (*evs)[self].kind;
    if (kind == 0) ex(*S0, 0, o, self); else if (kind == 1) ex(*S1, 1, o, self); else ex(*S2, 2, o, self);
}
static void prep(uv_prepare_t *) {
    Quiet _; it++; u64 n = uv_now(loop);
    for (size_t i = 0; i < evs->size(); i++) { auto &e = (*evs)[i]; if (!e.alive) continue;
        if (e.t && e.lateby <= n) { if (e.nlate++ >= 2) violation("C21", "event %zu did not fire although it has been due for %llu ms", i, (unsigned long long)(n - e.early)); }
        if (e.f) { auto &f = (*fds)[e.fd]; bool rdy = ((e.mask & FdEvent::READ) && f.wr > f.rd) || (e.mask & FdEvent::WRITE); if (rdy) { if (e.nready++ >= 2) violation("C21", "readiness of the descriptor of event %zu is not reported", i); } else e.nready = 0; }
    }
}
static void gen(Plan &p, Rng &r) {
    nslot = r.range(1, 4); nfd = r.range(1, 3); p_drain = r.real(); late_destroy = r.chance(0.4); cbmax = r.range(1, 3);
    int n = r.range(5, r.chance(0.3) ? 80 : 30), nc = r.range(0, 2 * n); u64 mask = r.next() | 3; double selfp = r.real(); u64 span = r.logrange(5, 400), dmax = r.logrange(1, 120); int kfix = r.chance(0.5) ? r.below(3) : -1;
    for (int i = 0; i < n + nc; i++) {
        bool cb = i >= n; int k = r.below(NKIND); if (k >= 2 && !(mask >> k & 1) && r.chance(0.8)) k = r.chance(0.5) ? ADD : NEW;
        if (r.chance(0.3)) k = ADD; if (!cb && i < nslot) k = NEW; if (k == SLEEP && r.chance(0.7)) k = WR;
        p.ops.push_back(Op{k, r.below(span * MS), kfix >= 0 && r.chance(0.8) ? kfix : (int)r.below(3), {k == NEW && i < nslot ? (u64)i : r.below(nslot), r.below(nslot), r.chance(0.15) ? 0 : r.below(dmax), r.below(nfd), r.below(8), (u64)(cb && r.chance(selfp)) | (cb ? 2 : 0)}});
    }
    cfg.ep_all = true; cfg.p_slice = r.real(); if (r.chance(0.5)) { cfg.p_stall = 0.01 + 0.1 * r.real(); cfg.stall_max_ns = r.logrange(100000, 30000000); }
}
static std::string opname(const Op &o) { char b[140]; snprintf(b, sizeof b, "%s%s %s slot %d,%d delay %d fd %d arg %d%s", o.a[5] & 2 ? "in callback: " : "", kinds[o.node % 3], names[o.kind], (int)o.a[0], (int)o.a[1], (int)o.a[2], (int)o.a[3], (int)o.a[4], o.a[5] & 1 ? " (itself)" : ""); return b; }
static void run(Plan &pl) {
    endless_means("C21");
    { Quiet _; evs = new std::vector<Ev>(); evs->reserve(1024); fds = new std::vector<Fd>(nfd); cbprog = new std::vector<Op>(); }
    std::vector<Op> *main_ops; { Quiet _; main_ops = new std::vector<Op>(); for (size_t i = 0; i < pl.ops.size(); i++) { if (!pl.enabled[i]) continue; Op o = pl.ops[i]; bool cb = o.a[5] & 2; o.a[5] &= 1; (cb ? cbprog : main_ops)->push_back(o); }
      std::stable_sort(main_ops->begin(), main_ops->end(), [](const Op &a, const Op &b) { return a.t < b.t; }); }
    u64 live0 = mem_user().live_blocks;
    S0 = new Slots<TimerEvent>(); S1 = new Slots<FdEvent>(); S2 = new Slots<TimedFdEvent>();
    S0->o.resize(nslot); S1->o.resize(nslot); S2->o.resize(nslot); S0->ev.assign(nslot, -1); S1->ev.assign(nslot, -1); S2->ev.assign(nslot, -1);
    for (int i = 0; i < nfd; i++) { auto &f = (*fds)[i]; f.ev = (run_seed >> i) & 1; if (f.ev) f.r = f.w = ::eventfd(0, EFD_NONBLOCK); else { int p[2]; if (pipe2(p, O_NONBLOCK)) { inconclusive("pipe"); } f.r = p[0]; f.w = p[1]; } }
    ec = new EventContext(); loop = ec->get(); tcx = new ThreadCall(*ec);
    auto pr = new uv_prepare_t(); uv_prepare_init(loop, pr); uv_prepare_start(pr, prep);
    spawn(0, "loop", [] { { Quiet _; loopfiber = cur_fiber(); } ec->dispatch(); Quiet _; loop_done = 1; });
    u64 t0 = now();
    for (size_t i = 0; i < main_ops->size(); i++) {
        const Op &o = (*main_ops)[i]; if (now() < t0 + o.t) sleep_ns(t0 + o.t - now());
        if (o.kind == WR && o.a[5] % 2 == 0 && o.node != 1) exec(o, -1); // from another thread
        else { const Op *q = &o; tcx->async_call([q](ThreadCall::Handle &) { exec(*q, -1); Quiet _; ops_done++; }); continue; }
        Quiet _; ops_done++;
    }
    wait_until(now() + 20 * SEC, 1 * MS, [&] { return ops_done == (int)main_ops->size(); });
    // no further activity: what is armed has to fire by itself
    for (int round = 0; round < 400; round++) {
        u64 mx = 0; bool any = false; { Quiet _; for (auto &e : *evs) if (e.alive && e.t) { any = true; mx = std::max(mx, e.lateby); } }
        if (!any) break; sleep_ns(200 * MS);
        Quiet _; for (size_t i = 0; i < evs->size(); i++) { auto &e = (*evs)[i]; if (e.alive && e.t && e.lateby + 150 < real_ms()) violation("C21", "event %zu has been due for %llu ms and did not fire", i, (unsigned long long)(real_ms() - e.early)); }
    }
    if (ops_done != (int)main_ops->size()) { Quiet _; violation("C21", "the loop does not run its calls"); return; }
    bool ld = late_destroy;
    auto destroy = [] { for (int i = 0; i < nslot; i++) { kill(S0->ev[i]); S0->ev[i] = -1; S0->o[i].reset(); kill(S2->ev[i]); S2->ev[i] = -1; S2->o[i].reset(); kill(S1->ev[i]); S1->ev[i] = -1; S1->o[i].reset(); } Quiet _; over = true; };
    int fin = 0; tcx->async_call([&fin, ld, destroy](ThreadCall::Handle &) { if (!ld) destroy(); Quiet _; fin = 1; });
    wait_until(now() + 20 * SEC, 1 * MS, [&] { return fin; }); sleep_ns(50 * MS);
    tcx->async_call([](ThreadCall::Handle &) { ec->stop(); });
    wait_until(now() + 20 * SEC, 1 * MS, [] { return loop_done; });
    { Quiet _; if (!loop_done) violation("C21", "the loop cannot be stopped"); loopfiber = cur_fiber(); }
    delete tcx; if (ld) { delete ec; ec = nullptr; { Quiet _; for (auto &e : *evs) e.alive = false; } destroy(); } 
    delete S0; delete S1; delete S2; if (ec) delete ec;
    for (auto &f : *fds) { close(f.r); if (f.w != f.r) close(f.w); }
    Quiet _; set_state_hash(h);
    if (open_fds(-1)) violation("C21", "%d descriptors left open: %s", open_fds(-1), describe_fds().c_str());
    u64 l = mem_user().live_blocks; if (l != live0) violation("C21", "%lld blocks were never freed", (long long)(l - live0));
}
static RegScenario reg(Scenario{"timer", gen, run, opname});
}
