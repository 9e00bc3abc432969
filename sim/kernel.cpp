// Simulated kernel: descriptors, TCP, epoll, eventfd, pipes.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#undef _FORTIFY_SOURCE
#include "core.h"
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <dlfcn.h>
#include <cerrno>
#include <cstring>
#include <csignal>
#include <map>
#include <set>
#include <deque>
#include <algorithm>

namespace sim {
enum FType { T_SOCK, T_EPOLL, T_EVENTFD, T_PIPE_R, T_PIPE_W };
struct Ep;
struct File {
    FType type; int fd = -1; int node = 0; bool nonblock = false; bool closed = false;
    std::vector<Ep *> eps;
    virtual ~File() {}
    virtual u32 poll() = 0;
};
struct EpEnt { File *f; u32 events; epoll_data_t data; u64 seq; };
struct Ep : File {
    std::map<int, EpEnt> ents;
    u32 poll() override { return 0; }
};
static u64 epseq = 0;
struct EvFd : File { u64 cnt = 0; u32 poll() override { return (cnt ? EPOLLIN : 0) | EPOLLOUT; } };
struct PipeBuf { std::deque<char> q; int rd = 0, wr = 0; File *r, *w; };
struct PipeEnd : File { PipeBuf *b; u32 poll() override {
    if (type == T_PIPE_R) return (b->q.size() ? EPOLLIN : 0) | (b->wr ? 0 : EPOLLHUP);
    return EPOLLOUT | (b->rd ? 0 : EPOLLERR); } };

enum SState { SS_CLOSED, SS_LISTEN, SS_SYNSENT, SS_EST };
struct Sock;
struct Dir { // one direction of a connection
    Sock *from = nullptr, *to = nullptr;
    std::string q; size_t off = 0;   // bytes accepted from sender, not yet in receiver's queue
    bool scheduled = false, fin = false, fin_done = false; u64 last_t = 0;
    size_t size() const { return q.size() - off; }
};
struct Sock : File {
    SState st = SS_CLOSED;
    u32 lip = 0, rip = 0; uint16_t lport = 0, rport = 0; // network order ip, host order port
    bool bound = false;
    Sock *peer = nullptr;
    std::string rx; size_t rxoff = 0;
    bool rcv_shut = false, snd_shut = false; int err = 0;
    Dir out;                 // data we send
    int backlog = 0; std::deque<Sock *> acceptq; int synq = 0;
    size_t sndcap = 65536, rcvcap = 65536;
    u64 conn_id = 0; bool orphan = false; bool active_side = false; bool was_est = false;
    bool appclosed = false;  // no descriptor any more
    int syn_tries = 0;
    size_t rxsize() const { return rx.size() - rxoff; }
    u32 poll() override {
        u32 m = 0;
        if (st == SS_LISTEN) return acceptq.empty() ? 0 : EPOLLIN | EPOLLRDNORM;
        if ((rcv_shut && snd_shut) || st == SS_CLOSED) m |= EPOLLHUP;
        if (rcv_shut) m |= EPOLLIN | EPOLLRDNORM | EPOLLRDHUP;
        if (st != SS_SYNSENT) {
            if (rxsize()) m |= EPOLLIN | EPOLLRDNORM;
            if (snd_shut || st == SS_CLOSED) m |= EPOLLOUT | EPOLLWRNORM;
            else if (out.size() < sndcap) m |= EPOLLOUT | EPOLLWRNORM;
        }
        if (err) m |= EPOLLERR;
        return m;
    }
};
enum { FDMAX = 600, FDMIN = 3 };
static File *fdt[FDMAX];
static std::vector<Sock *> *all_socks;
static u64 next_conn_id = 1;
static u64 bad_ops = 0;
static std::set<std::pair<int,int>> *parts; static std::set<int> *silent;
static std::map<int, u32> *eph_next;
static std::map<u64, std::pair<int, int>> *cnodes;
static std::map<std::pair<u32,int>, u64> *tw; // (ip,port) -> time until which the port is in time-wait

u32 node_ip(int n) { return htonl(0x0a000001u + n); }
static int ip_node(u32 ip) { return (int)(ntohl(ip) - 0x0a000001u); }

void kernel_reset() {
    memset(fdt, 0, sizeof fdt);
    all_socks = new std::vector<Sock *>(); parts = new std::set<std::pair<int,int>>(); silent = new std::set<int>();
    eph_next = new std::map<int, u32>(); tw = new std::map<std::pair<u32,int>, u64>();
}
static int alloc_fd(File *f) {
    for (int i = FDMIN; i < FDMAX; i++) if (!fdt[i]) { fdt[i] = f; f->fd = i; return i; }
    errno = EMFILE; return -1;
}
static void bad_fd(const char *op, int fd) {
    bad_ops++;
    violation("C16", "%s on descriptor %d which is not open", op, fd);
    errno = EBADF;
}
static File *getf(const char *op, int fd) {
    if (fd >= 0 && fd < FDMAX && fdt[fd]) return fdt[fd];
    bad_fd(op, fd); return nullptr;
}
static Sock *gets(const char *op, int fd) {
    File *f = getf(op, fd);
    if (!f) return nullptr;
    if (f->type != T_SOCK) { violation("C16", "%s on descriptor %d which is not a socket", op, fd); errno = ENOTSOCK; return nullptr; }
    return static_cast<Sock *>(f);
}
static bool simfd(int fd) { return active && fd >= FDMIN && fd < FDMAX; }
static void notify(File *f) {
    wake(f);
    for (auto e : f->eps) wake(e);
}
bool net_blocked(int a, int b) {
    if (silent->count(a) || silent->count(b)) return true;
    return a != b && parts->count({std::min(a, b), std::max(a, b)});
}
static u64 latency() {
    u64 v = decide(K_LAT, cfg.lat_ns, [](Rng &r) -> u64 {
        u64 l = cfg.lat_ns + r.below(cfg.lat_jit_ns + 1);
        if (cfg.p_lat_long > 0 && faults_on && r.chance(cfg.p_lat_long)) l += r.below(cfg.lat_long_ns);
        return l; });
    if (v > cfg.lat_ns + cfg.lat_jit_ns) count(C_LATSPIKE);
    return v;
}
static void deliver(Sock *from);
static void pump(Sock *s) {
    Dir &d = s->out;
    if (d.scheduled || !d.to) return;
    if (!d.size() && !(d.fin && !d.fin_done)) return;
    if (d.size() && !d.to->appclosed && d.to->rxsize() >= d.to->rcvcap) { count(C_ZEROWIN); return; }
    if (net_blocked(s->node, d.to->node)) return;
    u64 l = latency();
    if (faults_on && cfg.p_loss > 0 && coin(K_F_LOSS, cfg.p_loss)) { l += cfg.rto_ns; count(C_LOSS); }
    u64 t = std::max(vnow + l, d.last_t + 1); d.last_t = t;
    d.scheduled = true;
    at(t, [s] { deliver(s); });
}
static void kill_sock(Sock *s, int err) { // RST received
    if (s->st == SS_CLOSED && !s->was_est) return;
    if (s->appclosed) { s->st = SS_CLOSED; return; }
    s->st = SS_CLOSED; s->err = err; s->rcv_shut = s->snd_shut = true;
    s->out.q.clear(); s->out.off = 0; s->out.to = nullptr;
    count(C_RST);
    tracef("rst -> fd %d (conn %llu)", s->fd, (unsigned long long)s->conn_id);
    notify(s);
}
static void send_rst(Sock *s) { // from s to its peer
    Sock *p = s->peer;
    if (!p) return;
    s->out.q.clear(); s->out.off = 0; s->out.to = nullptr; s->out.fin = false;
    if (net_blocked(s->node, p->node)) return; // lost
    u64 t = std::max(vnow + latency(), s->out.last_t + 1); s->out.last_t = t;
    at(t, [s, p] { if (!net_blocked(s->node, p->node) && p->st == SS_EST) kill_sock(p, p->rcv_shut ? EPIPE : ECONNRESET); });
}
static void deliver(Sock *s) {
    Dir &d = s->out; d.scheduled = false;
    Sock *to = d.to;
    if (!to) return;
    if (net_blocked(s->node, to->node)) return; // re-pumped on heal
    if (to->st != SS_EST) { // nobody there any more
        if (d.size()) { d.q.clear(); d.off = 0; Sock *me = s; u64 t = vnow + latency();
            at(t, [me, to] { if (!net_blocked(me->node, to->node) && me->st == SS_EST) kill_sock(me, ECONNRESET); }); }
        d.fin_done = d.fin; return;
    }
    if (d.size()) {
        if (to->appclosed) { // data for a closed socket: reset
            d.q.clear(); d.off = 0; u64 t = vnow + latency();
            at(t, [s, to] { if (!net_blocked(s->node, to->node) && s->st == SS_EST) { kill_sock(s, ECONNRESET); } });
            to->st = SS_CLOSED;
            return;
        }
        size_t win = to->rcvcap > to->rxsize() ? to->rcvcap - to->rxsize() : 0;
        size_t n = std::min(d.size(), win);
        if (n > 1 && cfg.p_seg > 0) {
            u64 k = decide(K_SEG, 0, [&](Rng &r) -> u64 { return r.chance(cfg.p_seg) ? r.range(1, cfg.seg_max) : 0; });
            if (k && k < n) { n = k; count(C_SMALLSEG); }
        }
        if (n) {
            to->rx.append(d.q, d.off, n); d.off += n;
            if (d.off == d.q.size()) { d.q.clear(); d.off = 0; }
            else if (d.off > 65536) { d.q.erase(0, d.off); d.off = 0; }
            note(77, n, to->conn_id);
            notify(to);
            if (!s->appclosed) notify(s);
        }
    }
    if (!d.size() && d.fin && !d.fin_done) {
        d.fin_done = true; to->rcv_shut = true; tracef("fin -> fd %d", to->fd);
        notify(to);
    }
    pump(s);
}
static Sock *find_listener(u32 ip, uint16_t port) {
    for (auto s : *all_socks) if (!s->appclosed && s->st == SS_LISTEN && s->lip == ip && s->lport == port) return s;
    return nullptr;
}
static void fail_connect(Sock *c, int e) {
    if (c->appclosed || c->st != SS_SYNSENT) return;
    c->st = SS_CLOSED; c->err = e; c->rcv_shut = c->snd_shut = true; notify(c);
}
static void syn_arrive(Sock *c);
static void syn_retry(Sock *c) {
    u64 d = 1000000000ULL << std::min(c->syn_tries, 6);
    if (++c->syn_tries > 7) { at(vnow + d, [c] { fail_connect(c, ETIMEDOUT); }); return; }
    at(vnow + d, [c] { if (!c->appclosed && c->st == SS_SYNSENT) syn_arrive(c); });
}
static void syn_arrive(Sock *c) {
    int dn = ip_node(c->rip);
    if (net_blocked(c->node, dn)) { count(C_SYNDROP); syn_retry(c); return; }
    if (faults_on && cfg.p_f_syndrop > 0 && coin(K_F_SYNDROP, cfg.p_f_syndrop)) { count(C_SYNDROP); syn_retry(c); return; }
    Sock *l = find_listener(c->rip, c->rport);
    if (!l) {
        count(C_REFUSED);
        at(vnow + latency(), [c] { fail_connect(c, ECONNREFUSED); });
        return;
    }
    if ((int)l->acceptq.size() + l->synq > l->backlog) { count(C_SYNDROP); syn_retry(c); return; }
    // a previous connection with the same 4-tuple still open here is reset first
    for (auto s : *all_socks)
        if (s->st == SS_EST && !s->appclosed && s->lip == c->rip && s->lport == c->rport && s->rip == c->lip && s->rport == c->lport) {
            count(C_PORTREUSE); kill_sock(s, ECONNRESET);
        }
    Sock *h = new Sock(); h->type = T_SOCK; h->node = dn; h->appclosed = true; // not yet accepted
    h->st = SS_EST; h->was_est = true; h->orphan = true;
    h->lip = c->rip; h->lport = c->rport; h->rip = c->lip; h->rport = c->lport;
    h->sndcap = cfg.sndbuf; h->rcvcap = cfg.rcvbuf;
    h->conn_id = c->conn_id = next_conn_id++; if (!cnodes) cnodes = new std::map<u64, std::pair<int, int>>(); (*cnodes)[h->conn_id] = {c->node, h->node};
    l->synq++;
    u64 t1 = vnow + latency(), t2 = t1 + latency();
    at(t1, [c, h, l, t1, t2] {
        l->synq--;
        if (c->appclosed || c->st != SS_SYNSENT) return; // client gone: embryonic connection vanishes
        if (net_blocked(c->node, h->node)) { syn_retry(c); return; }
        c->st = SS_EST; c->was_est = true; c->peer = h; h->peer = c;
        c->out.from = c; c->out.to = h; h->out.from = h; h->out.to = c;
        c->out.last_t = t2; h->out.last_t = t1;
        all_socks->push_back(h);
        h->appclosed = false;
        at(t2, [h, l] {
            if (l->appclosed || l->st != SS_LISTEN) { h->appclosed = true; send_rst(h); h->st = SS_CLOSED; return; }
            if (h->st != SS_EST) { h->appclosed = true; return; } // reset before the handshake was complete: never seen by accept()
            l->acceptq.push_back(h); notify(l);
        });
        tracef("connected fd %d conn %llu", c->fd, (unsigned long long)c->conn_id);
        notify(c);
    });
}
static void close_sock(Sock *s) {
    bool data = s->rxsize() > 0;
    if (s->st == SS_LISTEN) {
        for (auto h : s->acceptq) { h->appclosed = true; send_rst(h); h->st = SS_CLOSED; }
        s->acceptq.clear(); s->st = SS_CLOSED;
    } else if (s->st == SS_EST) {
        if (data) { send_rst(s); s->st = SS_CLOSED; }
        else {
            if (s->active_side && !s->rcv_shut) (*tw)[{s->lip, s->lport}] = vnow + 60000000000ULL; // we close first: time-wait
            if (s->out.to) { s->out.fin = true; pump(s); }
        }
    } else s->st = SS_CLOSED;
    s->appclosed = true;
}
static void do_close_file(File *f) {
    f->closed = true;
    auto eps = f->eps; f->eps.clear();
    for (auto e : eps) e->ents.erase(f->fd);
    if (f->type == T_EPOLL) {
        auto ep = static_cast<Ep *>(f);
        for (auto &kv : ep->ents) { auto &v = kv.second.f->eps; v.erase(std::remove(v.begin(), v.end(), ep), v.end()); }
        ep->ents.clear();
    } else if (f->type == T_SOCK) close_sock(static_cast<Sock *>(f));
    else if (f->type == T_PIPE_R) { auto p = static_cast<PipeEnd *>(f); p->b->rd--; notify(p->b->w); }
    else if (f->type == T_PIPE_W) { auto p = static_cast<PipeEnd *>(f); p->b->wr--; notify(p->b->r); }
    notify(f);
}
void kernel_crash_node(int node, bool sil) {
    if (sil) silent->insert(node);
    for (int i = FDMIN; i < FDMAX; i++) {
        File *f = fdt[i];
        if (!f || f->node != node) continue;
        if (!sil && f->type == T_SOCK) {
            auto s = static_cast<Sock *>(f);
            if (s->st == SS_EST && decide(K_F_RESET, 0, [](Rng &r) -> u64 { return r.below(2); })) { send_rst(s); s->st = SS_CLOSED; }
        }
        do_close_file(f); fdt[i] = nullptr; f->fd = -1;
    }
}
void partition(int a, int b, bool on) {
    InSim _;
    if (on) { parts->insert({std::min(a, b), std::max(a, b)}); count(C_PARTITION); }
    else { parts->erase({std::min(a, b), std::max(a, b)}); count(C_HEAL); }
    tracef("partition %d %d %d", a, b, on);
    if (!on) for (size_t i = 0; i < all_socks->size(); i++) pump((*all_socks)[i]);
}
void heal_all() {
    InSim _;
    parts->clear();
    for (size_t i = 0; i < all_socks->size(); i++) pump((*all_socks)[i]);
}
void node_silent(int n, bool on) { InSim _; if (on) silent->insert(n); else { silent->erase(n); for (size_t i = 0; i < all_socks->size(); i++) pump((*all_socks)[i]); } }
static std::vector<u64> *injected_resets;
bool conn_was_reset(u64 id) { InSim _; if (injected_resets) for (u64 x : *injected_resets) if (x == id) return true; return false; }
void reset_conns_between(int a, int b) {
    InSim _; if (!injected_resets) injected_resets = new std::vector<u64>();
    for (auto s : *all_socks)
        if (s->st == SS_EST && !s->appclosed && s->peer && ((s->node == a && s->peer->node == b))) {
            tracef("inject reset conn %llu", (unsigned long long)s->conn_id);
            Sock *p = s->peer; injected_resets->push_back(s->conn_id);
            kill_sock(s, ECONNRESET); if (p->st == SS_EST) kill_sock(p, ECONNRESET);
        }
}
int open_fds(int node) { int n = 0; for (int i = FDMIN; i < FDMAX; i++) if (fdt[i] && (node < 0 || fdt[i]->node == node)) n++; return n; }
std::string describe_fds() {
    InSim _; std::string r; static const char *tn[] = {"socket","epoll","eventfd","pipe","pipe"};
    for (int i = FDMIN; i < FDMAX; i++) if (fdt[i]) {
        r += std::to_string(i) + ":" + tn[fdt[i]->type] + "@n" + std::to_string(fdt[i]->node);
        if (fdt[i]->type == T_SOCK) { auto s = static_cast<Sock *>(fdt[i]); r += "/st" + std::to_string(s->st); }
        r += " ";
    }
    return r;
}
bool sock_info(int fd, SockInfo &o) {
    InSim _;
    if (fd < FDMIN || fd >= FDMAX || !fdt[fd] || fdt[fd]->type != T_SOCK) return false;
    auto s = static_cast<Sock *>(fdt[fd]);
    o.fd = fd; o.node = s->node; o.rip = s->rip; o.rport = s->rport; o.lport = s->lport;
    o.listening = s->st == SS_LISTEN; o.established = s->st == SS_EST; o.id = s->conn_id; o.peer_id = s->peer ? s->peer->conn_id : 0;
    return true;
}
u64 sock_conn_id(int fd) { SockInfo i; return sock_info(fd, i) ? i.id : 0; }
u64 fd_bad_ops() { return bad_ops; }
bool any_conn_between(int a, int b, u32, u32) {
    for (auto s : *all_socks) if (s->st == SS_EST && !s->appclosed && s->peer && !s->peer->appclosed && s->node == a && s->peer->node == b) return true;
    return false;
}
int tcp_from(int node, int port) {
    int n = 0; for (auto s : *all_socks) { if (s->node == node && s->lport == port && !s->appclosed) n++; if (s->rip == node_ip(node) && s->rport == port && !s->appclosed) n++; }
    return n;
}
static bool flt(Kind k, double p) { return faults_on && p > 0 && coin(k, p); }
static void sigpipe() {
    count(C_SIGPIPE);
    struct sigaction sa; bool ign = false;
    if (!sigaction(SIGPIPE, nullptr, &sa)) ign = sa.sa_handler == SIG_IGN;
    if (cur->sigpipe_blocked && !ign) cur->sigpipe_pending = true;
    if (!cur->sigpipe_blocked && !ign) fatal_report("CRASH", "process killed by SIGPIPE");
}

static void cap(Sock *s, const char *b, size_t n);
static ssize_t sock_send(Sock *s, const char *buf, size_t n, int flags) {
    for (;;) {
        if (s->st != SS_EST) {
            if (s->err) { int e = s->err; s->err = 0; errno = e; return -1; }
            if (s->st == SS_SYNSENT) {
                if (s->nonblock) { errno = EAGAIN; return -1; }
                block(s); continue;
            }
            errno = EPIPE; if (!(flags & MSG_NOSIGNAL)) sigpipe(); errno = EPIPE; return -1;
        }
        if (s->err) { int e = s->err; s->err = 0; errno = e; return -1; }
        if (s->snd_shut) { if (!(flags & MSG_NOSIGNAL)) sigpipe(); errno = EPIPE; return -1; }
        if (!n) return 0;
        size_t space = s->sndcap > s->out.size() ? s->sndcap - s->out.size() : 0;
        if (space && s->nonblock && flt(K_F_EAGAIN, cfg.p_f_eagain)) space = 0;
        if (!space) {
            if (s->nonblock) { count(C_EAGAINW); errno = EAGAIN; 
                // a spurious refusal must be followed by a writability event: level-triggered epoll reports it at once
                return -1; }
            block(s); continue;
        }
        size_t k = std::min(space, n);
        if (k > 1 && cfg.p_shortw > 0 && faults_on) {
            u64 v = decide(K_SHORTW, 0, [&](Rng &r) -> u64 { return r.chance(cfg.p_shortw) ? r.range(1, k) : 0; });
            if (v && v < k) { k = v; count(C_SHORTW); }
        }
        s->out.q.append(buf, k); cap(s, buf, k);
        pump(s);
        return k;
    }
}
static u64 rxbytes[64];
u64 node_rx_bytes(int node) { return rxbytes[node & 63]; }
static ssize_t sock_recv(Sock *s, char *buf, size_t n, int flags) {
    for (;;) {
        if (s->rxsize()) {
            size_t k = std::min(n, s->rxsize());
            if (k > 1 && cfg.p_shortr > 0 && faults_on && !(flags & MSG_PEEK)) {
                u64 v = decide(K_SHORTR, 0, [&](Rng &r) -> u64 { return r.chance(cfg.p_shortr) ? r.range(1, k) : 0; });
                if (v && v < k) { k = v; count(C_SHORTR); }
            }
            memcpy(buf, s->rx.data() + s->rxoff, k);
            if (flags & MSG_PEEK) return k;
            s->rxoff += k; rxbytes[s->node & 63] += k;
            if (s->rxoff == s->rx.size()) { s->rx.clear(); s->rxoff = 0; }
            else if (s->rxoff > 65536) { s->rx.erase(0, s->rxoff); s->rxoff = 0; }
            if (s->peer) pump(s->peer);
            return k;
        }
        if (s->err) { int e = s->err; s->err = 0; errno = e; return -1; }
        if (s->rcv_shut) return 0;
        if (s->st == SS_CLOSED || s->st == SS_LISTEN) { errno = ENOTCONN; return -1; }
        if (s->nonblock) { errno = EAGAIN; return -1; }
        block(s);
    }
}
static ssize_t do_read(int fd, char *buf, size_t n, const char *op) {
    InSim _; sys_enter(1, fd);
    File *f = getf(op, fd); if (!f) return -1;
    ssize_t r = -1;
    switch (f->type) {
        case T_SOCK: r = sock_recv(static_cast<Sock *>(f), buf, n, 0); break;
        case T_EVENTFD: {
            auto e = static_cast<EvFd *>(f);
            if (n < 8) { errno = EINVAL; break; }
            while (!e->cnt && !e->nonblock) block(e);
            if (!e->cnt) { errno = EAGAIN; break; }
            memcpy(buf, &e->cnt, 8); e->cnt = 0; r = 8; notify(e); break; }
        case T_PIPE_R: {
            auto p = static_cast<PipeEnd *>(f);
            while (p->b->q.empty() && p->b->wr && !p->nonblock) block(p);
            if (p->b->q.empty()) { if (!p->b->wr) r = 0; else errno = EAGAIN; break; }
            size_t k = std::min(n, p->b->q.size());
            for (size_t i = 0; i < k; i++) { buf[i] = p->b->q.front(); p->b->q.pop_front(); }
            r = k; break; }
        default: errno = EINVAL;
    }
    int e = errno; sys_exit(1, r < 0 ? e : r); errno = e;
    if (trace_on) tracef("read/recv fd %d -> %zd %s", fd, r, r < 0 ? strerror(e) : "");
    errno = e;
    return r;
}
static ssize_t do_write(int fd, const char *buf, size_t n, int flags, const char *op) {
    InSim _; sys_enter(2, fd);
    File *f = getf(op, fd); if (!f) return -1;
    ssize_t r = -1;
    switch (f->type) {
        case T_SOCK: r = sock_send(static_cast<Sock *>(f), buf, n, flags); break;
        case T_EVENTFD: {
            auto e = static_cast<EvFd *>(f); u64 v;
            if (n < 8) { errno = EINVAL; break; }
            memcpy(&v, buf, 8); e->cnt += v; r = 8; notify(e); break; }
        case T_PIPE_W: {
            auto p = static_cast<PipeEnd *>(f);
            if (!p->b->rd) { sigpipe(); errno = EPIPE; break; }
            p->b->q.insert(p->b->q.end(), buf, buf + n); r = n; notify(p->b->r); break; }
        default: errno = EINVAL;
    }
    int e = errno; sys_exit(2, r < 0 ? e : r); errno = e;
    if (trace_on) tracef("write/send fd %d n=%zu -> %zd %s", fd, n, r, r < 0 ? strerror(e) : "");
    errno = e;
    return r;
}
static int do_close(int fd) {
    InSim _; sys_enter(3, fd);
    File *f = getf("close", fd); if (!f) return -1;
    tracef("close fd %d", fd);
    do_close_file(f); fdt[fd] = nullptr; f->fd = -1;
    return 0;
}
static bool capture = false; static std::map<std::pair<u64, bool>, std::string> *streams; static std::vector<ConnectLog> *clog_;
void capture_streams(bool on) { InSim _; capture = on; if (!streams) streams = new std::map<std::pair<u64, bool>, std::string>(); }
std::string sent_stream(u64 id, bool a) { if (!streams) return std::string(); auto it = streams->find({id, a}); return it == streams->end() ? std::string() : it->second; }
const std::vector<ConnectLog> &connect_log() { InSim _; if (!clog_) clog_ = new std::vector<ConnectLog>(); return *clog_; }
bool conn_nodes(u64 id, int &a, int &p) { if (!cnodes) return false; auto it = cnodes->find(id); if (it == cnodes->end()) return false; a = it->second.first; p = it->second.second; return true; }
static void cap(Sock *s, const char *b, size_t n) { if (capture && s->conn_id) (*streams)[{s->conn_id, s->active_side}].append(b, n); }
static Sock *pick_port(Sock *s) {
    // ephemeral port selection: small ranges force reuse
    int base = 40000, n = cfg.eph_ports;
    u32 &c = (*eph_next)[s->node];
    for (int tries = 0; tries < n + 1; tries++) {
        int port = base + (c++ % n);
        bool used = false;
        for (auto o : *all_socks) if (o != s && !o->appclosed && o->bound && o->lip == s->lip && o->lport == port && o->st != SS_LISTEN) { used = true; break; }
        auto it = tw->find({s->lip, port});
        if (it != tw->end() && it->second > vnow && n > 16) used = true;
        if (!used) { s->lport = port; s->bound = true; return s; }
    }
    return nullptr;
}
}
using namespace sim;
#define REAL(name) ((decltype(&name))[]{ static void *p = real_sym(#name); return p; }())
extern "C" {
int socket(int d, int t, int p) noexcept {
    if (!active) return real_syscall(SYS_socket, d, t, p);
    InSim _; sys_enter(10);
    if (flt(K_F_SOCKET, cfg.p_f_socket)) { count(C_SOCKETERR); tracef("socket -> EMFILE"); errno = EMFILE; return -1; }
    auto s = new Sock(); s->type = T_SOCK; s->node = cur->node; s->nonblock = t & SOCK_NONBLOCK;
    s->lip = node_ip(cur->node); s->sndcap = cfg.sndbuf; s->rcvcap = cfg.rcvbuf;
    int fd = alloc_fd(s); if (fd < 0) return -1;
    all_socks->push_back(s);
    tracef("socket -> %d", fd);
    return fd;
}
int bind(int fd, const struct sockaddr *a, socklen_t) noexcept {
    if (!active) return -1;
    InSim _; sys_enter(11, fd);
    auto s = gets("bind", fd); if (!s) return -1;
    auto in = (const sockaddr_in *)a;
    if (flt(K_F_BIND, cfg.p_f_bind)) { count(C_BINDERR); errno = EADDRINUSE; return -1; }
    uint16_t port = ntohs(in->sin_port);
    for (auto o : *all_socks) if (o != s && !o->appclosed && o->bound && o->lip == s->lip && o->lport == port && (o->st == SS_LISTEN || o->st == SS_CLOSED) && !o->was_est)
        { errno = EADDRINUSE; return -1; }
    s->lport = port; s->bound = true;
    return 0;
}
int listen(int fd, int bl) noexcept {
    if (!active) return -1;
    InSim _; sys_enter(12, fd);
    auto s = gets("listen", fd); if (!s) return -1;
    s->st = SS_LISTEN; s->backlog = bl;
    return 0;
}
static int accept_impl(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    InSim _; sys_enter(13, fd);
    auto s = gets("accept", fd); if (!s) return -1;
    for (;;) {
        if (s->st != SS_LISTEN) { errno = EINVAL; return -1; }
        if (!s->acceptq.empty()) break;
        if (s->nonblock) { errno = EAGAIN; return -1; }
        block(s);
    }
    u64 e = 0;
    if (faults_on && cfg.p_f_accept > 0)
        e = decide(K_F_ACCEPT, 0, [](Rng &r) -> u64 {
            if (!r.chance(cfg.p_f_accept)) return 0;
            static const int es[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, EAGAIN, EINTR};
            return es[r.below(8)]; });
    if (e) {
        count(C_ACCEPTERR); tracef("accept -> %s", strerror(e));
        if (e == ECONNABORTED || e == EPROTO) { auto h = s->acceptq.front(); s->acceptq.pop_front(); h->appclosed = true; send_rst(h); h->st = SS_CLOSED; }
        errno = e; return -1;
    }
    auto h = s->acceptq.front();
    int n = alloc_fd(h);
    if (n < 0) return -1;
    s->acceptq.pop_front();
    h->orphan = false; h->bound = true; h->nonblock = fl & SOCK_NONBLOCK; h->appclosed = false;
    if (a) { sockaddr_in in{}; in.sin_family = AF_INET; in.sin_addr.s_addr = h->rip; in.sin_port = htons(h->rport); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; }
    tracef("accept -> fd %d conn %llu", n, (unsigned long long)h->conn_id);
    sys_exit(13, n);
    return n;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { if (!active) { errno = ENOSYS; return -1; } return accept_impl(fd, a, l, 0); }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { if (!active) { errno = ENOSYS; return -1; } return accept_impl(fd, a, l, fl); }
int connect(int fd, const struct sockaddr *a, socklen_t) {
    if (!active) { errno = ENOSYS; return -1; }
    InSim _; sys_enter(14, fd);
    auto s = gets("connect", fd); if (!s) return -1;
    auto in = (const sockaddr_in *)a;
    if (s->st != SS_CLOSED) { errno = s->st == SS_SYNSENT ? EALREADY : EISCONN; return -1; }
    u64 e = 0;
    if (faults_on && cfg.p_f_connect > 0)
        e = decide(K_F_CONNECT, 0, [](Rng &r) -> u64 {
            if (!r.chance(cfg.p_f_connect)) return 0;
            static const int es[] = {ENETUNREACH, EADDRNOTAVAIL, EAGAIN, ECONNREFUSED, EHOSTUNREACH, ENOBUFS};
            return es[r.below(6)]; });
    if (!clog_) clog_ = new std::vector<ConnectLog>();
    clog_->push_back(ConnectLog{vnow, s->node, in->sin_addr.s_addr, ntohs(in->sin_port), 0});
    if (e) { count(C_CONNERR); tracef("connect -> %s", strerror(e)); errno = e; return -1; }
    if (!s->bound && !pick_port(s)) { errno = EADDRNOTAVAIL; return -1; }
    s->rip = in->sin_addr.s_addr; s->rport = ntohs(in->sin_port);
    s->active_side = true; s->syn_tries = 0;
    bool local = cfg.p_conn_imm > 0 && decide(K_CONNIMM, 0, [](Rng &r) -> u64 { return r.chance(cfg.p_conn_imm); });
    Sock *l = find_listener(s->rip, s->rport);
    if (!l && cfg.refuse_immediate && s->nonblock && local) { count(C_REFUSED); errno = ECONNREFUSED; return -1; }
    s->st = SS_SYNSENT;
    tracef("connect fd %d -> %s:%d", fd, inet_ntoa(in->sin_addr), s->rport);
    if (local && l && !net_blocked(s->node, l->node) && (int)l->acceptq.size() + l->synq <= l->backlog) {
        // loopback-like: established before connect() returns
        count(C_CONNIMM);
        for (auto o : *all_socks)
            if (o->st == SS_EST && !o->appclosed && o->lip == s->rip && o->lport == s->rport && o->rip == s->lip && o->rport == s->lport) { count(C_PORTREUSE); kill_sock(o, ECONNRESET); }
        auto h = new Sock(); h->type = T_SOCK; h->node = l->node; h->st = SS_EST; h->was_est = true; h->orphan = true;
        h->lip = s->rip; h->lport = s->rport; h->rip = s->lip; h->rport = s->lport; h->sndcap = cfg.sndbuf; h->rcvcap = cfg.rcvbuf;
        h->conn_id = s->conn_id = next_conn_id++; if (!cnodes) cnodes = new std::map<u64, std::pair<int, int>>(); (*cnodes)[h->conn_id] = {s->node, h->node};
        s->st = SS_EST; s->was_est = true; s->peer = h; h->peer = s;
        s->out.from = s; s->out.to = h; h->out.from = h; h->out.to = s;
        all_socks->push_back(h); l->acceptq.push_back(h); notify(l);
        return 0;
    }
    at(vnow + latency(), [s] { if (!s->appclosed && s->st == SS_SYNSENT) syn_arrive(s); });
    if (s->nonblock) { errno = EINPROGRESS; return -1; }
    while (s->st == SS_SYNSENT) block(s);
    if (s->err) { int x = s->err; s->err = 0; errno = x; return -1; }
    return 0;
}
ssize_t send(int fd, const void *b, size_t n, int fl) { if (!active) return real_syscall(SYS_sendto, fd, (long)b, n, fl, 0, 0); return do_write(fd, (const char *)b, n, fl, "send"); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { if (!active) return -1; return do_write(fd, (const char *)b, n, fl, "send"); }
static ssize_t recv_impl(int fd, void *b, size_t n, int fl) {
    InSim _; sys_enter(5, fd);
    auto s = gets("recv", fd); if (!s) return -1;
    ssize_t r = sock_recv(s, (char *)b, n, fl);
    int e = errno; sys_exit(5, r < 0 ? e : r);
    if (trace_on) tracef("recv fd %d -> %zd %s", fd, r, r < 0 ? strerror(e) : "");
    errno = e; return r;
}
ssize_t recv(int fd, void *b, size_t n, int fl) { if (!active) return -1; return recv_impl(fd, b, n, fl); }
ssize_t __recv_chk(int fd, void *b, size_t n, size_t, int fl) { return recv(fd, b, n, fl); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { if (!active) return -1; return recv_impl(fd, b, n, fl); }
ssize_t read(int fd, void *b, size_t n) { if (!simfd(fd)) return ({ long r = real_syscall(SYS_read, fd, (long)b, n); if (r < 0) { errno = -r; r = -1; } r; }); return do_read(fd, (char *)b, n, "read"); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
    if (active && fd >= 0 && fd <= 2) return n;
    if (!simfd(fd)) return ({ long r = real_syscall(SYS_write, fd, (long)b, n); if (r < 0) { errno = -r; r = -1; } r; });
    return do_write(fd, (const char *)b, n, 0, "write");
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) { if (!active) return -1; std::string t; { InSim _; for (size_t i = 0; i < m->msg_iovlen; i++) t.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); } return do_write(fd, t.data(), t.size(), fl, "sendmsg"); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (active && fd >= 0 && fd <= 2) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; return n; }
    if (!simfd(fd)) return real_syscall(SYS_writev, fd, (long)v, c);
    std::string t; { InSim _; for (int i = 0; i < c; i++) t.append((char *)v[i].iov_base, v[i].iov_len); }
    return do_write(fd, t.data(), t.size(), 0, "writev");
}
int close(int fd) { if (!simfd(fd)) { if (active && fd < FDMIN) { InSim _; violation("C16", "close of descriptor %d", fd); errno = EBADF; return -1; } return real_syscall(SYS_close, fd) < 0 ? -1 : 0; } return do_close(fd); }
int shutdown(int fd, int how) noexcept {
    if (!active) return -1;
    InSim _; sys_enter(6, fd);
    auto s = gets("shutdown", fd); if (!s) return -1;
    if (s->st != SS_EST) { errno = ENOTCONN; return -1; }
    if (how == SHUT_WR || how == SHUT_RDWR) { s->snd_shut = true; s->out.fin = true; pump(s); }
    if (how == SHUT_RD || how == SHUT_RDWR) s->rcv_shut = true;
    notify(s);
    return 0;
}
int setsockopt(int fd, int, int, const void *, socklen_t) noexcept {
    if (!active) return -1;
    InSim _; sys_enter(7, fd);
    auto s = gets("setsockopt", fd); if (!s) return -1;
    if (flt(K_F_SETSOCKOPT, cfg.p_f_setsockopt)) { count(C_SETSOCKOPTERR); tracef("setsockopt -> ENOBUFS"); errno = ENOBUFS; return -1; }
    return 0;
}
int getsockopt(int fd, int lv, int opt, void *v, socklen_t *l) noexcept {
    if (!active) return -1;
    InSim _; sys_enter(8, fd);
    auto s = gets("getsockopt", fd); if (!s) return -1;
    if (lv == SOL_SOCKET && opt == SO_ERROR) { *(int *)v = s->err; s->err = 0; *l = 4; return 0; }
    if (lv == SOL_SOCKET && opt == SO_TYPE) { *(int *)v = SOCK_STREAM; *l = 4; return 0; }
    memset(v, 0, *l); return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) noexcept {
    if (!active) return -1;
    InSim _; auto s = gets("getsockname", fd); if (!s) return -1;
    sockaddr_in in{}; in.sin_family = AF_INET; in.sin_addr.s_addr = s->lip; in.sin_port = htons(s->lport);
    memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) noexcept {
    if (!active) return -1;
    InSim _; auto s = gets("getpeername", fd); if (!s) return -1;
    if (s->st != SS_EST) { errno = ENOTCONN; return -1; }
    sockaddr_in in{}; in.sin_family = AF_INET; in.sin_addr.s_addr = s->rip; in.sin_port = htons(s->rport);
    memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0;
}
static int fcntl_impl(int fd, int cmd, long arg) {
    if (!simfd(fd)) { long r = real_syscall(SYS_fcntl, fd, cmd, arg); if (r < 0) { errno = -r; return -1; } return r; }
    InSim _; sys_enter(9, fd);
    auto f = getf("fcntl", fd); if (!f) return -1;
    switch (cmd) {
        case F_GETFL: return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
        case F_SETFL:
            if (flt(K_F_FCNTL, cfg.p_f_fcntl)) { count(C_FCNTLERR); errno = ENOMEM; return -1; }
            f->nonblock = arg & O_NONBLOCK; return 0;
        default: return 0;
    }
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_impl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_impl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap; va_start(ap, req); long a = va_arg(ap, long); va_end(ap);
    if (!simfd(fd)) { long r = real_syscall(SYS_ioctl, fd, req, a); if (r < 0) { errno = -r; return -1; } return r; }
    InSim _; sys_enter(15, fd);
    auto f = getf("ioctl", fd); if (!f) return -1;
    if (req == FIONBIO) { f->nonblock = *(int *)a; return 0; }
    if (req == FIOCLEX) return 0;
    errno = ENOTTY; return -1;
}
int eventfd(unsigned v, int fl) noexcept {
    if (!active) return real_syscall(SYS_eventfd2, v, fl);
    InSim _; sys_enter(16);
    if (flt(K_F_EVENTFD, cfg.p_f_eventfd)) { count(C_EVENTFDERR); errno = EMFILE; return -1; }
    auto e = new EvFd(); e->type = T_EVENTFD; e->cnt = v; e->nonblock = fl & EFD_NONBLOCK; e->node = cur->node;
    return alloc_fd(e);
}
int pipe2(int *p, int fl) noexcept {
    if (!active) return real_syscall(SYS_pipe2, (long)p, fl);
    InSim _; sys_enter(17);
    auto b = new PipeBuf(); b->rd = b->wr = 1;
    auto r = new PipeEnd(), w = new PipeEnd();
    r->type = T_PIPE_R; w->type = T_PIPE_W; r->b = w->b = b; b->r = r; b->w = w; r->nonblock = w->nonblock = fl & O_NONBLOCK;
    r->node = w->node = cur->node;
    p[0] = alloc_fd(r); p[1] = alloc_fd(w);
    return 0;
}
int pipe(int *p) noexcept { return pipe2(p, 0); }
int epoll_create1(int fl) noexcept {
    if (!active) return real_syscall(SYS_epoll_create1, fl);
    InSim _; sys_enter(18);
    auto e = new Ep(); e->type = T_EPOLL; e->node = cur->node;
    return alloc_fd(e);
}
int epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) noexcept {
    if (!active) return real_syscall(SYS_epoll_ctl, epfd, op, fd, (long)ev);
    InSim _; sys_enter(19, fd);
    auto f0 = getf("epoll_ctl", epfd); if (!f0) return -1;
    auto ep = static_cast<Ep *>(f0);
    // libuv legitimately probes/invalidates descriptors; EBADF here is not a library error by itself
    File *f = fd >= FDMIN && fd < FDMAX ? fdt[fd] : nullptr;
    if (!f) { if (op != EPOLL_CTL_DEL) bad_fd("epoll_ctl", fd); errno = EBADF; return -1; }
    auto it = ep->ents.find(fd);
    int r = 0;
    switch (op) {
        case EPOLL_CTL_ADD:
            if (it != ep->ents.end()) { errno = EEXIST; return -1; }
            if (flt(K_F_EPOLLCTL, cfg.p_f_epollctl)) { count(C_EPOLLERR); errno = ENOMEM; return -1; }
            ep->ents[fd] = EpEnt{f, ev->events, ev->data, epseq++}; f->eps.push_back(ep); wake(ep); break;
        case EPOLL_CTL_MOD:
            if (it == ep->ents.end()) { errno = ENOENT; return -1; }
            it->second.events = ev->events; it->second.data = ev->data; wake(ep); break;
        case EPOLL_CTL_DEL:
            if (it == ep->ents.end()) { errno = ENOENT; return -1; }
            ep->ents.erase(it); f->eps.erase(std::remove(f->eps.begin(), f->eps.end(), ep), f->eps.end()); break;
    }
    if (trace_on) tracef("epoll_ctl ep %d op %d fd %d ev %x", epfd, op, fd, ev ? ev->events : 0);
    return r;
}
static int epwait(int epfd, struct epoll_event *ev, int max, int timeout) {
    InSim _; sys_enter(20, epfd);
    auto f0 = getf("epoll_wait", epfd); if (!f0) return -1;
    auto ep = static_cast<Ep *>(f0);
    u64 dl = timeout > 0 ? vnow + timeout * 1000000ULL : 0;
    for (;;) {
        struct R { u64 seq; struct epoll_event e; }; R rs[FDMAX]; int n = 0;
        for (auto &kv : ep->ents) {
            u32 m = kv.second.f->poll() & (kv.second.events | EPOLLERR | EPOLLHUP);
            if (m) { rs[n].seq = kv.second.seq; rs[n].e.events = m; rs[n].e.data = kv.second.data; n++; }
        }
        if (n) {
            if (n > 1) {
                u64 o = decide(K_EPORD, 0, [&](Rng &r) -> u64 { return r.chance(0.5) ? r.below(n * 2) : 0; });
                // rotation and optionally only the first of them
                std::rotate(rs, rs + (o / 2) % n, rs + n);
                if ((o & 1) && !cfg.ep_all) n = 1;
            }
            if (n > max) n = max;
            for (int i = 0; i < n; i++) { ev[i] = rs[i].e; note(20, ev[i].data.fd, ev[i].events); if (trace_on) tracef("epoll ep %d: fd %d ev %x", epfd, ev[i].data.fd, ev[i].events); }
            return n;
        }
        if (timeout == 0) return 0;
        if (dl && vnow >= dl) return 0;
        block(ep, dl);
        if (ep->closed) { errno = EBADF; return -1; }
    }
}
int epoll_pwait(int epfd, struct epoll_event *ev, int max, int timeout, const sigset_t *) { if (!active) return real_syscall(SYS_epoll_pwait, epfd, (long)ev, max, timeout, 0, 8); return epwait(epfd, ev, max, timeout); }
int epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout) { if (!active) return -1; return epwait(epfd, ev, max, timeout); }
int poll(struct pollfd *p, nfds_t n, int timeout) {
    if (!active) return real_syscall(SYS_poll, (long)p, n, timeout);
    InSim _; sys_enter(21);
    u64 dl = timeout > 0 ? vnow + timeout * 1000000ULL : 0;
    for (;;) {
        int c = 0;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0; if (p[i].fd < 0) continue;
            File *f = p[i].fd < FDMAX ? fdt[p[i].fd] : nullptr;
            if (!f) { p[i].revents = POLLNVAL; c++; continue; }
            p[i].revents = f->poll() & (p[i].events | POLLERR | POLLHUP); if (p[i].revents) c++;
        }
        if (c || timeout == 0) return c;
        if (dl && vnow >= dl) return 0;
        block(n == 1 && p[0].fd >= 0 ? (void *)fdt[p[0].fd] : (void *)p, n == 1 ? dl : vnow + 1000000);
    }
}
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active) {
        if (n == SYS_close) return close((int)a);
        if (n == 425 || n == 426 || n == 427) { errno = ENOSYS; return -1; }
        if (n == SYS_futex) { sim::yield(); return 0; }
        if (n == SYS_gettid) return 10000 + cur->id;
        if (n == SYS_getrandom) { errno = ENOSYS; return -1; }
    }
    long r = real_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
int __poll_chk(struct pollfd *p, nfds_t n, int t, size_t) { return poll(p, n, t); }
pid_t gettid() noexcept { if (!active) return real_syscall(SYS_gettid); return 10000 + cur->id; }
}
