// Link-time seams: every nondeterministic libc entry point of the code under
// test is redirected here (ld --wrap) and acts on the simulated machine.
#define OPENSSL_SUPPRESS_DEPRECATED
#include "sim.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__); extern "C" ret __wrap_##name(__VA_ARGS__)

// ------------------------------------------------------------------ heap
REAL(void *, malloc, size_t);
REAL(void *, calloc, size_t, size_t);
REAL(void *, realloc, void *, size_t);
REAL(void, free, void *);
bool heap_track = false;
i64 heap_budget = -1;
struct Blk { size_t n; u64 site; };
static std::unordered_map<void *, Blk> *live;
static u64 live_bytes = 0;
// memory handed out again still holds what its previous owner of the same size left in it
bool heap_stale = false;
static std::unordered_map<size_t, string> *stale;
static void leave(void *p) {
    if(!p || !heap_stale || !live) return;
    auto i = live->find(p);
    if(i == live->end() || i->second.n > 70000) return;
    if(!stale) stale = new std::unordered_map<size_t, string>();
    (*stale)[i->second.n].assign((char *) p, i->second.n);
}
static void inherit(void *p, size_t n) {
    if(!p || !heap_stale || !stale) return;
    auto i = stale->find(n);
    if(i != stale->end()) memcpy(p, i->second.data(), n);
}
static void note(void *p, size_t n, void *site) {
    if(!p || !heap_track) return;
    if(!live) { live = new std::unordered_map<void *, Blk>(); live->reserve(4096); }
    (*live)[p] = Blk{n, (u64) site};
    live_bytes += n;
    if(heap_budget >= 0 && (i64) live_bytes > heap_budget)
        fatal("memory: the server holds %llu bytes, more than the bound of %lld", (unsigned long long) live_bytes, (long long) heap_budget);
}
static void unnote(void *p) {
    if(!p || !live) return;
    auto i = live->find(p);
    if(i == live->end()) return;
    live_bytes -= i->second.n;
    live->erase(i);
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); inherit(p, n); note(p, n, __builtin_return_address(0)); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); note(p, a * b, __builtin_return_address(0)); return p; }
void *__wrap_realloc(void *q, size_t n) { unnote(q); void *p = __real_realloc(q, n); note(p, n, __builtin_return_address(0)); return p; }
void __wrap_free(void *p) { leave(p); unnote(p); __real_free(p); }
REAL(char *, strdup, const char *);
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) __real_malloc(n); memcpy(p, s, n); note(p, n, __builtin_return_address(0)); return p; }
REAL(char *, strndup, const char *, size_t);
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *) __real_malloc(n + 1); memcpy(p, s, n); p[n] = 0; note(p, n + 1, __builtin_return_address(0)); return p; }
HeapStat heap_stat() { return HeapStat{live ? live->size() : 0, live_bytes}; }
std::map<u64, std::pair<i64, i64>> heap_sites() {
    std::map<u64, std::pair<i64, i64>> m;
    if(live) for(auto &b : *live) { auto &e = m[b.second.site]; e.first++; e.second += (i64) b.second.n; }
    return m;
}
string heap_top(const std::map<u64, std::pair<i64, i64>> &before, const std::map<u64, std::pair<i64, i64>> &after) {
    string o;
    int k = 0;
    for(auto &a : after) {
        auto b = before.find(a.first);
        i64 d = a.second.first - (b == before.end() ? 0 : b->second.first);
        i64 dn = a.second.second - (b == before.end() ? 0 : b->second.second);
        if((d > 0 || dn > 0) && k++ < 6) { char t[96]; snprintf(t, sizeof t, " [site 0x%llx: %+lld blocks %+lld bytes]", (unsigned long long) a.first, (long long) d, (long long) dn); o += t; }
    }
    return o;
}

// ------------------------------------------------------------------ helpers
static bool sim() { return W != nullptr && W->server_running; }
static int fail(int e) { errno = e; return -1; }
static void res(const char *call, int fd, i64 r, int e) {
    T.u((u64) fd); T.u((u64) r); T.u((u64) e);
    if(r > 0 && strncmp(call, "epoll", 5) && strcmp(call, "select")) W->idle_rounds = 0;   // the server got something done
    T.sh(mix64((u64) call[0] * 7919 + (u64) call[1] * 131 + (u64) fd) ^ (u64) (r < 0 ? e + 1000 : r > 0));
    T.log("%s(%d) = %lld%s%s", call, fd, (long long) r, r < 0 ? " " : "", r < 0 ? strerrorname_np(e) : "");
}
static int bad_fd(const char *call, int fd) {
    violation("server used a descriptor it does not own: %s(%d)", call, fd);
    res(call, fd, -1, EBADF);
    return fail(EBADF);
}
static int new_fd(FdKind k, const char *call) {
    int fd = W->alloc_fd(k);
    if(fd < 0) { res(call, -1, -1, EMFILE); return fail(EMFILE); }
    return fd;
}

// ------------------------------------------------------------------ sockets
REAL(int, socket, int, int, int);
int __wrap_socket(int d, int t, int p) {
    W->tick("socket");
    if(int e = W->inject("socket")) { res("socket", -1, -1, e); return fail(e); }
    int fd = new_fd(FD_SOCK, "socket");
    if(fd < 0) return fd;
    if(t & SOCK_NONBLOCK) W->get(fd)->nonblock = true;
    W->get(fd)->six = d == AF_INET6;
    res("socket", fd, fd, 0);
    return fd;
}
REAL(int, bind, int, const struct sockaddr *, socklen_t);
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) {
    W->tick("bind");
    Fd *f = W->get(fd);
    if(!f) return bad_fd("bind", fd);
    if(int e = W->inject("bind")) { res("bind", fd, -1, e); return fail(e); }
    if((a->sa_family == AF_INET6) != f->six) { res("bind", fd, -1, EAFNOSUPPORT); return fail(EAFNOSUPPORT); }
    if(n < (f->six ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in))) { res("bind", fd, -1, EINVAL); return fail(EINVAL); }
    int port = ntohs(f->six ? ((const struct sockaddr_in6 *) a)->sin6_port : ((const struct sockaddr_in *) a)->sin_port);
    bool used = W->port_timewait && !f->reuse;
    for(auto &o : W->fds) if(o && o.get() != f && o->bound && o->port == port && (o->six == f->six || (o->six && !o->v6only) || (f->six && !f->v6only))) used = true;
    if(used) { res("bind", fd, -1, EADDRINUSE); return fail(EADDRINUSE); }
    f->bound = true;
    f->port = port;
    char txt[64] = "";
    inet_ntop(a->sa_family, f->six ? (const void *) &((const struct sockaddr_in6 *) a)->sin6_addr : (const void *) &((const struct sockaddr_in *) a)->sin_addr, txt, sizeof txt);
    f->addr = txt;
    // clients come from this host: they reach the wildcard and loopback addresses
    if(f->six) { auto &x = ((const struct sockaddr_in6 *) a)->sin6_addr; f->reachable = IN6_IS_ADDR_UNSPECIFIED(&x) || IN6_IS_ADDR_LOOPBACK(&x); }
    else { uint32_t x = ntohl(((const struct sockaddr_in *) a)->sin_addr.s_addr); f->reachable = x == INADDR_ANY || (x >> 24) == 127; }
    res("bind", fd, 0, 0);
    return 0;
}
REAL(int, listen, int, int);
int __wrap_listen(int fd, int backlog) {
    W->tick("listen");
    Fd *f = W->get(fd);
    if(!f) return bad_fd("listen", fd);
    if(int e = W->inject("listen")) { res("listen", fd, -1, e); return fail(e); }
    if(!f->bound) { f->bound = true; f->port = 32768 + fd; }      // the kernel picks a port
    f->kind = FD_LISTEN;
    if(!f->six || !W->listen_port) W->listen_port = f->port;
    (f->six ? W->listen_on6 : W->listen_on) = f->addr + " port " + std::to_string(f->port);
    res("listen", fd, 0, 0);
    return 0;
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *n, int flags) {
    W->tick("accept");
    Fd *f = W->get(fd);
    if(!f) return bad_fd("accept", fd);
    if(f->kind != FD_LISTEN) { res("accept", fd, -1, EINVAL); return fail(EINVAL); }
    while(W->taken && !f->backlog.empty() && W->taken(f->backlog.front())) { STAT("fault:taken_by_sibling"); f->backlog.pop_front(); }
    if(!f->backlog.empty() || !f->nonblock) {
        if(int e = W->inject("accept")) {
            // the aborted connection is gone; resource errors leave it queued
            if(e == ECONNABORTED && !f->backlog.empty()) {
                WireP w = f->backlog.front();
                f->backlog.pop_front();
                w->rst = true; w->s_closed = true; w->net_abort = true;
                W->at(w->lat, [w]() { if(w->peer) w->peer->on_server_rst(w.get()); });
            }
            res("accept", fd, -1, e);
            return fail(e);
        }
    }
    if(f->backlog.empty()) {
        if(f->nonblock) { res("accept", fd, -1, EAGAIN); return fail(EAGAIN); }
        fatal("server blocks forever in accept() on a blocking socket");
    }
    int nfd = W->alloc_fd(FD_SOCK);
    if(nfd < 0) { res("accept", fd, -1, EMFILE); return fail(EMFILE); }
    f = W->get(fd);
    WireP w = f->backlog.front();
    f->backlog.pop_front();
    Fd *g = W->get(nfd);
    g->w = w; g->role = 0;
    g->nonblock = (flags & SOCK_NONBLOCK) != 0;
    w->fd = nfd;
    w->keepalive = f->keepalive;
    if(a && n) {
        // an IPv4 or IPv6 peer address, whatever fits the caller's buffer
        if(w->six) {
            struct sockaddr_in6 s6;
            memset(&s6, 0, sizeof s6);
            s6.sin6_family = AF_INET6; s6.sin6_port = htons(40000 + (w->id % 20000)); s6.sin6_addr = in6addr_loopback; s6.sin6_addr.s6_addr[14] = (unsigned char) w->id;
            memcpy(a, &s6, std::min((size_t) *n, sizeof s6));
            *n = sizeof s6;
        } else {
        struct sockaddr_in sa;
        memset(&sa, 0, sizeof sa);
        sa.sin_family = AF_INET; sa.sin_port = htons(40000 + (w->id % 20000)); sa.sin_addr.s_addr = htonl(0x0a000001 + w->id % 250);
        memcpy(a, &sa, std::min((size_t) *n, sizeof sa));
        *n = sizeof sa;
        }
    }
    T.u(w->id);
    res("accept", fd, nfd, 0);
    return nfd;
}
REAL(int, accept, int, struct sockaddr *, socklen_t *);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) { return do_accept(fd, a, n, 0); }
REAL(int, accept4, int, struct sockaddr *, socklen_t *, int);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { return do_accept(fd, a, n, fl); }

REAL(int, connect, int, const struct sockaddr *, socklen_t);
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n) {
    W->tick("connect");
    Fd *f = W->get(fd);
    if(!f) return bad_fd("connect", fd);
    if(int e = W->inject("connect")) { res("connect", fd, -1, e); return fail(e); }
    int port = ntohs(a->sa_family == AF_INET6 ? ((const struct sockaddr_in6 *) a)->sin6_port : ((const struct sockaddr_in *) a)->sin_port);
    auto u = W->upstreams.find(port);
    if(u == W->upstreams.end()) { res("connect", fd, -1, ECONNREFUSED); STAT("fault:upstream_refused"); return fail(ECONNREFUSED); }
    WireP w = std::make_shared<Wire>();
    w->id = (int) W->wires.size();
    w->peer = u->second;
    w->keepalive = f->keepalive;
    W->wires.push_back(w);
    int err = 0; u64 delay = 0;
    u->second->accept_conn(w.get(), err, delay);
    if(f->nonblock) { // non blocking connect: completes when the delay has passed
        f->w = w; f->role = 1; w->fd = fd;
        if(err) { w->rst = true; w->rst_reported = false; W->at(delay, [fd, w]() { if(w->fd == fd) W->edge(fd, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); }); }
        else { size_t cap = w->sndcap; w->sndcap = 0; W->at(delay, [fd, w, cap]() { w->sndcap = cap; if(w->fd == fd) W->edge(fd, EPOLLOUT); w->peer->on_connected(w.get()); }); }
        res("connect", fd, -1, EINPROGRESS);
        return fail(EINPROGRESS);
    }
    u64 until = W->now + delay;
    while(!W->heap.empty() && W->heap.begin()->first.first <= until) W->advance();
    if(W->now < until) W->now = until;
    if(!(f = W->get(fd))) return fail(EBADF);
    if(err) { w->rst = true; w->s_closed = true; res("connect", fd, -1, err); return fail(err); }
    f->w = w; f->role = 1; w->fd = fd;
    u->second->on_connected(w.get());
    res("connect", fd, 0, 0);
    return 0;
}

// what is done behind a wait that nothing but its timeout ended could have been done before it
static void timer_work(const char *what) {
    if(W->timer_woke && W->timer_check && !W->stopping) violation("the server slept with work to do: its wait ends by the timeout, no connection has become ready, and it %s", what);
}
static ssize_t do_recv(const char *call, int fd, void *buf, size_t len, int flags) {
    W->tick(call);
    Fd *f = W->get(fd);
    if(!f || f->kind != FD_SOCK) { return bad_fd(call, fd); }
    Wire *w = f->w.get();
    if(!w) { res(call, fd, -1, ENOTCONN); return fail(ENOTCONN); }
    if(w->rst) {
        if(w->rst_reported) { res(call, fd, 0, 0); return 0; }
        w->rst_reported = true;
        STAT("probe:recv_reset");
        res(call, fd, -1, w->rst_err);
        return fail(w->rst_err);
    }
    if(w->rcvq.empty()) {
        if(w->fin) { STAT("probe:recv_eof"); res(call, fd, 0, 0); return 0; }
        if(f->nonblock || (flags & MSG_DONTWAIT)) { res(call, fd, -1, EAGAIN); return fail(EAGAIN); }
        while(w->rcvq.empty() && !w->fin && !w->rst && W->advance()) {}
        if(w->rcvq.empty() && !w->fin) fatal("server blocks forever in recv() on a blocking socket");
        if(w->rcvq.empty()) { res(call, fd, 0, 0); return 0; }
    }
    if(int e = W->inject("recv")) { res(call, fd, -1, e); return fail(e); }
    size_t n = std::min(len, w->rcvq.size());
    if(flags & MSG_PEEK) { memcpy(buf, w->rcvq.data(), n); return (ssize_t) n; }
    if(n > 1 && W->short_read_pct && W->rng.pct(W->short_read_pct)) { n = 1 + W->rng.below(n - 1); STAT("fault:short_recv"); }
    timer_work("receives bytes that had been there before it went to sleep");
    memcpy(buf, w->rcvq.data(), n);
    T.data(buf, n);
    w->rcvq.erase(0, n);
    bool blocked = !w->inflight.empty() || (w->fin_inflight && !w->fin);
    if(blocked) W->deliver(w);
    res(call, fd, (i64) n, 0);
    return (ssize_t) n;
}
static ssize_t do_send(const char *call, int fd, const void *buf, size_t len, int flags) {
    W->tick(call);
    Fd *f = W->get(fd);
    if(!f || f->kind != FD_SOCK) return bad_fd(call, fd);
    Wire *w = f->w.get();
    if(!w) { res(call, fd, -1, ENOTCONN); return fail(ENOTCONN); }
    if(w->rst || w->s_shutwr) {
        int e = w->rst && !w->rst_reported ? w->rst_err : EPIPE;
        w->rst_reported = true;
        if(e == EPIPE && !(flags & MSG_NOSIGNAL)) {
            auto h = W->handlers.find(SIGPIPE);
            if(h == W->handlers.end() || h->second == nullptr) fatal("killed by SIGPIPE: send on a closed connection without MSG_NOSIGNAL");
        }
        STAT("probe:send_on_broken");
        res(call, fd, -1, e);
        return fail(e);
    }
    if(len == 0) { res(call, fd, 0, 0); return 0; }
    if(int e = W->inject("send")) { res(call, fd, -1, e); return fail(e); }
    size_t space = w->sndcap > w->outstanding ? w->sndcap - w->outstanding : 0;
    if(space == 0) {
        w->nospace = w->choked = true;
        if(f->nonblock || (flags & MSG_DONTWAIT)) { STAT("fault:send_eagain"); res(call, fd, -1, EAGAIN); return fail(EAGAIN); }
        while(w->outstanding >= w->sndcap && !w->rst && W->advance()) {}
        if(w->rst) { res(call, fd, -1, ECONNRESET); return fail(ECONNRESET); }
        if(w->outstanding >= w->sndcap) fatal("server blocks forever in send() on a blocking socket");
        space = w->sndcap - w->outstanding;
    }
    size_t n = std::min(len, space);
    timer_work("sends bytes");
    w->choked = n < len;
    if(n < len) { w->nospace = true; STAT("fault:short_send"); }
    w->outstanding += n;
    if(w->promised) w->unread_at[w->bytes_out] = w->bytes_in < w->promised;
    w->bytes_out += n;
    string b((const char *) buf, n);
    T.data(buf, n);
    WireP keep = W->wires[w->id];
    // the peer is gone: its kernel answers with RST
    auto refuse = [keep]() {
        W->at(keep->lat, [keep]() {
            if(keep->rst) return;
            keep->rst = true;
            keep->rcvq.clear(); keep->inflight.clear();
            if(keep->fd >= 0) W->edge(keep->fd, EPOLLIN | EPOLLERR | EPOLLHUP);
        });
    };
    if(w->vanished) W->give_up(keep, 924 * 1000000ULL, false);
    else if(w->p_closed) refuse();
    else {
        u64 t = std::max(W->now + w->lat, w->s2p_busy);
        w->s2p_busy = t;
        W->at_abs(t, [keep, b, refuse]() {
            if(keep->vanished) { W->give_up(keep, 924 * 1000000ULL, false); return; }
            if(keep->p_closed) { refuse(); return; }
            i64 d = keep->peer ? keep->peer->consume_delay(keep.get(), b.size()) : 0;
            if(keep->peer) keep->peer->on_data(keep.get(), b);
            if(d >= 0) { size_t m = b.size(); W->at((u64) d, [keep, m]() { W->p_consumed(keep.get(), m); }); }
        });
    }
    res(call, fd, (i64) n, 0);
    return (ssize_t) n;
}
REAL(ssize_t, recv, int, void *, size_t, int);
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { return do_recv("recv", fd, b, n, fl); }
REAL(ssize_t, recvfrom, int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return do_recv("recv", fd, b, n, fl); }
REAL(ssize_t, send, int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { return do_send("send", fd, b, n, fl); }
REAL(ssize_t, sendto, int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return do_send("send", fd, b, n, fl); }
REAL(ssize_t, sendmsg, int, const struct msghdr *, int);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) {
    string all;
    for(size_t i = 0; i < m->msg_iovlen; i++) all.append((const char *) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return do_send("send", fd, all.data(), all.size(), fl);
}

static void close_wire(int fd, Fd *f) {
    WireP w = f->w;
    if(!w) return;
    w->fd = -1;
    if(w->s_closed) return;
    w->s_closed = true;
    w->tight_close = w->choked || w->outstanding + 64 > w->sndcap;
    if(w->rst) return;
    bool unread = !w->rcvq.empty() || !w->inflight.empty();
    u64 t = std::max(W->now + w->lat, w->s2p_busy);
    w->s2p_busy = t;
    if(unread) { STAT("probe:close_with_unread"); W->at_abs(t, [w]() { w->rst = true; if(w->peer && !w->p_closed) w->peer->on_server_rst(w.get()); }); }
    else W->at_abs(t, [w]() { if(w->peer && !w->p_closed) w->peer->on_server_fin(w.get()); });
}
REAL(int, shutdown, int, int);
int __wrap_shutdown(int fd, int how) {
    W->tick("shutdown");
    Fd *f = W->get(fd);
    if(!f || f->kind != FD_SOCK) return bad_fd("shutdown", fd);
    if(!f->w) return fail(ENOTCONN);
    if(how != SHUT_RD && !f->w->s_shutwr) {
        f->w->s_shutwr = true;
        WireP w = f->w;
        u64 t = std::max(W->now + w->lat, w->s2p_busy);
        w->s2p_busy = t;
        W->at_abs(t, [w]() { if(w->peer && !w->p_closed) w->peer->on_server_fin(w.get()); });
    }
    res("shutdown", fd, 0, 0);
    return 0;
}
REAL(int, close, int);
int __wrap_close(int fd) {
    if(!sim()) return 0;
    W->tick("close");
    Fd *f = W->get(fd);
    if(!f && W->std_model && fd < 1) { res("close", fd, -1, EBADF); return fail(EBADF); }   // a daemon whose log or standard input was not open
    if(!f) return bad_fd("close", fd);
    if(f->kind == FD_SOCK) close_wire(fd, f);
    if(f->kind == FD_LISTEN) {
        for(auto &w : f->backlog) { w->s_closed = true; w->rst = true; WireP k = w; W->at(k->lat, [k]() { if(k->peer) k->peer->on_server_rst(k.get()); }); }
    }
    W->release_fd(fd);
    res("close", fd, 0, 0);
    return 0;
}
REAL(int, setsockopt, int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int fd, int level, int name, const void *v, socklen_t n) {
    W->tick("setsockopt");
    if(!W->get(fd)) return bad_fd("setsockopt", fd);
    if(int e = W->inject("setsockopt")) { res("setsockopt", fd, -1, e); return fail(e); }
    if(v && n >= sizeof(int)) {
        if(level == SOL_SOCKET && name == SO_REUSEADDR) W->get(fd)->reuse = *(const int *) v != 0;
        if(level == SOL_SOCKET && name == SO_KEEPALIVE) { Fd *f = W->get(fd); f->keepalive = *(const int *) v != 0; if(f->w) f->w->keepalive = f->keepalive; }
        if(level == IPPROTO_IPV6 && name == IPV6_V6ONLY) W->get(fd)->v6only = *(const int *) v != 0;
    }
    return 0;
}
REAL(int, getsockopt, int, int, int, void *, socklen_t *);
int __wrap_getsockopt(int fd, int level, int name, void *v, socklen_t *n) {
    W->tick("getsockopt");
    Fd *f = W->get(fd);
    if(!f) return bad_fd("getsockopt", fd);
    int val = 0;
    if(level == SOL_SOCKET && name == SO_ERROR && f->w && f->w->rst && !f->w->rst_reported) { val = f->w->rst_err; f->w->rst_reported = true; }
    if(v && n && *n >= sizeof(int)) { memcpy(v, &val, sizeof val); *n = sizeof(int); }
    return 0;
}
REAL(int, getpeername, int, struct sockaddr *, socklen_t *);
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *n) {
    Fd *f = W->get(fd);
    if(!f) return bad_fd("getpeername", fd);
    struct sockaddr_in sa;
    memset(&sa, 0, sizeof sa);
    sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(0x0a000001);
    memcpy(a, &sa, std::min((size_t) *n, sizeof sa));
    *n = sizeof sa;
    return 0;
}
REAL(int, getsockname, int, struct sockaddr *, socklen_t *);
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *n) { return __wrap_getpeername(fd, a, n); }
extern "C" int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    W->tick("fcntl");
    Fd *f = W->get(fd);
    if(!f) return bad_fd("fcntl", fd);
    if(cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if(cmd == F_SETFL) { f->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
    return 0;
}
extern "C" int __wrap_ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    W->tick("ioctl");
    Fd *f = W->get(fd);
    if(!f) return bad_fd("ioctl", fd);
    if(req == FIONBIO && arg) f->nonblock = *(int *) arg != 0;
    if(req == FIONREAD && arg) *(int *) arg = f->w ? (int) f->w->rcvq.size() : 0;
    return 0;
}

// ------------------------------------------------------------------ waiting
static bool drain_idle() {
    // nothing can happen any more unless the scenario starts something new
    if(W->on_idle && W->on_idle()) return true;
    return false;
}
static void idle_stop() {
    if(!W->stopping) { W->raise_signal(SIGTERM); return; }
    if(++W->idle_waits > 3) fatal("server keeps waiting for events after the shutdown signal was handled");
}
static int eintr(const char *call, int fd) {
    W->eintr_pending = false;
    res(call, fd, -1, EINTR);
    return fail(EINTR);
}
static int ep_create() {
    W->tick("epoll_create");
    if(int e = W->inject("epoll_create")) { res("epoll_create", -1, -1, e); return fail(e); }
    int fd = new_fd(FD_EPOLL, "epoll_create");
    if(fd >= 0) res("epoll_create", fd, fd, 0);
    return fd;
}
REAL(int, epoll_create, int);
int __wrap_epoll_create(int) { return ep_create(); }
REAL(int, epoll_create1, int);
int __wrap_epoll_create1(int) { return ep_create(); }
REAL(int, epoll_ctl, int, int, int, struct epoll_event *);
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    W->tick("epoll_ctl");
    Fd *e = W->get(ep);
    if(!e || e->kind != FD_EPOLL) return bad_fd("epoll_ctl", ep);
    Fd *f = W->get(fd);
    if(!f) { res("epoll_ctl", fd, -1, EBADF); return bad_fd("epoll_ctl target", fd); }
    auto i = e->ep.find(fd);
    if(op == EPOLL_CTL_ADD) {
        if(int er = W->inject("epoll_add")) { res("epoll_ctl", fd, -1, er); return fail(er); }
        if(i != e->ep.end()) { res("epoll_ctl", fd, -1, EEXIST); return fail(EEXIST); }
        EpItem it{fd, f->gen, ev->events, ev->data.u64, false};
        it.ready = (W->readiness(fd) & (ev->events | EPOLLERR | EPOLLHUP)) != 0;
        e->ep[fd] = it;
    } else if(op == EPOLL_CTL_MOD) {
        if(i == e->ep.end()) { res("epoll_ctl", fd, -1, ENOENT); return fail(ENOENT); }
        i->second.events = ev->events;
        i->second.data = ev->data.u64;
        if(W->readiness(fd) & (ev->events | EPOLLERR | EPOLLHUP)) i->second.ready = true;
    } else {
        if(i == e->ep.end()) { res("epoll_ctl", fd, -1, ENOENT); return fail(ENOENT); }
        e->ep.erase(i);
    }
    res("epoll_ctl", fd, op * 1000, 0);
    return 0;
}
static int ep_wait(int ep, struct epoll_event *out, int max, int timeout) {
    W->serving = true;
    W->timer_woke = false;
    W->tick("epoll_wait");
    if(!W->get(ep) || W->get(ep)->kind != FD_EPOLL) return bad_fd("epoll_wait", ep);
    if(int e = W->inject("epoll_wait")) { res("epoll_wait", ep, -1, e); return fail(e); }
    W->eintr_pending = false;      // a signal handled earlier does not interrupt this wait
    if(W->eintr_pct && W->rng.pct(W->eintr_pct)) { STAT("fault:eintr_wait"); return eintr("epoll_wait", ep); }
    u64 until = timeout < 0 ? ~0ULL : W->now + (u64) timeout * 1000;
    while(true) {
        Fd *e = W->get(ep);
        vector<EpItem *> rdy;
        for(auto &i : e->ep) {
            if(!i.second.ready) continue;
            uint32_t m = W->readiness(i.first) & (i.second.events | EPOLLERR | EPOLLHUP);
            if(!m) { i.second.ready = false; continue; }
            rdy.push_back(&i.second);
        }
        if(!rdy.empty()) {
            for(size_t i = rdy.size(); i > 1; i--) std::swap(rdy[i - 1], rdy[W->rng.below(i)]);
            int n = (int) std::min((size_t) max, rdy.size());
            if(n > 1 && W->subset_pct && W->rng.pct(W->subset_pct)) { n = 1 + (int) W->rng.below(n); STAT("fault:delayed_events"); }
            for(int k = 0; k < n; k++) {
                out[k].events = W->readiness(rdy[k]->fd) & (rdy[k]->events | EPOLLERR | EPOLLHUP);
                out[k].data.u64 = rdy[k]->data;
                if(rdy[k]->events & EPOLLET) rdy[k]->ready = false;
                if(rdy[k]->events & EPOLLONESHOT) { rdy[k]->events = 0; rdy[k]->ready = false; }
                T.u(rdy[k]->fd); T.u(out[k].events); T.sh(rdy[k]->fd * 64 + out[k].events);
            }
            res("epoll_wait", ep, n, 0);
            return n;
        }
        if(!W->heap.empty() && W->heap.begin()->first.first <= until) { W->advance(); if(W->eintr_pending) return eintr("epoll_wait", ep); continue; }
        if(until != ~0ULL) { W->now = std::max(W->now, until); if(W->heap.empty() && ++W->idle_rounds > 2 && !drain_idle()) { idle_stop(); if(W->eintr_pending) return eintr("epoll_wait", ep); } W->timer_woke = timeout > 0; res("epoll_wait", ep, 0, 0); return 0; }
        if(drain_idle()) continue;
        idle_stop();
        if(W->eintr_pending) return eintr("epoll_wait", ep);
    }
}
REAL(int, epoll_wait, int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int ep, struct epoll_event *o, int m, int t) { return ep_wait(ep, o, m, t); }
REAL(int, epoll_pwait, int, struct epoll_event *, int, int, const sigset_t *);
int __wrap_epoll_pwait(int ep, struct epoll_event *o, int m, int t, const sigset_t *) { return ep_wait(ep, o, m, t); }

REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    W->serving = true;
    W->tick("select");
    if(int e = W->inject("select")) { res("select", n, -1, e); return fail(e); }
    W->eintr_pending = false;
    if(W->eintr_pct && W->rng.pct(W->eintr_pct)) { STAT("fault:eintr_wait"); return eintr("select", n); }
    u64 until = !tv ? ~0ULL : W->now + (u64) tv->tv_sec * 1000000 + (u64) tv->tv_usec;
    while(true) {
        int cnt = 0;
        fd_set ro, wo;
        FD_ZERO(&ro); FD_ZERO(&wo);
        for(int fd = 0; fd < n; fd++) {
            bool wantr = r && FD_ISSET(fd, r), wantw = w && FD_ISSET(fd, w);
            if(!wantr && !wantw) continue;
            if(!W->get(fd)) { return bad_fd("select", fd); }
            uint32_t m = W->readiness(fd);
            if(wantr && (m & (EPOLLIN | EPOLLHUP | EPOLLERR))) { FD_SET(fd, &ro); cnt++; }
            if(wantw && (m & (EPOLLOUT | EPOLLERR))) { FD_SET(fd, &wo); cnt++; }
        }
        bool timeout = false;
        if(!cnt) {
            if(!W->heap.empty() && W->heap.begin()->first.first <= until) { W->advance(); if(W->eintr_pending) return eintr("select", n); continue; }
            if(W->heap.empty() && (until == ~0ULL || ++W->idle_rounds > 2)) {
                if(drain_idle()) continue;
                idle_stop();
                if(W->eintr_pending) return eintr("select", n);
            }
            if(until != ~0ULL) { W->now = std::max(W->now, until); timeout = true; }
            else continue;
        }
        if(r) *r = ro;
        if(w) *w = wo;
        if(x) FD_ZERO(x);
        for(int fd = 0; fd < n; fd++) if(FD_ISSET(fd, &ro) || FD_ISSET(fd, &wo)) { T.u(fd); T.sh(fd); }
        res("select", n, cnt, 0);
        (void) timeout;
        return cnt;
    }
}
REAL(int, poll, struct pollfd *, nfds_t, int);
int __wrap_poll(struct pollfd *p, nfds_t n, int timeout) {
    W->tick("poll");
    u64 until = timeout < 0 ? ~0ULL : W->now + (u64) timeout * 1000;
    while(true) {
        int cnt = 0;
        for(nfds_t i = 0; i < n; i++) {
            uint32_t m = W->readiness(p[i].fd);
            p[i].revents = (short) (((m & EPOLLIN) ? POLLIN : 0) | ((m & EPOLLOUT) ? POLLOUT : 0)) & p[i].events;
            if(m & EPOLLERR) p[i].revents |= POLLERR;
            if(m & EPOLLHUP) p[i].revents |= POLLHUP;
            if(p[i].revents) cnt++;
        }
        if(cnt) return cnt;
        if(!W->heap.empty() && W->heap.begin()->first.first <= until) { W->advance(); continue; }
        if(until != ~0ULL) { W->now = std::max(W->now, until); return 0; }
        if(drain_idle()) continue;
        idle_stop();
        if(W->eintr_pending) return eintr("poll", 0);
    }
}
REAL(struct hostent *, gethostbyname, const char *);
struct hostent *__wrap_gethostbyname(const char *name) {
    W->tick("gethostbyname");
    static struct hostent h;
    static struct in_addr addr;
    static char *list[2];
    static char hname[256];
    T.data(name, strlen(name));
    if(W->inject("gethostbyname") || !(W->hosts.count(name) || isdigit((unsigned char) name[0]))) { STAT("fault:resolve_failure"); T.log("gethostbyname(%s) fails", name); h_errno = HOST_NOT_FOUND; return nullptr; }
    addr.s_addr = isdigit((unsigned char) name[0]) ? inet_addr(name) : htonl(0x0a0000fe);
    list[0] = (char *) &addr; list[1] = nullptr;
    snprintf(hname, sizeof hname, "%s", name);
    h.h_name = hname; h.h_aliases = list + 1; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list;
    return &h;
}
REAL(int, getaddrinfo, const char *, const char *, const struct addrinfo *, struct addrinfo **);
int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *hints, struct addrinfo **out) {
    W->tick("getaddrinfo");
    if(!(W->hosts.count(n) || isdigit((unsigned char) n[0]))) return EAI_NONAME;
    struct addrinfo *a = (struct addrinfo *) __real_calloc(1, sizeof *a);
    struct sockaddr_in *sa = (struct sockaddr_in *) __real_calloc(1, sizeof *sa);
    sa->sin_family = AF_INET; sa->sin_port = htons(s ? atoi(s) : 0); sa->sin_addr.s_addr = htonl(0x0a0000fe);
    a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (struct sockaddr *) sa; a->ai_addrlen = sizeof *sa;
    *out = a;
    return 0;
}
REAL(void, freeaddrinfo, struct addrinfo *);
void __wrap_freeaddrinfo(struct addrinfo *a) { if(a) { __real_free(a->ai_addr); __real_free(a); } }

// ------------------------------------------------------------------ files
static std::map<FILE *, int> *streams;   // FILE* -> simulated fd
static std::set<void *> *dirs;
int open_streams() { return (streams ? (int) streams->size() : 0) + (dirs ? (int) dirs->size() : 0); }
string open_fd_list() {
    static const char *kn[] = {"none", "listen", "socket", "epoll", "file", "dir"};
    string o;
    for(size_t i = 0; i < W->fds.size(); i++) if(W->fds[i] && W->fds[i]->kind != FD_NONE && W->fds[i]->kind != FD_STD) { o += " " + std::to_string(i) + ":" + kn[W->fds[i]->kind]; if(!W->fds[i]->path.empty()) o += "(" + W->fds[i]->path + ")"; }
    return o;
}
static NodeP fs_get(const string &p, int &err) {
    string n = normpath(p);
    T.data(n.data(), n.size());
    T.log("path %s", n.c_str());
    if(p.empty()) { err = ENOENT; return nullptr; }
    if(n.size() > 4000) { err = ENAMETOOLONG; return nullptr; }
    NodeP x = W->lookup(n);
    if(!x) {
        // ENOTDIR when a parent is a file
        size_t s = n.rfind('/');
        string par = s == 0 || s == string::npos ? "/" : n.substr(0, s);
        NodeP q = W->lookup(par);
        err = q && !q->dir ? ENOTDIR : ENOENT;
        return nullptr;
    }
    // "file/" is not a directory
    if(!p.empty() && p[p.size() - 1] == '/' && !x->dir) { err = ENOTDIR; return nullptr; }
    if(x->open_err) { STAT("fault:file_open_error"); err = x->open_err; return nullptr; }
    err = 0;
    return x;
}
static ssize_t ck_read(void *c, char *b, size_t n) {
    int fd = (int) (intptr_t) c;
    Fd *f = W->get(fd);
    if(!f) { errno = EBADF; return -1; }
    W->calls++;
    f->node->reads++;
    if(int e = W->inject("fread")) { STAT("fault:disk_read_error"); res("fread", fd, -1, e); errno = e; return -1; }
    if(f->node->dir) { errno = EISDIR; return -1; }
    if(f->node->eio_off >= 0 && (i64) (f->pos + n) > f->node->eio_off) {
        if((i64) f->pos >= f->node->eio_off) { STAT("fault:disk_read_error"); res("fread", fd, -1, EIO); errno = EIO; return -1; }
        n = (size_t) (f->node->eio_off - (i64) f->pos);
    }
    size_t len = f->node->data.size();
    size_t m = f->pos >= len ? 0 : std::min(n, len - f->pos);
    if(m > 1 && W->short_read_pct && W->rng.pct(W->short_read_pct)) { m = 1 + W->rng.below(m - 1); STAT("fault:short_file_read"); }
    memcpy(b, f->node->data.data() + f->pos, m);
    f->pos += m;
    res("fread", fd, (i64) m, 0);
    return (ssize_t) m;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    int fd = (int) (intptr_t) c;
    Fd *f = W->get(fd);
    if(!f || !f->wr) { errno = EBADF; return 0; }
    if(int e = W->inject("fwrite")) { STAT("fault:disk_write_error"); res("fwrite", fd, -1, e); errno = e; return 0; }
    if(f->app) f->pos = f->node->data.size();
    if(f->node->write_cap >= 0 && (i64) (f->pos + n) > f->node->write_cap) {
        n = (i64) f->pos >= f->node->write_cap ? 0 : (size_t) (f->node->write_cap - (i64) f->pos);
        STAT("fault:disk_full");
        if(!n) { res("fwrite", fd, -1, ENOSPC); errno = ENOSPC; return 0; }
    }
    if(f->node->data.size() < f->pos + n) f->node->data.resize(f->pos + n);
    memcpy(&f->node->data[f->pos], b, n);
    f->pos += n;
    res("fwrite", fd, (i64) n, 0);
    return (ssize_t) n;
}
static int ck_seek(void *c, off64_t *off, int wh) {
    int fd = (int) (intptr_t) c;
    Fd *f = W->get(fd);
    if(!f) { errno = EBADF; return -1; }
    if(int e = W->inject("fseek")) { STAT("fault:disk_seek_error"); errno = e; return -1; }
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64) f->pos : (i64) f->node->data.size();
    i64 t = base + (i64) *off;
    if(t < 0) { errno = EINVAL; return -1; }
    f->pos = (size_t) t;
    *off = t;
    return 0;
}
static int ck_close(void *) { return 0; }
REAL(FILE *, fopen, const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) {
    W->tick("fopen");
    string m(mode);
    bool w = m[0] == 'w' || m[0] == 'a' || m.find('+') != string::npos;
    int err = W->inject("fopen");
    if(err) { res("fopen", -1, -1, err); errno = err; return nullptr; }
    if(path[0]) W->fs_log.push_back(normpath(path));
    NodeP n = fs_get(path, err);
    if(!n && err == ENOENT && (m[0] == 'w' || m[0] == 'a')) {
        string np = normpath(path);
        size_t s = np.rfind('/');
        NodeP par = W->lookup(s == 0 ? "/" : np.substr(0, s));
        if(par && par->dir) { n = std::make_shared<Node>(); n->mtime = (i64) ((W->now + W->wall_off) / 1000000); W->fs[np] = n; err = 0; }
    }
    if(n && n->dir && w) { n = nullptr; err = EISDIR; }
    if(!n) { res("fopen", -1, -1, err); errno = err; return nullptr; }
    int fd = W->alloc_fd(FD_FILE);
    if(fd < 0) { res("fopen", -1, -1, EMFILE); errno = EMFILE; return nullptr; }
    Fd *f = W->get(fd);
    f->node = n; f->path = normpath(path); f->wr = w; f->app = m[0] == 'a';
    if(m[0] == 'w') n->data.clear();
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *fp = fopencookie((void *) (intptr_t) fd, mode, io);
    if(!streams) streams = new std::map<FILE *, int>();
    (*streams)[fp] = fd;
    res("fopen", fd, fd, 0);
    return fp;
}
REAL(FILE *, fopen64, const char *, const char *);
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
static bool std_stream(FILE *f) { return f == stdout || f == stderr || f == stdin; }
static void chk(FILE *f, const char *call) {
    if(f && !std_stream(f) && (!streams || !streams->count(f))) fatal("invalid memory access: %s() on a closed or unknown FILE", call);
}
REAL(int, fclose, FILE *);
int __wrap_fclose(FILE *f) {
    W->tick("fclose");
    if(!f) fatal("invalid memory access: fclose(NULL)");
    chk(f, "fclose");
    if(std_stream(f)) return 0;
    int fd = (*streams)[f];
    int inj = W->inject("fclose");
    int r = __real_fclose(f);
    streams->erase(f);
    W->release_fd(fd);
    if(inj) { r = EOF; errno = inj; }
    res("fclose", fd, r, r ? errno : 0);
    return r;
}
#define GUARD(f, name) do { if(!(f)) fatal("invalid memory access: " name "(NULL)"); chk(f, name); } while(0)
REAL(size_t, fread, void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { GUARD(f, "fread"); W->tick("fread"); return __real_fread(b, s, n, f); }
REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { GUARD(f, "fwrite"); if(!std_stream(f)) W->tick("fwrite"); return __real_fwrite(b, s, n, f); }
REAL(int, fseek, FILE *, long, int);
int __wrap_fseek(FILE *f, long o, int w) { GUARD(f, "fseek"); return __real_fseek(f, o, w); }
REAL(int, fseeko, FILE *, off_t, int);
int __wrap_fseeko(FILE *f, off_t o, int w) { GUARD(f, "fseeko"); return __real_fseeko(f, o, w); }
REAL(long, ftell, FILE *);
long __wrap_ftell(FILE *f) { GUARD(f, "ftell"); if(W->inject("ftell")) { errno = EIO; STAT("fault:disk_seek_error"); return -1; } return __real_ftell(f); }
REAL(off_t, ftello, FILE *);
off_t __wrap_ftello(FILE *f) { GUARD(f, "ftello"); if(W->inject("ftell")) { errno = EIO; return -1; } return __real_ftello(f); }
REAL(void, rewind, FILE *);
void __wrap_rewind(FILE *f) { GUARD(f, "rewind"); __real_rewind(f); }
REAL(int, fflush, FILE *);
int __wrap_fflush(FILE *f) { if(f) chk(f, "fflush"); return __real_fflush(f); }
REAL(int, getc, FILE *);
int __wrap_getc(FILE *f) { GUARD(f, "getc"); return __real_getc(f); }
REAL(int, fgetc, FILE *);
int __wrap_fgetc(FILE *f) { GUARD(f, "fgetc"); return __real_fgetc(f); }
REAL(char *, fgets, char *, int, FILE *);
char *__wrap_fgets(char *b, int n, FILE *f) { GUARD(f, "fgets"); return __real_fgets(b, n, f); }
REAL(int, setvbuf, FILE *, char *, int, size_t);
int __wrap_setvbuf(FILE *f, char *b, int m, size_t n) { GUARD(f, "setvbuf"); return __real_setvbuf(f, b, m, n); }
REAL(int, feof, FILE *);
int __wrap_feof(FILE *f) { GUARD(f, "feof"); return __real_feof(f); }
REAL(int, ferror, FILE *);
int __wrap_ferror(FILE *f) { GUARD(f, "ferror"); return __real_ferror(f); }
REAL(int, fileno, FILE *);
int __wrap_fileno(FILE *f) { GUARD(f, "fileno"); return std_stream(f) ? __real_fileno(f) : (*streams)[f]; }

static int do_stat(const char *path, struct stat *st) {
    W->tick("stat");
    int err = W->inject("stat");
    if(err) { res("stat", -1, -1, err); return fail(err); }
    string n = normpath(path);
    T.data(n.data(), n.size());
    T.log("path %s", n.c_str());
    NodeP x = path[0] ? W->lookup(n) : nullptr;
    if(!x || (path[0] && path[strlen(path) - 1] == '/' && !x->dir)) { res("stat", -1, -1, x ? ENOTDIR : ENOENT); return fail(x ? ENOTDIR : ENOENT); }
    memset(st, 0, sizeof *st);
    st->st_mode = x->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = x->dir ? 4096 : (off_t) x->data.size();
    st->st_mtime = x->mtime;
    st->st_nlink = 1;
    st->st_blksize = 4096;
    res("stat", 0, 0, 0);
    return 0;
}
REAL(int, stat, const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *s) { return do_stat(p, s); }
REAL(int, lstat, const char *, struct stat *);
int __wrap_lstat(const char *p, struct stat *s) { return do_stat(p, s); }
REAL(int, fstat, int, struct stat *);
int __wrap_fstat(int fd, struct stat *st) {
    Fd *f = W->get(fd);
    if(!f) return bad_fd("fstat", fd);
    memset(st, 0, sizeof *st);
    if(f->node) { st->st_mode = f->node->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = (off_t) f->node->data.size(); st->st_mtime = f->node->mtime; }
    else st->st_mode = S_IFSOCK;
    return 0;
}
REAL(int, access, const char *, int);
int __wrap_access(const char *p, int) {
    W->tick("access");
    int err = 0;
    NodeP x = fs_get(p, err);
    if(!x && !W->lookup(normpath(p))) return fail(err);
    return 0;
}
struct SimDir { int fd; size_t i; vector<std::pair<string, bool>> names; struct dirent de; };
REAL(DIR *, opendir, const char *);
DIR *__wrap_opendir(const char *p) {
    W->tick("opendir");
    int err = W->inject("opendir");
    if(p[0]) W->fs_log.push_back(normpath(p));
    NodeP x = err ? nullptr : fs_get(p, err);
    if(x && !x->dir) { x = nullptr; err = ENOTDIR; }
    if(!x) { res("opendir", -1, -1, err); errno = err; return nullptr; }
    int fd = W->alloc_fd(FD_DIR);
    if(fd < 0) { res("opendir", -1, -1, EMFILE); errno = EMFILE; return nullptr; }
    string np = normpath(p);
    W->get(fd)->path = np;
    SimDir *d = new SimDir();
    d->fd = fd; d->i = 0;
    d->names.push_back({".", true});
    d->names.push_back({"..", true});
    string pre = np == "/" ? "/" : np + "/";
    for(auto it = W->fs.lower_bound(pre); it != W->fs.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
        string rest = it->first.substr(pre.size());
        if(rest.empty() || rest.find('/') != string::npos) continue;
        d->names.push_back({rest, it->second->dir});
    }
    // directory order is arbitrary on real file systems
    Rng r(mix2(W->plan.seed, std::hash<string>()(np)));
    for(size_t i = d->names.size(); i > 1; i--) std::swap(d->names[i - 1], d->names[r.below(i)]);
    if(!dirs) dirs = new std::set<void *>();
    dirs->insert(d);
    res("opendir", fd, fd, 0);
    return (DIR *) d;
}
static SimDir *dchk(DIR *d, const char *call) {
    if(!d) fatal("invalid memory access: %s(NULL)", call);
    if(!dirs || !dirs->count(d)) fatal("invalid memory access: %s() on a closed DIR", call);
    return (SimDir *) d;
}
REAL(struct dirent *, readdir, DIR *);
struct dirent *__wrap_readdir(DIR *dp) {
    SimDir *d = dchk(dp, "readdir");
    W->tick("readdir");
    if(int e = W->inject("readdir")) { res("readdir", d->fd, -1, e); errno = e; STAT("fault:readdir_error"); return nullptr; }
    if(d->i >= d->names.size()) return nullptr;
    auto &n = d->names[d->i++];
    memset(&d->de, 0, sizeof d->de);
    d->de.d_type = W->no_dtype ? DT_UNKNOWN : n.second ? DT_DIR : DT_REG;   // (not every file system tells)
    if(W->no_dtype) STAT("fault:no_entry_kind");
    d->de.d_ino = d->i;
    snprintf(d->de.d_name, sizeof d->de.d_name, "%s", n.first.c_str());
    return &d->de;
}
REAL(int, closedir, DIR *);
int __wrap_closedir(DIR *dp) {
    SimDir *d = dchk(dp, "closedir");
    W->tick("closedir");
    dirs->erase(dp);
    W->release_fd(d->fd);
    res("closedir", d->fd, 0, 0);
    delete d;
    return 0;
}
extern "C" int __wrap_open(const char *p, int flags, ...) {
    W->tick("open");
    int err = W->inject("open");
    NodeP x = err ? nullptr : fs_get(p, err);
    if(!x && err == ENOENT && (flags & O_CREAT)) { W->mkfile(p, ""); x = W->lookup(normpath(p)); }
    if(!x) { res("open", -1, -1, err); return fail(err); }
    int fd = new_fd(FD_FILE, "open");
    if(fd < 0) return fd;
    Fd *f = W->get(fd);
    f->node = x; f->path = normpath(p); f->wr = (flags & O_ACCMODE) != O_RDONLY; f->app = flags & O_APPEND;
    if(flags & O_TRUNC) x->data.clear();
    res("open", fd, fd, 0);
    return fd;
}
REAL(ssize_t, read, int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) {
    Fd *f = W->get(fd);
    if(f && f->kind == FD_SOCK) return do_recv("recv", fd, b, n, 0);
    W->tick("read");
    if(!f || f->kind != FD_FILE) return bad_fd("read", fd);
    return ck_read((void *) (intptr_t) fd, (char *) b, n);
}
REAL(ssize_t, write, int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    Fd *f = W->get(fd);
    if((fd == 1 || fd == 2) && (!f || f->kind == FD_STD)) return (ssize_t) n;
    if(f && f->kind == FD_SOCK) return do_send("send", fd, b, n, 0);
    W->tick("write");
    if(!f || f->kind != FD_FILE) return bad_fd("write", fd);
    ssize_t r = ck_write((void *) (intptr_t) fd, (const char *) b, n);
    return r == 0 && n ? -1 : r;
}
REAL(ssize_t, writev, int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
    string all;
    for(int i = 0; i < n; i++) all.append((const char *) v[i].iov_base, v[i].iov_len);
    return __wrap_write(fd, all.data(), all.size());
}
REAL(ssize_t, readv, int, const struct iovec *, int);
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) {
    size_t total = 0, done = 0;
    for(int i = 0; i < n; i++) total += v[i].iov_len;
    string all(total, '\0');
    ssize_t r = __wrap_read(fd, &all[0], total);
    for(int i = 0; i < n && r > 0 && done < (size_t) r; i++) {
        size_t k = std::min(v[i].iov_len, (size_t) r - done);
        memcpy(v[i].iov_base, all.data() + done, k);
        done += k;
    }
    return r;
}
REAL(ssize_t, pread, int, void *, size_t, off_t);
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) {
    off64_t cur = 0, to = o;
    if(!W->get(fd) || W->get(fd)->kind != FD_FILE) return bad_fd("pread", fd);
    if(ck_seek((void *) (intptr_t) fd, &cur, SEEK_CUR) || ck_seek((void *) (intptr_t) fd, &to, SEEK_SET)) return -1;
    ssize_t r = __wrap_read(fd, b, n);
    ck_seek((void *) (intptr_t) fd, &cur, SEEK_SET);
    return r;
}
REAL(off_t, lseek, int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w) { off64_t x = o; return ck_seek((void *) (intptr_t) fd, &x, w) ? -1 : x; }
REAL(int, remove, const char *);
int __wrap_remove(const char *p) { W->tick("remove"); string n = normpath(p); if(!W->fs.count(n)) return fail(ENOENT); W->fs.erase(n); return 0; }
REAL(int, unlink, const char *);
int __wrap_unlink(const char *p) { return __wrap_remove(p); }
REAL(int, rename, const char *, const char *);
int __wrap_rename(const char *a, const char *b) { W->tick("rename"); NodeP x = W->lookup(normpath(a)); if(!x) return fail(ENOENT); W->fs.erase(normpath(a)); W->fs[normpath(b)] = x; return 0; }
REAL(char *, realpath, const char *, char *);
char *__wrap_realpath(const char *p, char *out) {
    string n = normpath(p);
    if(!W->lookup(n)) { errno = ENOENT; return nullptr; }
    if(!out) out = (char *) __wrap_malloc(4096);
    snprintf(out, 4096, "%s", n.c_str());
    return out;
}

// ------------------------------------------------------------------ time, process, misc
static i64 wall_us() { return (i64) W->now + W->wall_off; }
REAL(time_t, time, time_t *);
time_t __wrap_time(time_t *t) { time_t v = (time_t) (wall_us() / 1000000); if(t) *t = v; return v; }
REAL(int, gettimeofday, struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = wall_us() / 1000000; tv->tv_usec = wall_us() % 1000000; return 0; }
REAL(int, clock_gettime, clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { i64 u = c == CLOCK_REALTIME ? wall_us() : (i64) W->now; ts->tv_sec = u / 1000000; ts->tv_nsec = (u % 1000000) * 1000; return 0; }
REAL(clock_t, clock, void);
clock_t __wrap_clock(void) { return (clock_t) W->now; }
REAL(int, rand, void);
int __wrap_rand(void) { return (int) (W->rng.next() & 0x7fffffff); }
REAL(void, srand, unsigned);
void __wrap_srand(unsigned) {}
REAL(int, usleep, useconds_t);
int __wrap_usleep(useconds_t u) { u64 t = W->now + u; while(!W->heap.empty() && W->heap.begin()->first.first <= t) W->advance(); if(W->now < t) W->now = t; return 0; }
REAL(unsigned, sleep, unsigned);
unsigned __wrap_sleep(unsigned s) { __wrap_usleep(s * 1000000); return 0; }
REAL(int, nanosleep, const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { return __wrap_usleep((useconds_t) (t->tv_sec * 1000000 + t->tv_nsec / 1000)); }
typedef void (*sigh)(int);
REAL(sigh, signal, int, sigh);
sigh __wrap_signal(int n, sigh h) { sigh o = W->handlers.count(n) ? W->handlers[n] : SIG_DFL; W->handlers[n] = h; return o; }
REAL(int, sigaction, int, const struct sigaction *, struct sigaction *);
int __wrap_sigaction(int n, const struct sigaction *a, struct sigaction *o) { if(o) { memset(o, 0, sizeof *o); o->sa_handler = W->handlers.count(n) ? W->handlers[n] : SIG_DFL; } if(a) W->handlers[n] = a->sa_handler; return 0; }
REAL(pid_t, fork, void);
pid_t __wrap_fork(void) {
    W->tick("fork");
    int err = W->inject("fork");
    if(!err && !W->fork_fn && W->fork_result < 0) err = EAGAIN;
    if(err) { res("fork", -1, -1, err); return fail(err); }
    if(W->fork_fn) {
        int r = W->fork_fn(W->forks++);
        if(r) { World::Child c; c.pid = r; W->children.push_back(c); }
        res("fork", -1, r, 0);
        return r;
    }
    W->forks++;
    if(W->fork_result == 0) W->pid = 4243;
    res("fork", -1, W->fork_result, 0);
    return W->fork_result;
}
REAL(int, kill, pid_t, int);
int __wrap_kill(pid_t p, int sig) {
    W->tick("kill");
    if(!W->fork_fn) { errno = EPERM; return -1; }
    res("kill", p, sig, 0);
    for(auto &c : W->children) if(c.pid == p && !c.reaped) {
        if(sig == SIGINT || sig == SIGTERM || sig == SIGHUP || sig == SIGKILL) { c.told = true; if(!c.end) c.end = W->now + W->child_end; }
        return 0;
    }
    if(sig) violation("the server sends signal %d to process %d, which is none of its workers", sig, (int) p);
    return fail(ESRCH);
}
REAL(pid_t, waitpid, pid_t, int *, int);
pid_t __wrap_waitpid(pid_t p, int *st, int opt) {
    W->tick("waitpid");
    for(auto &c : W->children) if((c.pid == p || p == -1) && !c.reaped) {
        if(!c.end || c.end > W->now) {
            if(opt & WNOHANG) return 0;
            if(!c.end) { violation("the server waits for worker %d, which was never told to end", c.pid); c.end = W->now; }
        }
        while(!W->heap.empty() && W->heap.begin()->first.first <= c.end) W->advance();
        if(W->now < c.end) W->now = c.end;
        c.reaped = true;
        if(st) *st = 0;
        res("waitpid", p, c.pid, 0);
        return c.pid;
    }
    res("waitpid", p, -1, ECHILD);
    return fail(ECHILD);
}
REAL(int, prctl, int, ...);
int __wrap_prctl(int op, ...) {
    va_list ap;
    va_start(ap, op);
    const char *a = va_arg(ap, const char *);
    va_end(ap);
    if(op == PR_SET_NAME && a) W->proc_name = a;
    return 0;
}
REAL(pid_t, getpid, void);
pid_t __wrap_getpid(void) { return W->pid; }
REAL(int, getrusage, int, struct rusage *);
int __wrap_getrusage(int, struct rusage *r) { memset(r, 0, sizeof *r); return 0; }
REAL(void, exit, int);
extern "C" void sim_exit(int code);
void __wrap_exit(int c) { sim_exit(c); }
REAL(int, chdir, const char *);
int __wrap_chdir(const char *p) {
    W->tick("chdir");
    int err = W->inject("chdir");
    NodeP n = err ? nullptr : fs_get(p, err);
    if(n && !n->dir) err = ENOTDIR;
    res("chdir", -1, err ? -1 : 0, err);
    if(err) return fail(err);
    W->cwd = normpath(p);
    return 0;
}
REAL(pid_t, setsid, void);
pid_t __wrap_setsid(void) {
    W->tick("setsid");
    int err = W->inject("setsid");
    if(!err && W->forks == 0) err = EPERM;      // a process group leader can not
    res("setsid", -1, err ? -1 : W->pid, err);
    if(err) return fail(err);
    W->sessions++;
    return W->pid;
}
REAL(int, dup2, int, int);
int __wrap_dup2(int a, int b) {
    W->tick("dup2");
    int err = W->inject("dup2");
    Fd *f = W->get(a);
    if(!err && (!f || b < 0)) err = EBADF;
    if(err) { res("dup2", a, -1, err); return fail(err); }
    if(a == b) return b;
    if(b > 2 || !W->std_model) fatal("dup2(%d, %d) is not simulated", a, b);
    W->release_fd(b);
    f = W->get(a);
    while((int) W->fds.size() <= b) W->fds.emplace_back(nullptr);
    W->fds[b].reset(new Fd());
    W->fds[b]->kind = FD_STD;
    W->fds[b]->path = f->path;
    W->fds[b]->app = f->app;
    res("dup2", a, b, 0);
    return b;
}
REAL(char *, getenv, const char *);
char *__wrap_getenv(const char *) { return nullptr; }

// modules are linked in; loading them goes through the same names
struct ModSym { const char *lib, *sym; void *fn; };
extern ModSym mod_syms[];
extern "C" void *__wrap_dlopen(const char *p, int) {
    W->tick("dlopen");
    int err = 0;
    if(!fs_get(p, err)) return nullptr;
    for(ModSym *m = mod_syms; m->lib; m++) if(strstr(p, m->lib)) return m;
    return nullptr;
}
extern "C" void *__wrap_dlsym(void *h, const char *s) { ModSym *m = (ModSym *) h; return m && !strcmp(m->sym, s) ? m->fn : nullptr; }
extern "C" int __wrap_dlclose(void *) { return 0; }
extern "C" char *__wrap_dlerror(void) { static char e[] = "no such module"; return e; }

// ------------------------------------------------------------------ TLS
// libssl is real; its socket BIO, its certificate files, its randomness and its
// clock (tls.cpp) belong to the simulation.
#include <openssl/ssl.h>
#include <openssl/err.h>
#include "tls.h"
static int tls_live, tls_ctx_live;
int tls_server_handles() { return tls_live; }
int tls_server_contexts() { return tls_ctx_live; }
static int bio_fd(BIO *b) { return (int) (intptr_t) BIO_get_data(b); }
// the same decisions as the socket BIO of OpenSSL: plain read/write (so no MSG_NOSIGNAL) and its list of retry errors
static bool bio_again(int e) { return e == EAGAIN || e == EINTR || e == ENOTCONN || e == EPROTO || e == EINPROGRESS || e == EALREADY; }
static int bio_read(BIO *b, char *p, int n) {
    errno = 0;
    ssize_t r = do_recv("recv", bio_fd(b), p, (size_t) n, 0);
    BIO_clear_retry_flags(b);
    if(r <= 0) { if(r < 0 && bio_again(errno)) BIO_set_retry_read(b); else if(r == 0) BIO_set_flags(b, BIO_FLAGS_IN_EOF); }
    return (int) r;
}
static int bio_write(BIO *b, const char *p, int n) {
    errno = 0;
    ssize_t r = do_send("send", bio_fd(b), p, (size_t) n, 0);
    BIO_clear_retry_flags(b);
    if(r <= 0 && bio_again(errno)) BIO_set_retry_write(b);
    return (int) r;
}
static long bio_ctrl(BIO *b, int cmd, long, void *) {
    switch(cmd) {
        case BIO_CTRL_FLUSH: case BIO_CTRL_DUP: return 1;
        case BIO_CTRL_EOF: return BIO_test_flags(b, BIO_FLAGS_IN_EOF) != 0;
        default: return 0;
    }
}
REAL(int, SSL_set_fd, SSL *, int);
int __wrap_SSL_set_fd(SSL *s, int fd) {
    if(!sim()) return __real_SSL_set_fd(s, fd);
    static BIO_METHOD *m;
    if(!m) {
        m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "sim socket");
        BIO_meth_set_read(m, bio_read);
        BIO_meth_set_write(m, bio_write);
        BIO_meth_set_ctrl(m, bio_ctrl);
    }
    BIO *b = BIO_new(m);
    BIO_set_data(b, (void *) (intptr_t) fd);
    BIO_set_init(b, 1);
    SSL_set_bio(s, b, b);
    return 1;
}
REAL(SSL *, SSL_new, SSL_CTX *);
SSL *__wrap_SSL_new(SSL_CTX *c) { SSL *s = __real_SSL_new(c); if(s) tls_live++; return s; }
REAL(void, SSL_free, SSL *);
void __wrap_SSL_free(SSL *s) { if(s) tls_live--; __real_SSL_free(s); }
REAL(SSL_CTX *, SSL_CTX_new, const SSL_METHOD *);
SSL_CTX *__wrap_SSL_CTX_new(const SSL_METHOD *m) { SSL_CTX *c = __real_SSL_CTX_new(m); if(c) tls_ctx_live++; return c; }
REAL(void, SSL_CTX_free, SSL_CTX *);
void __wrap_SSL_CTX_free(SSL_CTX *c) { if(c) tls_ctx_live--; __real_SSL_CTX_free(c); }
// a file of the simulated disk as a memory BIO (nullptr: cannot be read, error queued as BIO_new_file would)
static BIO *sim_file(const char *path) {
    int fd = __wrap_open(path, O_RDONLY, 0);
    if(fd < 0) { ERR_raise(ERR_LIB_SSL, ERR_R_SYS_LIB); return nullptr; }
    BIO *b = BIO_new(BIO_s_mem());
    char t[4096];
    ssize_t n;
    while((n = __wrap_read(fd, t, sizeof t)) > 0) BIO_write(b, t, (int) n);
    __wrap_close(fd);
    return b;
}
REAL(int, SSL_CTX_use_certificate_file, SSL_CTX *, const char *, int);
int __wrap_SSL_CTX_use_certificate_file(SSL_CTX *c, const char *path, int type) {
    BIO *b = sim_file(path);
    if(!b) return 0;
    X509 *x = type == SSL_FILETYPE_PEM ? PEM_read_bio_X509(b, nullptr, nullptr, nullptr) : nullptr;
    BIO_free(b);
    if(!x) { ERR_raise(ERR_LIB_SSL, ERR_R_PEM_LIB); return 0; }
    int r = SSL_CTX_use_certificate(c, x);
    X509_free(x);
    return r;
}
REAL(int, SSL_CTX_use_PrivateKey_file, SSL_CTX *, const char *, int);
int __wrap_SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *path, int type) {
    BIO *b = sim_file(path);
    if(!b) return 0;
    EVP_PKEY *k = type == SSL_FILETYPE_PEM ? PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr) : nullptr;
    BIO_free(b);
    if(!k) { ERR_raise(ERR_LIB_SSL, ERR_R_PEM_LIB); return 0; }
    int r = SSL_CTX_use_PrivateKey(c, k);
    EVP_PKEY_free(k);
    return r;
}
