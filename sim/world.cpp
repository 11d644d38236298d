// The simulated machine: event heap, TCP model, file system, signals.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <sys/epoll.h>
#include <unistd.h>

World *W = nullptr;
Result *R = nullptr;
Trace T;

void Trace::log(const char *fmt, ...) {
    if(!out) return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(out, "%10llu ", (unsigned long long) (W ? W->now : 0));
    vfprintf(out, fmt, ap);
    fputc('\n', out);
    fflush(out);
    va_end(ap);
}

int stat_id(const char *name) {
    int i = 0;
    for(; i < MAX_STATS - 1 && R->stat_name[i][0]; i++) if(!strncmp(R->stat_name[i], name, sizeof R->stat_name[i] - 1)) return i;
    strncpy(R->stat_name[i], i == MAX_STATS - 1 ? "probe:others" : name, sizeof R->stat_name[i] - 1);
    return i;
}

void violation(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if(!R->violated) {
        vsnprintf(R->msg, sizeof R->msg, fmt, ap);
        R->violated = 1;
        T.log("VIOLATION %s", R->msg);
    }
    va_end(ap);
}

void finish_run() {
    R->hash = T.h;
    R->shape = T.shape;
    if(W) { R->calls = W->calls; R->sim_us = W->now - 1000000; R->events = W->seq; }
    R->done = 1;
    if(T.out) fflush(T.out);
    _exit(0);
}

void fatal(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if(!R->violated) {
        vsnprintf(R->msg, sizeof R->msg, fmt, ap);
        R->violated = 1;
        T.log("VIOLATION %s", R->msg);
    }
    va_end(ap);
    finish_run();
}

// ------------------------------------------------------------------ plan text
string esc(const string &s) {
    string o;
    char b[8];
    for(unsigned char c : s) {
        if(c > 0x20 && c < 0x7f && c != '%' && c != '=' ) o += (char) c;
        else { snprintf(b, sizeof b, "%%%02x", c); o += b; }
    }
    return o;
}
string unesc(const string &s) {
    string o;
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '%' && i + 2 < s.size()) { o += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += s[i];
    }
    return o;
}
string Plan::text() const {
    string o = "plan prop=" + prop + " seed=" + std::to_string(seed) + "\n";
    for(auto &i : items) {
        o += i.kind;
        for(auto &p : i.kv) o += " " + p.first + "=" + esc(p.second);
        o += "\n";
    }
    return o;
}
bool Plan::parse(const string &t, Plan &out) {
    size_t i = 0;
    bool head = false;
    out.items.clear();
    while(i < t.size()) {
        size_t e = t.find('\n', i);
        if(e == string::npos) e = t.size();
        string line = t.substr(i, e - i);
        i = e + 1;
        if(line.empty() || line[0] == '#') continue;
        Item it;
        size_t p = line.find(' ');
        it.kind = line.substr(0, p);
        while(p != string::npos) {
            size_t q = line.find(' ', p + 1);
            string w = line.substr(p + 1, q == string::npos ? string::npos : q - p - 1);
            size_t eq = w.find('=');
            if(eq != string::npos) it.kv.push_back({w.substr(0, eq), unesc(w.substr(eq + 1))});
            p = q;
        }
        if(it.kind == "plan") { out.prop = it.get("prop"); out.seed = strtoull(it.get("seed").c_str(), nullptr, 10); head = true; }
        else out.items.push_back(it);
    }
    return head;
}
string expand(const string &spec) {
    if(spec.compare(0, 4, "lit:") == 0) return spec.substr(4);
    if(spec.compare(0, 4, "gen:") == 0) {
        size_t c = spec.find(':', 4);
        Rng r(strtoull(spec.c_str() + 4, nullptr, 10));
        size_t n = c == string::npos ? 0 : strtoull(spec.c_str() + c + 1, nullptr, 10);
        string o(n, 0);
        size_t i = 0;
        for(; i + 8 <= n; i += 8) { u64 v = r.next(); memcpy(&o[i], &v, 8); }
        for(; i < n; i++) o[i] = (char) r.next();
        return o;
    }
    if(spec.compare(0, 4, "rep:") == 0) return string(strtoull(spec.c_str() + 6, nullptr, 10), spec[4]);
    return spec;
}

// ------------------------------------------------------------------ time
bool World::run_due() {
    bool any = false;
    while(!heap.empty() && heap.begin()->first.first <= now) {
        auto f = std::move(heap.begin()->second);
        heap.erase(heap.begin());
        f();
        any = true; idle_rounds = 0;
    }
    return any;
}
bool World::advance() {
    if(heap.empty()) return false;
    u64 t = heap.begin()->first.first;
    if(t > now) now = t;
    run_due();
    return true;
}
void World::tick(const char *call) {
    calls++;
    T.u(mix64((u64) call[0] * 131 + call[1])); T.u(now);
    R->hash = T.h; R->shape = T.shape; R->calls = calls; R->sim_us = now - 1000000; R->events = seq;
    if(calls > max_calls) fatal("no progress: %llu system calls in one run (last: %s)", (unsigned long long) calls, call);
    u64 c = 1 + rng.below(cost_max);
    if(stall_pct_x100 && rng.below(10000) < stall_pct_x100) { c += 20000 + rng.below(200000); STAT("fault:server_stall"); }
    now += c;
    run_due();
    if(on_call) on_call(call);
    if(stop_at_call && calls >= stop_at_call && !stopping && server_running && handlers.count(15)) raise_signal(15);
}
int World::inject(const char *call) {
    if(!serving) {
        u64 m = ++start_cnt[call];
        auto a = start_err.find(call);
        if(a != start_err.end() && a->second.count(m)) {
            STAT("fault:startup_error");
            fired[call]++;
            T.log("inject %s #%llu at startup errno=%d", call, (unsigned long long) m, a->second[m]);
            return a->second[m];
        }
    }
    u64 n = ++nth_cnt[call];
    auto i = nth_err.find(call);
    if(i == nth_err.end()) return 0;
    auto j = i->second.find(n);
    if(j == i->second.end()) return 0;
    STAT("fault:syscall_error");
    injected++;
    T.log("inject %s #%llu errno=%d", call, (unsigned long long) n, j->second);
    return j->second;
}
void World::raise_signal(int sig) {
    auto h = handlers.find(sig);
    T.log("signal %d", sig);
    T.u(sig);
    stopping = true;
    eintr_pending = true;
    if(on_stop) { auto f = on_stop; on_stop = nullptr; f(); }
    if(h == handlers.end() || h->second == nullptr) { fatal("killed by signal %d: no handler registered", sig); }
    h->second(sig);
}

// ------------------------------------------------------------------ fds
int World::alloc_fd(FdKind k) {
    if(fds_open >= fd_limit) { STAT("fault:fd_exhausted"); if(!serving) fired["fdlimit"]++; return -1; }
    size_t i = std_model ? 0 : 3;
    while(i < fds.size() && fds[i] && fds[i]->kind != FD_NONE) i++;
    while(fds.size() <= i) fds.emplace_back(nullptr);
    static u64 gen = 0;
    fds[i].reset(new Fd());
    fds[i]->kind = k;
    fds[i]->gen = ++gen;
    fds_open++;
    if(fds_open > fds_peak) fds_peak = fds_open;
    return (int) i;
}
void World::release_fd(int fd) {
    Fd *f = get(fd);
    if(!f) return;
    for(auto &e : fds) if(e && e->kind == FD_EPOLL) e->ep.erase(fd);
    if(f->kind != FD_STD) fds_open--;
    fds[fd].reset(nullptr);
}
Fd *World::listener(int port, bool six) {
    for(auto &f : fds) if(f && f->kind == FD_LISTEN && f->port == port && f->reachable && (f->six == six || (f->six && !f->v6only))) return f.get();
    return nullptr;
}
static int fdno(Fd *f) { for(size_t i = 0; i < W->fds.size(); i++) if(W->fds[i].get() == f) return (int) i; return -1; }

uint32_t World::readiness(int fd) {
    Fd *f = get(fd);
    if(!f) return 0;
    if(f->kind == FD_LISTEN) return f->backlog.empty() ? 0 : EPOLLIN;
    if(f->kind != FD_SOCK) return 0;
    if(!f->w) return EPOLLOUT | EPOLLHUP;
    Wire *w = f->w.get();
    uint32_t r = 0;
    if(!w->rcvq.empty() || w->fin) r |= EPOLLIN;
    if(w->fin) r |= EPOLLRDHUP;
    // as tcp_poll: writable while two thirds or less are used, and a poll that
    // finds the socket not writable asks for the edge when it becomes so
    if(w->sndcap && w->outstanding * 3 <= w->sndcap * 2) r |= EPOLLOUT;
    else w->nospace = true;
    if(w->rst) r |= EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
    else if(w->fin && w->s_shutwr) r |= EPOLLHUP;
    return r;
}
void World::edge(int fd, uint32_t ev) {
    for(auto &e : fds) {
        if(!e || e->kind != FD_EPOLL) continue;
        auto i = e->ep.find(fd);
        if(i == e->ep.end()) continue;
        if((i->second.events | EPOLLERR | EPOLLHUP) & ev) i->second.ready = true;
    }
}

// ------------------------------------------------------------------ network
int World::connect_client(Actor *a, u64 lat, size_t sndcap, size_t rcvcap, WireP &out, bool six) {
    Fd *l = listener(listen_port, six);
    if(!l) return ECONNREFUSED;
    if(l->backlog.size() >= 256) return ETIMEDOUT;
    out = std::make_shared<Wire>();
    out->id = (int) wires.size();
    out->six = six;
    out->peer = a; out->lat = lat; out->sndcap = sndcap; out->rcvcap = rcvcap;
    wires.push_back(out);
    l->backlog.push_back(out);
    edge(fdno(l), EPOLLIN);
    T.u(0xc0); T.u(out->id);
    T.log("peer: connection %d arrives", out->id);
    return 0;
}
void World::deliver(Wire *w) {
    bool got = false;
    while(!w->inflight.empty() && w->rcvq.size() < w->rcvcap) {
        string &b = w->inflight.front();
        size_t n = std::min(b.size(), w->rcvcap - w->rcvq.size());
        w->rcvq.append(b, 0, n);
        w->bytes_in += n;
        got = true;
        if(n == b.size()) w->inflight.pop_front(); else b.erase(0, n);
    }
    if(w->inflight.empty() && w->fin_inflight && !w->fin) { w->fin = true; got = true; }
    if(got && w->fd >= 0) edge(w->fd, EPOLLIN);
}
void World::p_send(Wire *w, const string &b) {
    if(w->rst || w->p_closed || b.empty()) return;
    u64 t = std::max(now + w->lat, w->p2s_busy);
    w->p2s_busy = t;
    WireP keep = wires[w->id];
    at_abs(t, [this, keep, b]() {
        if(keep->rst) return;
        if(keep->s_closed) { // data to a closed socket: the server's kernel answers with RST
            keep->rst = true;
            WireP k = keep;
            at(keep->lat, [k]() { if(k->peer) k->peer->on_server_rst(k.get()); });
            return;
        }
        for(size_t i = 0; i < b.size(); i += 65536) keep->inflight.push_back(b.substr(i, 65536)); // (only so that taking from it stays cheap)
        T.u(0xd0); T.u(keep->id); T.data(b.data(), b.size());
        T.log("net: %zu bytes reach server on connection %d", b.size(), keep->id);
        deliver(keep.get());
    });
}
void World::p_fin(Wire *w) {
    if(w->rst || w->fin_inflight) return;
    u64 t = std::max(now + w->lat, w->p2s_busy);
    w->p2s_busy = t;
    WireP keep = wires[w->id];
    at_abs(t, [this, keep]() {
        if(keep->rst) return;
        keep->fin_inflight = true;
        T.u(0xf1); T.u(keep->id);
        T.log("net: FIN reaches server on connection %d", keep->id);
        deliver(keep.get());
    });
}
void World::p_close(Wire *w) {
    if(w->p_closed) return;
    p_fin(w);
    w->p_closed = true;
}
// the kernel ends a connection whose peer does not answer any more: after the
// last retransmission, or an idle one after the last keepalive probe
void World::give_up(const WireP &keep, u64 t, bool idle) {
    at(t, [this, keep, idle]() {
        if(keep->rst || keep->s_closed || (idle && !keep->keepalive)) return;
        keep->rst = true;
        keep->rst_err = ETIMEDOUT;
        keep->rcvq.clear();
        keep->inflight.clear();
        T.u(0xf7); T.u(keep->id);
        T.log("net: connection %d times out", keep->id);
        if(keep->fd >= 0) edge(keep->fd, EPOLLIN | EPOLLERR | EPOLLHUP);
    });
}
void World::p_vanish(Wire *w) {
    if(w->p_closed || w->rst) return;
    w->p_closed = w->vanished = true;
    WireP keep = wires[w->id];
    if(w->outstanding || w->nospace) give_up(keep, 924 * 1000000ULL, false);
    give_up(keep, 7875 * 1000000ULL, true);
}
void World::p_rst(Wire *w) {
    if(w->p_closed && w->rst) return;
    w->p_closed = true;
    u64 t = std::max(now + w->lat, w->p2s_busy);
    w->p2s_busy = t;
    WireP keep = wires[w->id];
    at_abs(t, [this, keep]() {
        if(keep->rst) return;
        keep->rst = true;
        keep->rcvq.clear();
        keep->inflight.clear();
        T.u(0xf2); T.u(keep->id);
        T.log("net: RST reaches server on connection %d", keep->id);
        if(keep->fd >= 0) edge(keep->fd, EPOLLIN | EPOLLERR | EPOLLHUP);
    });
}
void World::p_consumed(Wire *w, size_t n) {
    if(n > w->outstanding) n = w->outstanding;
    w->outstanding -= n;
    if(w->nospace && w->outstanding * 3 <= w->sndcap * 2) {
        w->nospace = false;
        if(w->fd >= 0) edge(w->fd, EPOLLOUT);
    }
}

// ------------------------------------------------------------------ files
string normpath(const string &p) {
    vector<string> parts;
    size_t i = 0;
    string path = p.empty() || p[0] != '/' ? (W ? W->cwd : string("/cwd")) + "/" + p : p;
    while(i < path.size()) {
        size_t e = path.find('/', i);
        if(e == string::npos) e = path.size();
        string c = path.substr(i, e - i);
        i = e + 1;
        if(c.empty() || c == ".") continue;
        if(c == "..") { if(!parts.empty()) parts.pop_back(); continue; }
        parts.push_back(c);
    }
    string o;
    for(auto &c : parts) o += "/" + c;
    return o.empty() ? "/" : o;
}
void World::mkdirs(const string &p) {
    string path = normpath(p);
    while(true) {
        auto &n = fs[path];
        if(!n) { n = std::make_shared<Node>(); n->dir = true; }
        if(path == "/") break;
        size_t s = path.rfind('/');
        path = s == 0 ? "/" : path.substr(0, s);
    }
}
void World::mkfile(const string &p, const string &data, i64 mtime) {
    string path = normpath(p);
    size_t s = path.rfind('/');
    mkdirs(s == 0 ? "/" : path.substr(0, s));
    auto n = std::make_shared<Node>();
    n->data = data;
    n->mtime = mtime;
    fs[path] = n;
}
