// Deterministic simulator for hivesolutions/viriatum: common declarations.
//
// One process = one simulated machine.  The real server (every C source of the
// shipped binary) runs unmodified; every libc entry point through which it can
// observe time, network, disk, signals, processes or threads is replaced at
// link time (-Wl,--wrap=...) by the functions of seams.cpp, which act on the
// simulated kernel declared here.  Peers (clients, upstream servers) are actors
// living inside the simulator.  All decisions derive from the plan (see Plan).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <functional>
#include <deque>

typedef uint64_t u64;
typedef int64_t i64;
using std::string;
using std::vector;

// ---------------------------------------------------------------- randomness
static inline u64 mix64(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
static inline u64 mix2(u64 a, u64 b) { return mix64(a ^ mix64(b + 0x632be59bd9b4e019ULL)); }
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return b <= a ? a : a + (i64) below((u64) (b - a + 1)); }
    bool pct(unsigned p) { return below(100) < p; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plans
// A plan is the complete, explicit, textual description of one run: the
// machine configuration, files, peers, requests and faults.  Generators build
// plans from a seed; the replay file is a plan.  Optional keys are knobs whose
// absence means "benign", so the minimiser can drop items and keys.
struct Item {
    string kind;
    vector<std::pair<string, string>> kv;
    Item() {}
    explicit Item(const string &k) : kind(k) {}
    bool has(const string &k) const { for(auto &p : kv) if(p.first == k) return true; return false; }
    string get(const string &k, const string &d = "") const { for(auto &p : kv) if(p.first == k) return p.second; return d; }
    i64 num(const string &k, i64 d = 0) const { for(auto &p : kv) if(p.first == k) return strtoll(p.second.c_str(), nullptr, 10); return d; }
    Item &set(const string &k, const string &v) { for(auto &p : kv) if(p.first == k) { p.second = v; return *this; } kv.push_back({k, v}); return *this; }
    Item &set(const string &k, i64 v) { return set(k, std::to_string(v)); }
    Item &set(const string &k, const char *v) { return set(k, string(v)); }
    void del(const string &k) { for(size_t i = 0; i < kv.size(); i++) if(kv[i].first == k) { kv.erase(kv.begin() + i); return; } }
};
struct Plan {
    string prop;
    u64 seed = 0;
    std::deque<Item> items;          // references stay valid while items are added
    Item &add(const string &kind) { items.emplace_back(kind); return items.back(); }
    const Item *find(const string &kind) const { for(auto &i : items) if(i.kind == kind) return &i; return nullptr; }
    string text() const;
    static bool parse(const string &text, Plan &out);
};
string esc(const string &s);
string unesc(const string &s);
// content specifications: "lit:<text>" or "gen:<seed>:<len>" or "rep:<c>:<len>"
string expand(const string &spec);

// ---------------------------------------------------------------- results
enum { MAX_STATS = 96 };
struct Result {            // lives in shared memory, plain data only
    int done;              // child reached the end of the simulation
    int violated;
    u64 hash;              // hash over every seam event including data
    u64 shape;             // hash over the sequence of seam kinds/fds/result classes
    u64 calls, sim_us, events, reqs, resps, nontrivial;
    u64 stats[MAX_STATS];
    char stat_name[MAX_STATS][48];
    char msg[2048];
};
extern Result *R;

// counters for injected faults and rare-path probes
int stat_id(const char *name);
#define STAT(name) do { static int _sid = stat_id(name); R->stats[_sid]++; } while(0)
#define STATN(name, n) do { static int _sid = stat_id(name); R->stats[_sid] += (n); } while(0)

[[noreturn]] void finish_run();
void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void fatal(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));

// ---------------------------------------------------------------- trace
struct Trace {
    u64 h = 1469598103934665603ULL, shape = 1469598103934665603ULL;
    FILE *out = nullptr;   // verbose text trace for humans (replay -v)
    void raw(u64 &d, const void *p, size_t n) { const unsigned char *c = (const unsigned char *) p; for(size_t i = 0; i < n; i++) { d ^= c[i]; d *= 1099511628211ULL; } }
    void u(u64 v) { raw(h, &v, sizeof v); }
    void sh(u64 v) { raw(shape, &v, sizeof v); }
    void data(const void *p, size_t n) { raw(h, p, n); }
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};
extern Trace T;

// ---------------------------------------------------------------- kernel
struct Node {               // file system node
    bool dir = false;
    string data;
    i64 mtime = 1500000000;
    int open_err = 0;       // errno on open
    i64 eio_off = -1;       // reads touching this offset or beyond fail with EIO
    i64 write_cap = -1;     // writes beyond this size fail with ENOSPC
    int reads = 0;
};
typedef std::shared_ptr<Node> NodeP;

struct Actor;
enum FdKind { FD_NONE, FD_LISTEN, FD_SOCK, FD_EPOLL, FD_FILE, FD_DIR, FD_STD };

struct Sock;
struct Wire;                 // one simulated TCP connection
struct EpItem { int fd; u64 gen; uint32_t events; u64 data; bool ready; };

struct Fd {
    FdKind kind = FD_NONE;
    u64 gen = 0;
    bool nonblock = false;
    // sockets
    std::shared_ptr<Wire> w;         // connected stream
    int role = 0;                    // 0: accepted (peer is a client), 1: connected (peer is an upstream)
    bool bound = false; int port = 0; string addr;
    bool six = false, v6only = false, reuse = false, keepalive = false, reachable = true;
    std::deque<std::shared_ptr<Wire>> backlog;
    // epoll
    std::map<int, EpItem> ep;
    // file
    NodeP node; size_t pos = 0; bool wr = false, app = false; string path;
};

// A simulated TCP connection between the server process ("S") and a peer ("P").
struct Wire {
    int id = 0;
    Actor *peer = nullptr;
    int fd = -1;                     // server side descriptor, -1: not accepted/closed
    bool six = false;                // IPv6 peer
    // peer -> server
    string rcvq;                     // delivered, readable by the server
    std::deque<string> inflight;     // waiting for space in the receive queue
    bool fin_inflight = false, fin = false;
    size_t rcvcap = 65536;
    // server -> peer
    size_t sndcap = 65536, outstanding = 0;
    bool nospace = false;
    bool rst = false;                // connection reset (seen by the server)
    bool rst_reported = false;
    bool vanished = false;           // the peer is gone without a word: nothing is acknowledged any more
    bool keepalive = false;          // the server's kernel probes an idle peer
    int rst_err = 104;               // what the server is told: ECONNRESET, ETIMEDOUT
    bool net_abort = false;          // aborted before the server accepted it
    bool s_closed = false;           // server closed its end
    bool choked = false;             // the latest send found too little room
    bool tight_close = false;        // no room for another message when the server closed its end
    bool s_shutwr = false;
    bool p_closed = false;           // peer closed completely: data towards it triggers RST
    u64 lat = 0;                     // per direction latency (us)
    u64 s2p_busy = 0, p2s_busy = 0;  // FIFO ordering of deliveries
    u64 bytes_in = 0, bytes_out = 0;
    // what the peer has promised to send, and for the bytes sent by the server
    // whether something promised was still unread at that moment
    u64 promised = 0;
    std::map<u64, bool> unread_at;
};
typedef std::shared_ptr<Wire> WireP;

struct Actor {
    virtual ~Actor() {}
    virtual void on_connected(Wire *) {}
    virtual void on_data(Wire *, const string &) {}   // bytes arrived at the peer
    virtual void on_server_fin(Wire *) {}             // orderly close seen by the peer
    virtual void on_server_rst(Wire *) {}
    // returns how many microseconds the peer takes to consume n bytes; -1: stalled
    virtual i64 consume_delay(Wire *, size_t) { return 0; }
    virtual bool accept_conn(Wire *, int &err, u64 &delay) { err = 0; delay = 0; return true; }
};

struct World {
    Plan plan;
    Rng rng;                         // kernel level choices
    u64 now = 1000000;               // simulated microseconds
    i64 wall_off = 1600000000LL * 1000000; // wall clock = now + wall_off (jumps change it)
    u64 seq = 0, calls = 0, max_calls = 400000;
    bool no_dtype = false;                 // the file system does not tell the kind of directory entries
    std::multimap<std::pair<u64, u64>, std::function<void()>> heap;
    vector<std::unique_ptr<Fd>> fds;
    int fd_limit = 1000000;          // simulated RLIMIT_NOFILE
    int fds_open = 0, fds_peak = 0;
    std::map<string, NodeP> fs;      // absolute normalised path -> node
    vector<string> fs_log;           // every path opened (normalised)
    std::map<int, void (*)(int)> handlers;
    vector<WireP> wires;
    std::map<int, Actor *> upstreams; // port -> actor
    std::set<string> hosts;           // resolvable names
    vector<std::unique_ptr<Actor>> actors;
    bool stopping = false;            // shutdown signal raised
    u64 stop_at_call = 0;
    int idle_waits = 0;
    bool eintr_pending = false;
    bool serving = false;            // the server reached its event loop
    bool timer_check = false, timer_woke = false;   // the last wait ended by its timeout
    int idle_rounds = 0;             // waits that timed out since something last happened
    u64 last_progress_call = 0;
    unsigned cost_max = 20;           // per call cost in us
    unsigned stall_pct_x100 = 0;      // chance (1/10000) of a long stall at a call
    std::function<bool()> on_idle;    // called when nothing is left to happen; returns false when finished
    std::function<void()> on_stop;    // invoked right before the stop signal
    std::function<void(const char *)> on_call; // each seam call (fault points)
    // injected one shot/periodic errors: name -> list of (nth call counting from 1, errno)
    std::map<string, std::map<u64, int>> nth_err;
    std::map<string, u64> nth_cnt;
    std::map<string, std::map<u64, int>> start_err;  // the same, while the server starts
    std::map<string, u64> start_cnt;
    u64 injected = 0;                // errors of single calls returned while serving
    std::map<string, u64> fired;      // injected errors that were really returned, by call
    bool port_timewait = false;       // connections of an earlier server still linger on the port
    bool trace_cfg = false;
    bool server_running = false;
    int listen_port = 0;
    // the process: what fork() returns to it (-1: it fails), its id, session, directory and standard streams
    // other processes: what fork() returns by its number, the ones that were started, connections they take
    struct Child { int pid = 0; bool told = false, reaped = false; u64 end = 0; };
    std::vector<Child> children;
    std::function<int(int)> fork_fn;
    std::function<bool(const WireP &)> taken;
    u64 child_end = 0;       // how long a worker takes to end once it is told to
    string proc_name;
    int fork_result = -1, pid = 4242, forks = 0, sessions = 0;
    bool std_model = false;
    string cwd = "/cwd";
    string listen_on, listen_on6;    // address:port of the listeners, as bound
    unsigned short_read_pct = 0;
    unsigned subset_pct = 0;          // epoll_wait returns only some of the ready events
    unsigned eintr_pct = 0;

    void at(u64 delay, std::function<void()> f) { heap.insert({{now + delay, seq++}, std::move(f)}); }
    void at_abs(u64 t, std::function<void()> f) { heap.insert({{t < now ? now : t, seq++}, std::move(f)}); }
    bool run_due();                   // run events due at `now`
    bool advance();                   // jump to the next event and run what is due
    void tick(const char *call);      // account one seam call
    int inject(const char *call);     // nth-call error injection: errno or 0
    int alloc_fd(FdKind k);           // -1 when the limit is hit
    Fd *get(int fd) { return fd >= 0 && (size_t) fd < fds.size() && fds[fd] && fds[fd]->kind != FD_NONE ? fds[fd].get() : nullptr; }
    void release_fd(int fd);
    void raise_signal(int sig);
    // network
    int connect_client(Actor *a, u64 lat, size_t sndcap, size_t rcvcap, WireP &out, bool six = false); // SYN arrives at the listener
    void p_send(Wire *w, const string &b);   // peer sends bytes now (delivered after latency)
    void p_fin(Wire *w);                     // peer half close
    void p_close(Wire *w);                   // peer close()
    void p_vanish(Wire *w);                  // peer loses its power or its network for good
    void give_up(const std::shared_ptr<Wire> &w, u64 t, bool idle);
    void p_rst(Wire *w);                     // peer reset
    void p_consumed(Wire *w, size_t n);      // peer consumed n bytes
    void deliver(Wire *w);                   // move inflight bytes to rcvq
    void edge(int fd, uint32_t ev);          // readiness edge
    uint32_t readiness(int fd);
    Fd *listener(int port, bool six = false);
    // fs
    NodeP lookup(const string &p) { auto i = fs.find(p); return i == fs.end() ? nullptr : i->second; }
    void mkfile(const string &path, const string &data, i64 mtime = 1500000000);
    void mkdirs(const string &path);
};
extern World *W;
string normpath(const string &p);

// heap accounting of the code under test
struct HeapStat { u64 live_blocks, live_bytes; };
HeapStat heap_stat();
extern bool heap_track, heap_stale;
extern i64 heap_budget;
string heap_top(const std::map<u64, std::pair<i64, i64>> &before, const std::map<u64, std::pair<i64, i64>> &after);
std::map<u64, std::pair<i64, i64>> heap_sites(); // call site -> (blocks, bytes)
int open_streams();      // FILE* / DIR* currently open by the server
string open_fd_list();

// ---------------------------------------------------------------- scenarios
struct Scenario {
    const char *prop;
    const char *what;
    void (*gen)(Plan &, Rng &, bool thorough);
    void (*run)(const Plan &);        // executes inside the child; reports through violation()
};
extern vector<Scenario> &scenarios();
struct RegScenario { RegScenario(const Scenario &s) { scenarios().push_back(s); } };
