// HTTP actors (clients and upstream servers) and the reference model.
#pragma once
#include "sim.h"
#include "tls.h"

struct Resp {
    int status = 0;
    string reason, version;
    vector<std::pair<string, string>> headers;
    string body;
    bool keep = false;          // "Connection: keep-alive" announced
    bool eof_framed = false, chunked = false;
    const string *h(const string &n) const;
};
struct Req {
    Item it;
    string method = "GET", target = "/", version = "HTTP/1.1", body, wire;
    bool ka = true, raw = false;
    int idx = 0;
    u64 sent_at = 0;
    bool sent = false;
    string inm;                 // If-None-Match value actually sent
    string hdr(const string &n) const;          // header carried by the request ("" when absent)
    vector<std::pair<string, string>> headers;
};

// Incremental strict response parser
struct RespParser {
    string buf;
    bool have_head = false;
    Resp cur;
    size_t need = 0, hdr_len = 0, at = 0;  // (chunks are decoded up to at)
    bool no_body = false;
    // returns 1: a response completed (moved to out), 0: more bytes needed, -1: malformed (err set)
    int feed(Resp &out, bool head_method, string &err);
    // connection ended: completes an EOF framed response
    int eof(Resp &out);
    size_t pending() const { return buf.size(); }
};

struct Client;
struct Srv;                     // one server run
struct Client : Actor {
    Srv *srv = nullptr;
    int id = 0;
    Item it;
    vector<Req> reqs;
    WireP w;
    Rng rng{1};
    RespParser rp;
    vector<Resp> resps;
    size_t next_req = 0;
    u64 rx = 0, tx = 0;
    string rxlog;
    bool started = false, refused = false;
    bool aborted = false;         // the peer itself gave up: nothing is owed any more
    bool lenient = false;         // framing no longer checked (malformed request sent, fault hit)
    bool fin_seen = false, rst_seen = false, closed = false, stalled = false;
    bool close_due = false;       // a response announced Connection: close
    u64 last_rx = 0;
    void start();
    void send_next();
    void send_bytes(const string &b, std::function<void()> after);
    void wire_send(const string &b, std::function<void()> after);
    std::unique_ptr<TlsPeer> tls;
    std::function<void()> tls_after;
    u64 tx_free = 0;              // segments already scheduled leave before the next ones
    bool intruder = false;        // speaks no TLS to a TLS port: may get nothing but an alert and a close
    string seen;                  // the first bytes such a peer receives
    void finish();                // end of conversation from the client side
    void do_abort(const string &how);
    void on_connected(Wire *) override;
    void on_data(Wire *, const string &) override;
    void on_server_fin(Wire *) override;
    void on_server_rst(Wire *) override;
    i64 consume_delay(Wire *, size_t n) override;
    bool satisfied() const;       // nothing more is owed to this client
    string describe() const;
    void parse();
    void resume();
    vector<size_t> unconsumed;
};

struct UConn {
    WireP w;
    string rx;
    int served = 0;
    Rng rng{1};
    bool dead = false, junked = false;
    u64 got = 0, taken = 0;
};
struct UReq { string method, target, version, body, head; vector<std::pair<string, string>> headers; u64 at; string hdr(const string &) const; };
struct Upstream : Actor {
    Srv *srv = nullptr;
    Item it;
    int port = 0;
    std::map<int, UConn> conns;
    vector<UReq> reqs;
    vector<Item> resps;           // uresp items of this upstream
    bool accept_conn(Wire *, int &err, u64 &delay) override;
    void on_data(Wire *, const string &) override;
    i64 consume_delay(Wire *, size_t) override;
    void on_server_fin(Wire *) override;
    void on_server_rst(Wire *) override;
    void reply(int conn, const UReq &r);
    const Item *resp_for(const UReq &r) const;
    void check_request(const UReq &r);
};
// the bytes an upstream answers with, and what a correct client sees in them
struct UBytes { string bytes, body, version; size_t head = 0; int status = 200; vector<std::pair<string, string>> headers; bool close = false, eof = false, malformed = false, complete = true; };
UBytes upstream_bytes(const Item &u, const string &method, const string &version, const string &conn);
// one proxied exchange, identified by the X-Tag header of its request
struct Exch { Client *c = nullptr; size_t idx = 0; Item u{"uresp"}; int seen = 0; bool done = false; string why; };

struct Loc { string name, path, handler, base_path, auth_basic, auth_file, proxy_pass; bool auth_faulty = false; };

struct Srv {
    Plan plan;
    vector<std::unique_ptr<Client>> clients;
    vector<std::unique_ptr<Upstream>> ups;
    vector<Loc> locs;
    std::map<string, string> general;
    string handler = "file";
    std::set<string> etags_seen;
    std::map<string, string> etag_of;      // path|mtime -> etag
    bool exited = false;
    int exit_code = 0;
    bool strict = true;                    // responses owed to every live client
    bool expect_exit0 = true;
    bool check_fds_at_exit = true;
    std::function<void(Client &, Req &, Resp &)> on_response;   // scenario specific check (after the model)
    std::function<bool()> on_quiet;        // called at quiescence; true: new work was started
    std::function<void()> at_end;          // after the server has exited
    std::function<bool(Client &, Req &, Resp &)> override_check; // true: response judged by the scenario
    std::function<bool(Client &, Req &)> may_cut;   // the server may end the connection instead of (completely) answering
    std::map<string, Exch> exch;                     // tag -> proxied exchange
    bool proxy_502 = false;                          // resource faults are injected: any proxied request may fail
    string may_502(Client &c, Req &q);               // reason why a 502 is legitimate ("": it is not)
    string may_break(Client &c, Req &q);             // ... why the response may be cut short
    bool may_hang(const Client &c, const Req &q);
    void check_proxied(Client &c, Req &q, Resp &r, const struct Route &rt);
    std::map<string, vector<string>> versions;      // every content a changed file has had
    int phase = 0, phases = 0;             // client/fault items carry phase=<n>: started at the n-th quiescence
    std::function<void(int)> on_phase;     // a phase ended (everything quiet, clients of the phase closed)
    std::set<string> mutated;              // files changed during the run: content judged by the scenario
    bool model_on = true;
    bool hostile = false;                  // clients send arbitrary bytes: what reaches an upstream can not be attributed
    explicit Srv(const Plan &p) : plan(p) {}
    void setup();                          // build the world from the plan
    void run();                            // run the server to its exit and do the common checks
    void check_response(Client &c, Req &q, Resp &r);
    void quiescent_checks();
    Client *add_client(const Item &it, const vector<Item> &reqs);
    void start_clients();
    bool draining = false;
    bool tls = false;                      // the server listens with TLS
    bool six = false;                      // ... on IPv6 as well
    void fs_op(const Item &i);
    void next_phase();
};
extern Srv *S;

// reference model helpers
string pct_decode(const string &s);
struct Route { const Loc *loc = nullptr; string handler; string path, npath, base, fs_path, virt; bool contained = true, bad = false, dotdot = false; };
Route route(const Srv &s, const Req &q);
bool credentials_ok(const Loc &l, const string &authorization);
string b64(const string &s);
struct RangeX { bool valid = false, satisfiable = false, huge = false; u64 a = 0, b = 0; };
RangeX parse_range(const string &v, u64 size);
Req make_req(const Item &it);

// The same load again and again: a plan holds one round of it.
struct Rounds {
    enum { MAX = 8 };
    static Plan expand(const Plan &p, int n, bool untagged = true);   // untagged: responses without a tag are repeated too
    static int of(const Plan &p) { for(auto &i : p.items) if(i.kind == "rounds") return std::max(1, (int) std::min<i64>(i.num("n", MAX), MAX)); return 1; }
    void phase(Srv &s, int k);                                        // to be called when a round has ended
    HeapStat h[MAX];
    std::map<u64, std::pair<i64, i64>> sites[MAX];
};
