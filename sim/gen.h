// Plan generation helpers shared by the scenarios (swarm style: every run
// draws its own mix of speeds, segment sizes and fault kinds).
#pragma once
#include "http.h"
#include <cerrno>
#include <algorithm>

static inline void swarm_cfg(Plan &p, Rng &r) {
    Item &c = p.add("cfg");
    c.set("cost", r.pct(50) ? r.range(1, 40) : r.range(1, 400));
    if(r.pct(30)) c.set("stall", r.range(5, 300));
    if(r.pct(40)) c.set("short_read", r.range(5, 90));
    if(r.pct(40)) c.set("subset", r.range(10, 90));
    if(r.pct(20)) c.set("eintr", r.range(1, 20));
    if(r.pct(25)) c.set("stale", 1);
    if(r.pct(25)) c.set("args", r.pct(50) ? "--port=9191" : "--host=127.0.0.1");
}
static inline i64 pick_size(Rng &r, i64 max) {
    switch(r.below(8)) {
        case 0: return r.range(0, 2);
        case 1: { static const i64 e[] = {1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 10239, 10240, 10241, 16384, 65535, 65536, 65537, 131072, 131073}; i64 v = e[r.below(18)]; return v > max ? r.range(1, max) : v; }
        case 2: return r.range(1, max);
        case 3: return r.range(1, std::min(max, (i64) 200000));
        default: return r.range(1, std::min(max, (i64) 6000));
    }
}
static inline Item &add_file(Plan &p, Rng &r, const string &path, i64 max) {
    return p.add("file").set("path", path).set("data", "gen:" + std::to_string(r.below(1000000)) + ":" + std::to_string(pick_size(r, max))).set("mtime", 1400000000 + (i64) r.below(100000000));
}
// a client with a network personality
static inline Item &add_client(Plan &p, Rng &r, int id) {
    Item &c = p.add("client");
    c.set("id", id);
    c.set("t", r.pct(50) ? r.range(0, 500) : r.range(0, 20000));
    c.set("lat", r.pct(50) ? r.range(1, 100) : r.range(1, 40000));
    if(r.pct(50)) c.set("snd", r.pct(30) ? r.range(1, 64) * 16 : r.range(1, 64) * 1024);
    if(r.pct(20)) c.set("rcv", r.range(16, 2000));
    if(r.pct(60)) c.set("seg", r.pct(30) ? 1 : r.pct(50) ? r.range(2, 20) : r.range(20, 2000));
    if(c.has("seg") && r.pct(70)) c.set("gap", r.pct(50) ? r.range(1, 200) : r.range(200, 30000));
    if(r.pct(30)) c.set("rate", r.range(1, 2000));
    if(r.pct(30)) c.set("think", r.range(1, 20000));
    return c;
}
static inline Item &add_req(Plan &p, int c, const string &path, const string &m = "GET") { return p.add("req").set("c", c).set("m", m).set("p", path); }
static inline string word(Rng &r, int n) { static const char *a = "abcdefghijklmnopqrstuvwxyz0123456789"; string o; for(int i = 0; i < n; i++) o += a[r.below(36)]; return o; }
// an extension: none, one with a media type (sometimes in capitals) or one without
static inline string pick_ext(Rng &r) {
    static const char *ext[] = {
#include "mime_ext.inc"
    };
    static const char *odd[] = {".bin2", ".tar.gz", ".verylongextensionnobodyuses", ".", ".htmlx", ".htm.l", ".j", ".x.css", ".css.", "..png"};
    if(r.pct(30)) return "";
    if(r.pct(20)) return odd[r.below(10)];
    string e = ext[r.below(sizeof ext / sizeof *ext)];
    if(r.pct(25)) for(auto &c : e) if(r.pct(60)) c = (char) toupper(c);
    return e;
}
// headers without meaning for the server
// a name that almost is one the server obeys, with a value it would obey
static inline string near_header(Rng &r) {
    static const struct { const char *n; const char *v[4]; } t[] = {
        {"Connection", {"close", "keep-alive", "upgrade", "Close"}}, {"Content-Length", {"7", "0", "99999", "x"}}, {"Transfer-Encoding", {"chunked", "gzip", "identity", "cow"}},
        {"Upgrade", {"websocket", "h2c", "TLS/1.0", "x"}}, {"Range", {"bytes=0-1", "bytes=-1", "bytes=5-", "bytes=9999999-"}}, {"If-None-Match", {"*", "\"x\"", "W/\"x\"", "0"}},
        {"Authorization", {"Basic Og==", "Basic cm9vdDpyb290", "Bearer x", "Basic"}}, {"Host", {"nowhere", "b.example", "x:1", ""}}, {"Proxy-Connection", {"close", "keep-alive", "x", "Close"}}};
    auto &k = t[r.below(9)];
    string n = k.n;
    size_t at = r.below(n.size());
    auto other = [&](char c) { char o; do o = (char) ('a' + r.below(26)); while(o == tolower(c)); return o; };
    switch(r.below(8)) {
        case 0: n += "-" + word(r, (int) r.range(1, 8)); break;
        case 1: n += word(r, (int) r.range(1, 3)); break;
        case 2: n = "X-" + n; break;
        case 3: n = word(r, 1) + n; break;
        case 4: n.pop_back(); break;
        case 5: n[at] = other(n[at]); break;
        case 6: n.insert(at, 1, other(n[at])); break;
        default: { size_t d = n.find('-'); if(d == string::npos) n += "_"; else n[d] = r.pct(50) ? '_' : '.'; }
    }
    int how = (int) r.below(3);
    for(auto &c : n) if(how == 0) c = (char) tolower(c); else if(how == 1) c = (char) toupper(c);
    return n + ": " + k.v[r.below(4)];
}
static inline void noise_headers(Item &q, Rng &r) {
    int n = (int) r.below(4);
    for(int i = 0; i < n; i++) {
        static const char *names[] = {"User-Agent", "Accept", "accept-language", "X-Forwarded-For", "Cookie", "X", "Cache-Control", "Pragma", "If-Match-X", "Via"};
        string h = "h" + std::to_string(i + 1);
        if(r.pct(35)) { q.set(h, near_header(r)); continue; }
        int len = r.pct(90) ? (int) r.range(1, 60) : (int) r.range(60, 900);
        string v = word(r, len);
        if(r.pct(30)) for(auto &c : v) if(r.pct(50)) c = r.pct(90) ? (char) r.range(33, 126) : (char) r.range(128, 255);
        if(r.pct(20) && len > 2) v[1 + r.below((u64) len - 2)] = r.pct(80) ? ' ' : '\t';
        q.set(h, string(names[r.below(10)]) + ": " + v);
    }
}
static inline void use_handler(Plan &p, Rng &r) { if(r.pct(40)) p.add("gen").set("key", "handler").set("val", "file"); }
static inline void std_run(const Plan &p) { Srv s(p); s.setup(); s.run(); }

// A web site with a bit of everything the file handler knows: files in
// directories, redirects, listings, index files, absent names, protected and
// aliased locations; and requests drawn over all of it.
struct Site { vector<string> files, others, secrets; string cred; };
static inline Site rich_site(Plan &p, Rng &r, i64 max, bool locations = true, bool index = true) {
    Site s;
    bool file_only = !locations || r.pct(35);
    if(file_only) p.add("gen").set("key", "handler").set("val", "file");
    else if(index && r.pct(30)) p.add("gen").set("key", "index").set("val", r.pct(50) ? "index.html" : "home.htm index.html");
    int nf = (int) r.range(1, 4);
    for(int i = 0; i < nf; i++) { string n = "/f" + std::to_string(i) + (r.pct(30) ? ".html" : ""); add_file(p, r, "/www" + n, r.pct(40) ? max : std::min(max, (i64) 8000)); s.files.push_back(n); }
    if(r.pct(60)) {
        add_file(p, r, "/www/sub/g", std::min(max, (i64) 20000)); s.files.push_back("/sub/g");
        s.others.push_back("/sub"); s.others.push_back("/sub/");
        if(r.pct(30)) add_file(p, r, "/www/sub/index.html", 3000);
        if(r.pct(30)) { p.add("dir").set("path", "/www/sub/deeper"); s.others.push_back("/sub/deeper"); s.others.push_back("/sub/deeper/"); }
    }
    s.others.push_back("/");
    s.others.push_back("/absent" + word(r, (int) r.range(0, 30)));
    if(!file_only) {
        if(r.pct(60)) {
            string u = word(r, 5), w = word(r, 8);
            p.add("loc").set("name", "vault").set("path", "^/vault/").set("auth_basic", "Realm").set("auth_file", "/conf/passwd");
            p.add("file").set("path", "/conf/passwd").set("data", "lit:x:y\n" + u + ":" + w + "\n");
            add_file(p, r, "/www/vault/v0", std::min(max, (i64) 9000));
            s.secrets.push_back("/vault/v0"); s.secrets.push_back("/vault/");
            s.cred = "Basic " + b64(u + ":" + w);
        }
        if(r.pct(50)) {
            p.add("loc").set("name", "al").set("path", "^/al/").set("base_path", "/data");
            add_file(p, r, "/data/a0", max); s.files.push_back("/al/a0");
            p.add("dir").set("path", "/data/in"); s.others.push_back("/al/in"); s.others.push_back("/al/none");
        }
        if(r.pct(30)) { p.add("loc").set("name", "hello").set("path", "^/hello").set("handler", "default"); s.others.push_back("/hello"); }
    }
    return s;
}
static inline Item &rich_req(Plan &p, Rng &r, int c, const Site &s, bool last, bool may_close = true) {
    string path; bool secret = false;
    if(!s.secrets.empty() && r.pct(20)) { path = r.pick(s.secrets); secret = true; }
    else path = r.pct(65) ? r.pick(s.files) : r.pick(s.others);
    if(r.pct(12)) path += "?" + word(r, (int) r.range(1, 30));
    Item &q = add_req(p, c, path, r.pct(78) ? "GET" : r.pct(50) ? "HEAD" : "POST");
    if(q.get("m") == "POST") q.set("body", "gen:" + std::to_string(r.below(1000)) + ":" + std::to_string(pick_size(r, 5000)));
    if(secret && r.pct(60)) q.set("auth", r.pct(80) ? s.cred : "Basic " + b64("x:z"));
    if(r.pct(15)) q.set("range", "bytes=" + std::to_string(r.range(0, 3000)) + "-" + (r.pct(50) ? std::to_string(r.range(3000, 9000)) : ""));
    if(r.pct(12)) q.set("inm", r.pct(70) ? "last" : "any");
    if(r.pct(12)) q.set("v", "HTTP/1.0");
    if(may_close && (last ? r.pct(35) : r.pct(4))) q.set("conn", r.pct(65) ? "close" : "none");
    if(r.pct(40)) noise_headers(q, r);
    return q;
}
static inline void rich_reqs(Plan &p, Rng &r, int c, const Site &s, int n, bool may_close = true) { for(int i = 0; i < n; i++) rich_req(p, r, c, s, i == n - 1, may_close); }
