// Sites with a reverse proxy: upstreams, locations, proxied requests and their answers.
#pragma once
#include "gen.h"

struct PSite { vector<int> ports; vector<string> prefix; vector<i64> port_of; vector<string> local; };

static inline PSite proxy_site(Plan &p, Rng &r) {
    PSite s;
    int nu = (int) r.range(1, 3);
    p.add("host").set("name", "127.0.0.1");
    if(r.pct(40)) p.add("host").set("name", "backend.local");
    bool named = p.items.back().get("name") == "backend.local";
    for(int i = 0; i < nu; i++) {
        int port = 9000 + i * 8 + (int) r.range(0, 7);
        s.ports.push_back(port);
        Item &u = p.add("up");
        u.set("port", port);
        u.set("lat", r.pct(50) ? r.range(1, 100) : r.range(1, 20000));
        if(r.pct(40)) u.set("snd", r.pct(30) ? r.range(1, 64) * 16 : r.range(1, 64) * 1024);
        if(r.pct(25)) u.set("rcv", r.range(16, 2000));
        if(r.pct(50)) u.set("cdelay", r.range(0, 20000));
    }
    int nl = (int) r.range(nu, nu + 1);
    static const char *pat[] = {"^/p%/", "^/p%", "^/deep/er%/", "/q%/", "^/p %/"};
    for(int i = 0; i < nl; i++) {
        int port = s.ports[(size_t) i % s.ports.size()];
        string path = pat[r.below(5)], pre = path;
        size_t k = path.find('%');
        path.replace(k, 1, std::to_string(i));
        pre = path[0] == '^' ? path.substr(1) : (r.pct(50) ? "/zz" : "") + path;
        string enc; for(char ch : pre) enc += ch == ' ' ? string("%20") : string(1, ch);
        p.add("loc").set("name", "px" + std::to_string(i)).set("path", path).set("handler", "proxy").set("proxy_pass", "http://" + string(named && r.pct(50) ? "backend.local" : "127.0.0.1") + ":" + std::to_string(port) + "/");
        s.prefix.push_back(enc); s.port_of.push_back(port);
    }
    if(r.pct(60)) { add_file(p, r, "/www/f0", 30000); s.local.push_back("/f0"); s.local.push_back("/none"); s.local.push_back("/"); }
    return s;
}
static inline string body_spec(Rng &r, i64 max) {
    if(r.pct(6)) return "lit:";
    if(r.pct(12)) { static const char *t[] = {"lit:\r\n\r\n", "lit:HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc", "lit:0\r\n\r\n", "lit:\n", "lit:{\"a\": 1}", "lit:5\r\nhello\r\n0\r\n\r\n"}; return t[r.below(6)]; }
    return "gen:" + std::to_string(r.below(100000)) + ":" + std::to_string(pick_size(r, max));
}
static inline const char *coding(Rng &r) { static const char *t[] = {"gzip, ", "cow,", "c, ", "chunke ,\t", "gzip;q=1,, deflate , ", "identity, "}; return t[r.below(6)]; }
// a proxied request and the answer of its upstream
static inline std::pair<size_t, size_t> proxied(Plan &p, Rng &r, int c, const PSite &s, int &tags, i64 max, bool last) {
    size_t k = r.below(s.prefix.size());
    string tag = "t" + std::to_string(tags++);
    string path = s.prefix[k];
    static const char *tail[] = {"a", "", "a/b/c", "x?y=1&z=%20q", "x%2Fy", "a//b", "?q", "~u/a+b", "index.html", "caf%C3%A9"};
    path += r.pct(70) ? tail[r.below(10)] : word(r, (int) (r.pct(80) ? r.range(1, 40) : r.range(100, 3000)));
    Item &q = add_req(p, c, path, r.pct(65) ? "GET" : r.pct(40) ? "HEAD" : r.pct(60) ? "POST" : r.pct(50) ? "PUT" : r.pct(50) ? "DELETE" : "OPTIONS");
    size_t qi = p.items.size() - 1;
    q.set("tag", tag);
    string m = q.get("m");
    if(m == "POST" || m == "PUT") {
        q.set("body", body_spec(r, std::min(max, (i64) 20000)));
        if(r.pct(35)) { q.set("chunked", r.range(1, 3000)); if(r.pct(30)) q.set("upper", 1); if(r.pct(20)) q.set("ext", ";a=b"); if(r.pct(20)) q.set("trailer", "X-End: 1"); if(r.pct(15)) q.set("te", coding(r)); }
    }
    if(r.pct(15)) q.set("v", "HTTP/1.0");
    if(q.has("chunked")) q.set("v", "HTTP/1.1");
    if(last ? r.pct(35) : r.pct(5)) q.set("conn", r.pct(60) ? "close" : "none");
    else if(r.pct(8)) q.set("conn", "none");
    if(r.pct(50)) noise_headers(q, r);
    if(r.pct(8)) q.set("h5", "X-Folded: " + word(r, 4) + "\r\n" + (r.pct(50) ? " " : "\t ") + word(r, 5) + (r.pct(30) ? "\r\n third" : ""));
    if(r.pct(8)) q.set("h6", "X-Empty: ");
    Item &u = p.add("uresp");
    u.set("port", s.port_of[k]).set("tag", tag);
    static const int st[] = {200, 200, 200, 201, 301, 404, 500, 503, 204, 304, 206, 299, 418, 599, 999};
    u.set("status", st[r.below(15)]);
    if(r.pct(40)) { static const char *rs[] = {"", "Fine", "Very long reason with words", "OK!"}; u.set("reason", rs[r.below(4)]); }
    u.set("body", body_spec(r, max));
    u.set("framing", r.pct(50) ? "cl" : r.pct(60) ? "chunked" : "eof");
    if(u.get("framing") == "chunked") { u.set("chunk", r.pct(50) ? r.range(1, 50) : r.range(50, 20000)); if(r.pct(30)) u.set("upper", 1); if(r.pct(20)) u.set("ext", ";x=\"y\""); if(r.pct(20)) u.set("trailer", "X-Sum: 7"); if(r.pct(15)) u.set("te", coding(r)); }
    if(r.pct(15)) u.set("uv", "HTTP/1.0");
    if(r.pct(25)) u.set("conn", r.pct(50) ? "close" : "none");
    if(r.pct(10)) u.set("interim", r.range(1, 3));
    int nh = (int) r.below(4);
    for(int i = 0; i < nh; i++) { static const char *n[] = {"Server", "Content-Type", "X-Powered-By", "set-cookie", "ETag", "Location", "Date", "X-Tag"}; u.set("h" + std::to_string(i + 1), string(n[r.below(8)]) + ": " + word(r, (int) (r.pct(85) ? r.range(1, 60) : r.range(60, 2500)))); }
    if(r.pct(6)) u.set("h5", "X-Folded: " + word(r, 4) + "\r\n" + (r.pct(50) ? " " : "\t") + word(r, 5));
    if(r.pct(6)) u.set("h6", "X-Empty: ");
    if(r.pct(60)) u.set("seg", r.pct(25) ? 1 : r.pct(50) ? r.range(2, 60) : r.range(60, 5000));
    // keep the number of segments and chunks of a message bounded
    i64 len = (i64) expand(u.get("body")).size();
    if(u.has("seg")) u.set("seg", std::max(u.num("seg"), len / 1500 + (len > 1500)));
    if(u.has("chunk")) u.set("chunk", std::max(u.num("chunk"), len / 400 + 1));
    if(u.has("seg") && r.pct(70)) u.set("gap", r.pct(60) ? r.range(1, 200) : r.range(200, 5000));
    if(r.pct(40)) u.set("delay", r.pct(80) ? r.range(0, 20000) : r.range(0, 2000000));
    return {qi, p.items.size() - 1};
}

// requests pipelined behind a response that ends with its connection turn the end into a reset: not a fair input
static inline void no_pipe_behind_eof(Plan &p) {
    for(auto &c : p.items) if(c.kind == "client" && c.has("mode")) {
        string last;
        bool bad = false;
        for(auto &q : p.items) if(q.kind == "req" && q.num("c") == c.num("id")) {
            for(auto &u : p.items) if(!last.empty() && u.kind == "uresp" && u.get("tag") == last && u.get("framing") == "eof") bad = true;
            last = q.get("tag");
        }
        if(bad) c.kv.erase(std::remove_if(c.kv.begin(), c.kv.end(), [](auto &k) { return k.first == "mode"; }), c.kv.end());
    }
}

