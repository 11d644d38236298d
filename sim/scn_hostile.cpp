// Scenarios with peers that do not follow the protocol.
#include "proxy_gen.h"

// ---------------------------------------------------------------- H22 malformed and ambiguous requests
// A request is spoiled in one way and further requests are hidden in and
// behind it: the server has to end the connection (with an error or without
// a word) and may not obey any part of it.
static const char *spoil(Rng &r, string &line, vector<string> &h, string &body, const string &hidden) {
    auto cl = [&](const string &v) { h.push_back("Content-Length:" + v); };
    string c = "Content-Length", te = "Transfer-Encoding";
    auto spell = [&](string &n) { int k = (int) r.below(3); for(auto &ch : n) if(k == 0) ch = (char) tolower(ch); else if(k == 1) ch = (char) toupper(ch); };
    spell(c); spell(te);
    auto put = [&](const string &x) { h.insert(h.begin() + (i64) r.below(h.size() + 1), x); };
    bool hide = r.pct(70);
    switch(r.below(hide ? 33 : 44)) {
        case 0: put(c + ": 5"); put(c + ": " + std::to_string(hidden.size())); body = r.pct(50) ? hidden : "hello"; return "two different lengths";
        case 1: { static const char *v[] = {" 5, 6", " 5,6", " 5 6", " +5", " -5", " 0x5", " 5a", " a5", " 5;", " 5.0", " 5 0", "", " ", " \"5\"", " 5\t5", " 5,", " ,5"}; put(c + ":" + v[r.below(17)]); body = r.pct(50) ? hidden : "hello"; return "an invalid length"; }
        case 2: { static const char *v[] = {" 99999999999999999999", " 18446744073709551616", " 18446744073709551621", " 4294967301000000000000", " 999999999999999999999999999999999999999999"}; put(c + ":" + v[r.below(5)]); body = "hello"; return "a length beyond all bounds"; }
        case 3: put(c + ": 5\r\n " + std::to_string(hidden.size())); body = hidden; return "a length folded into another one";
        case 4: put(te + ": chunked"); put(c + ": " + std::to_string(r.pct(50) ? 5 : 5 + hidden.size())); body = "0\r\n\r\n"; return "a length and chunks";
        case 5: put(c + ": 0"); put(te + ": chunked"); body = "0\r\n\r\n"; return "a length and chunks";
        case 6: { static const char *v[] = {"chunkedx", "xchunked", "chunked x", "gzip", "chunked, gzip", "cow", "chunked;q=1", "chunke", "\"chunked\"", "chunked,", "chunked, identity", "c"}; put(te + ": " + v[r.below(12)]); body = r.pct(50) ? "0\r\n\r\n" : hidden; return "an unknown transfer coding"; }
        case 7: put(te + ": chunked"); h.push_back(te + ": " + string(r.pct(50) ? "cow" : "identity")); body = "0\r\n\r\n"; return "two transfer codings";
        case 8: put(te + ": cow"); put(te + ": chunked"); put(c + ": 5"); body = "0\r\n\r\n"; return "two transfer codings and a length";
        case 9: case 10: put(c + string(r.pct(70) ? " " : "  ") + ": " + std::to_string(hidden.size())); body = hidden; return "a space before the colon";
        case 11: put(te + " : chunked"); body = "0\r\n\r\n"; return "a space before the colon";
        case 12: put(word(r, 4) + " " + word(r, 3) + ": x"); return "a space in a header name";
        case 13: put(word(r, (int) r.range(1, 30))); return "a header without colon";
        case 14: put("Content-Length"); return "a header without colon";
        case 15: put(string(r.pct(50) ? ": " : ":") + word(r, 3)); return "a header without name";
        case 16: h[0] = " " + h[0]; return "a space before the first header";
        case 17: h[0] = "\t" + h[0]; return "a tabulator before the first header";
        case 18: { string n = word(r, 5); static const char bad[] = {'\0', '\x01', '\x7f', '(', ',', '@', '[', '"', '/', '{', '\\', ';', '<', '=', '?', '\t', '\x0b', '\x1b'}; n[1 + r.below(4)] = bad[r.below(18)]; put(n + ": x"); return "an invalid character in a header name"; }
        case 19: { string n = word(r, 5) + ": a"; n += string(1, r.pct(50) ? '\0' : (char) (1 + r.below(8))) + "b"; put(n); return "a control character in a header value"; }
        case 20: put("X-A: b\r" + word(r, 3)); return "a bare CR in a header";
        case 21: put("X-A: b\rX-Tag: smug"); return "a bare CR in a header";
        case 22: put("X-A: b\r" + c + ": " + std::to_string(hidden.size())); body = hidden; return "a bare CR in a header";
        case 23: put(te + ": chunked"); { static const char *v[] = {"XX", "X\n", "0\n", "\rX", "\r\r", "\n\n", "\n\r", " \n", "\r0"}; body = string("5\r\nhello") + v[r.below(9)] + "0\r\n\r\n"; } return "a chunk that does not end where it says";
        case 24: put(te + ": chunked"); body = "5\r\nhello0\r\n\r\n"; return "a chunk that does not end where it says";
        case 25: { static const char *v[] = {"g", "-5", "+5", "0x5", "5g", "", " ", "\"5\"", ";x", "5\x01", "_"}; put(te + ": chunked"); body = string(v[r.below(11)]) + "\r\nhello\r\n0\r\n\r\n"; return "an invalid chunk size"; }
        case 26: { static const char *v[] = {"FFFFFFFFFFFFFFFFF", "10000000000000005", "80000000000000000", "ffffffff00000000000000005"}; put(te + ": chunked"); body = string(v[r.below(4)]) + "\r\nhello\r\n0\r\n\r\n"; return "a chunk size beyond all bounds"; }
        case 27: put(te + ": chunked"); body = "5\nhello\r\n0\r\n\r\n"; return "a chunk size ended by LF";
        case 28: put(te + ":" + (r.pct(50) ? "" : " ")); body = r.pct(50) ? "0\r\n\r\n" : ""; return "an empty transfer coding";
        case 29: put(c + ": 5\r\n\t5"); body = "hello"; return "a length folded into another one";
        case 30: put(c + ":\r\n 5"); put(c + ": 7"); body = "hello"; return "two different lengths";
        case 31: put(te + ": chu\r\n nked"); body = "0\r\n\r\n"; return "a folded transfer coding that is none";
        case 32: put(te + ": chunked"); put(te + ": chunked"); body = "0\r\n\r\n"; return "chunks twice";
        case 33: line = line.substr(0, line.find(" HTTP")) + " extra HTTP/1.1"; return "a space in its target";
        case 34: line += " x"; return "something behind its version";
        case 35: { static const char *v[] = {"HTTP/1", "HTTP/x.1", "HTTP/1.x", "HTTP/1.1x", "HTTQ/1.1", "HTTP 1.1", "http/1.1", "HTTP/.1", "HTTP/11111.1", "HTTP/1,1", "/1.1", "HTTP/-1.1"}; line = line.substr(0, line.find(" HTTP")) + " " + v[r.below(12)]; return "an invalid version"; }
        case 36: { static const char *v[] = {"get", "GETX", "G", "FOO", "Get", "G\x01T", "POSTPOST", "PUTT", "GET\t", "HEADER", "CO", "*", "OPTION", "PROPPFIND", "1GET"}; line = v[r.below(15)] + line.substr(line.find(' ')); return "an unknown method"; }
        case 37: line = line.substr(0, line.find(' ') + 1) + word(r, 4) + line.substr(line.find(" HTTP")); return "a target without slash";
        case 38: { size_t k = line.find(" HTTP"); line = line.substr(0, k) + string(1, r.pct(30) ? '\0' : (char) (1 + r.below(8))) + line.substr(k); return "a control character in its target"; }
        case 39: { size_t k = line.find('/'); line = line.substr(0, k + 1) + (r.pct(50) ? "\t" : "\x7f") + line.substr(k + 1); return "a control character in its target"; }
        case 40: line = line.substr(0, line.find(' ') + 1) + "HTTP/1.1"; return "no target";
        case 41: line = line.substr(line.find(' ')); return "no method";
        case 42: line = line.substr(0, line.find(" HTTP")) + "\rHTTP/1.1"; return "a bare CR in its first line";
        default: h.clear(); line = "\x16\x03\x01"; return "no text at all";
    }
}
static void gen_malformed(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    add_file(p, r, "/www/f0", 9000);
    p.add("file").set("path", "/www/hidden").set("data", "lit:hidden content");
    p.add("up").set("port", 9000).set("lat", r.range(1, 2000));
    p.add("loc").set("name", "px").set("path", "^/p/").set("handler", "proxy").set("proxy_pass", "http://127.0.0.1:9000/");
    int nc = (int) r.range(1, 5), tags = 0;
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(r.pct(25)) cl.set("mode", "pipe");
        int n = (int) r.range(0, 3);
        bool bad = c == 0 || r.pct(60);
        for(int i = 0; i < n + !bad; i++) {
            if(r.pct(50)) { add_req(p, c, r.pct(70) ? "/f0" : "/none"); continue; }
            string tag = "t" + std::to_string(tags++);
            Item &q = add_req(p, c, "/p/" + word(r, 3), r.pct(60) ? "GET" : "POST");
            q.set("tag", tag);
            if(q.get("m") == "POST") { q.set("body", "gen:" + std::to_string(r.below(100)) + ":" + std::to_string(pick_size(r, 3000))); if(r.pct(30)) q.set("chunked", r.range(10, 500)); }
            p.add("uresp").set("port", 9000).set("tag", tag).set("body", "gen:" + std::to_string(r.below(100)) + ":" + std::to_string(pick_size(r, 5000)));
            if(r.pct(30)) p.items.back().set("framing", "chunked");
        }
        if(!bad) continue;
        string id = std::to_string(tags++), body;
        string target = r.pct(60) ? (r.pct(70) ? "/p/" + word(r, 3) : string("/p/")) : r.pct(70) ? "/f0" : "/";
        string hidden = string(r.pct(80) ? "GET " : "HEAD ") + (r.pct(60) ? "/hidden" : "/p/hidden") + " HTTP/1.1\r\nHost: sim\r\nX-Tag: smug" + id + "\r\nConnection: keep-alive\r\n\r\n";
        static const char *ms[] = {"GET", "POST", "PUT", "HEAD", "DELETE"};
        string line = string(ms[r.below(5)]) + " " + target + " HTTP/1.1";
        vector<string> h = {"Host: sim", "Connection: keep-alive", "X-Tag: bad" + id};
        if(r.pct(40)) h.push_back("User-Agent: " + word(r, (int) r.range(1, 40)));
        string why = spoil(r, line, h, body, hidden), wire = line + "\r\n";
        for(auto &x : h) wire += x + "\r\n";
        wire += "\r\n" + body;
        for(int i = 0; i < 2; i++) if(r.pct(75)) wire += hidden;
        p.add("req").set("c", c).set("m", "GET").set("raw", "lit:" + wire).set("bad", why);
    }
}
static void run_malformed(const Plan &p) {
    Srv s(p);
    s.setup();
    s.may_cut = [](Client &, Req &q) { return q.it.has("bad"); };
    for(auto &i : p.items) if(i.kind == "req" && i.has("bad")) R->nontrivial = 1;
    s.run();
}
static RegScenario h22({"H22", "malformed and ambiguous requests are refused and nothing in them is obeyed", gen_malformed, run_malformed});

// ---------------------------------------------------------------- H05 arbitrary bytes
// Valid messages are mutated, spliced, inflated and cut at will, in both
// directions, next to peers that behave.
static string mutate(Rng &r, string s, const vector<string> &pool) {
    static const char *tok[] = {"\r\n", "\n", "\r", "\r\n\r\n", ":", " ", "\t", "%", "%2", "%00", "%2e%2e/", "/", "?", "#", "//", "HTTP/1.1", "HTTP/1.0", "Content-Length: ", "Transfer-Encoding: chunked\r\n", "Connection: close\r\n", "Connection: upgrade\r\n", "Upgrade: x\r\n", "Expect: 100-continue\r\n", "0\r\n\r\n", "ffffffff", "7fffffff", "2147483647", "4294967296", "-1", "GET ", "POST ", "CONNECT ", "Range: bytes=", "Authorization: Basic ", "If-None-Match: ", "\x7f", "\x80", "\xff", "bytes=", "=", "==", ",", ";", "\"", "*", "\\", "..", "Host: a:b:c\r\n", "http://u:p@h:1/", "100 ", "204 ", "304 ", "999 ", "1000 "};
    int n = (int) r.range(1, r.pct(70) ? 3 : 12);
    for(int i = 0; i < n && !s.empty(); i++) {
        size_t k = r.below(s.size() + 1), m = std::min(s.size() - k, (size_t) (r.pct(70) ? r.range(1, 8) : r.range(1, 80)));
        switch(r.below(10)) {
            case 0: if(k < s.size()) s[k] = (char) (s[k] ^ (1 << r.below(8))); break;
            case 1: if(k < s.size()) s[k] = (char) r.below(256); break;
            case 2: s.insert(k, 1, (char) (r.pct(50) ? r.below(256) : 0)); break;
            case 3: s.erase(k, m); break;
            case 4: s.insert(k, s.substr(k, m)); break;
            case 5: case 6: s.insert(k, tok[r.below(sizeof tok / sizeof *tok)]); break;
            case 7: { const string &o = r.pick(pool); size_t j = r.below(o.size() + 1); s = s.substr(0, k) + o.substr(j); break; }
            case 8: { for(i64 c = r.range(1, 40); c > 0; c--) s.insert(std::min(k, s.size()), 1, (char) r.below(256)); break; }
            default: s.insert(k, string((size_t) (r.pct(60) ? r.range(20, 300) : r.range(300, 5000)), r.pct(50) ? 'A' : s[std::min(k, s.size() - 1)])); break;
        }
    }
    return s;
}
static void inflate(Rng &r, Item &i, const string &s, bool heavy) {
    static const int code[] = {'A', 'A', '/', ' ', '\t', '1', '0', '%', '.', '=', 0, 255, 1000, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007};
    int c = code[r.below(21)];
    i64 n = heavy ? r.range(12000000, 24000000) : r.pct(60) ? r.range(1000, 100000) : r.range(100000, 1500000);
    if(c == 1006) n = std::min(n, (i64) 200000);     // (whole requests: every one of them is answered)
    i.set("fill", std::to_string(c) + ":" + std::to_string(n) + ":" + std::to_string(r.below(s.size() + 1)));
}
static void gen_hostile(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    for(auto &i : p.items) if(i.kind == "cfg") { i.del("stall"); if(i.num("short_read") > 40) i.set("short_read", 30); }
    Plan tmp;
    Site s = rich_site(tmp, r, 20000);
    tmp.add("up").set("port", 9000).set("lat", r.range(1, 500));
    tmp.add("up").set("port", 9001).set("lat", r.range(1, 500));
    if(!tmp.find("gen") || tmp.find("gen")->get("key") != "handler") {
        tmp.add("loc").set("name", "pg").set("path", "^/p/").set("handler", "proxy").set("proxy_pass", "http://127.0.0.1:9000/");
        tmp.add("loc").set("name", "pe").set("path", "^/e/").set("handler", "proxy").set("proxy_pass", "http://127.0.0.1:9001/");
    }
    bool proxy = tmp.find("gen") == nullptr || tmp.find("gen")->get("key") != "handler";
    vector<string> pool, rpool = {
        "HTTP/1.1 200 OK\r\nServer: x\r\nConnection: keep-alive\r\nContent-Length: 5\r\n\r\nhello",
        "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5;a=b\r\nhello\r\n3\r\nabc\r\n0\r\nX-T: 1\r\n\r\n",
        "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 204 No Content\r\n\r\n",
        "HTTP/1.0 404 Not Found\r\nContent-Type: text/html\r\n\r\n<html>none</html>",
        "HTTP/1.1 304 Not Modified\r\nETag: \"x\"\r\n\r\n",
        "HTTP/1.1 302 Found\r\nLocation: http://a/b\r\nX-Folded: a\r\n b\r\nConnection: close\r\nContent-Length: 0\r\n\r\n"};
    vector<string> targets = s.files;
    for(auto &x : s.others) targets.push_back(x);
    for(auto &x : s.secrets) targets.push_back(x);
    if(proxy) { targets.push_back("/e/x?y=1"); targets.push_back("/e/"); targets.push_back("/p/x"); }
    for(int k = 0; k < 8; k++) {
        static const char *ms[] = {"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PROPFIND", "M-SEARCH"};
        string m = ms[r.pct(60) ? 0 : r.below(8)], q = m + " " + r.pick(targets) + " HTTP/1." + (r.pct(80) ? "1" : "0") + "\r\nHost: sim\r\nConnection: " + (r.pct(70) ? "keep-alive" : "close") + "\r\n";
        if(r.pct(25)) q += "Range: bytes=" + std::to_string(r.range(0, 100)) + "-" + std::to_string(r.range(0, 9000)) + "\r\n";
        if(r.pct(25)) q += "Authorization: " + (s.cred.empty() ? string("Basic eDp5") : s.cred) + "\r\n";
        if(r.pct(20)) q += "If-None-Match: \"" + word(r, 8) + "\"\r\n";
        if(r.pct(20)) q += "X-Folded: a\r\n b\r\n";
        if(r.pct(35)) { if(r.pct(50)) q += "Content-Length: 10\r\n\r\n0123456789"; else q += "Transfer-Encoding: chunked\r\n\r\n5\r\nhello\r\na;x=y\r\n0123456789\r\n0\r\n" + string(r.pct(30) ? "X-T: 1\r\n" : "") + "\r\n"; }
        else q += "\r\n";
        pool.push_back(q);
    }
    bool heavy = r.pct(10);                           // one peer sends without end
    int na = heavy ? 1 : (int) r.range(1, 4), ng = heavy ? 1 : (int) r.range(1, 3), tags = 0;
    bool up = heavy && proxy && r.pct(30);
    if(heavy) for(auto &i : p.items) if(i.kind == "cfg") { i.set("cost", 5); i.del("eintr"); }
    for(int c = 0; c < na; c++) {
        Item &cl = add_client(tmp, r, c);
        cl.set("mode", "pipe");
        static const char *how[] = {"close", "rst", "fin", "close"};
        cl.set("abort", how[r.below(4)]).set("abort_t", r.range(300000, 6000000));
        int n = heavy ? 1 : (int) r.range(1, 4);
        size_t total = 0;
        if(heavy) { cl.del("seg"); cl.del("rcv"); cl.set("lat", r.range(1, 100)); }
        if(up) { tmp.add("req").set("c", c).set("raw", "lit:GET /e/x HTTP/1.1\r\n\r\n"); continue; }
        for(int i = 0; i < n; i++) {
            string x = r.pick(pool);
            if(r.pct(85)) x = mutate(r, x, pool);
            if(heavy && proxy && r.pct(40)) {        // behind a request that nobody answers
                x = "GET /e/hang HTTP/1.1\r\nHost: sim\r\n\r\n";
                tmp.add("req").set("c", c).set("raw", "lit:" + x);
                tmp.add("uresp").set("port", 9001).set("p", "/hang").set("raw", "lit:").set("fault", "close").set("delay", r.range(5000000, 9000000));
                x = pool[0];
            }
            Item &q = tmp.add("req").set("c", c).set("raw", "lit:" + x);
            total += x.size();
            if(heavy || r.pct(10)) { inflate(r, q, x, heavy); total += (size_t) atoll(q.get("fill").c_str() + q.get("fill").find(':') + 1); }
        }
        for(auto &i : tmp.items) if(i.kind == "client" && i.num("id") == c && i.has("seg") && total / 1000 > (size_t) i.num("seg")) i.set("seg", (i64) (total / 1000 + 1));
    }
    if(proxy) {
        int n = (int) r.range(1, 4);
        for(int k = 0; k < n; k++) {
            string x = r.pick(rpool);
            if(r.pct(90)) x = mutate(r, x, rpool);
            Item &u = tmp.add("uresp").set("port", 9001).set("raw", "lit:" + x);
            static const char *f[] = {"close", "rst", "hang"};
            if(r.pct(60)) u.set("fault", f[r.below(3)]);
            if(up || r.pct(10)) inflate(r, u, x, up);
            else if(r.pct(50)) u.set("seg", r.range(1, 100));
            if(r.pct(60)) u.set("p", "/" + word(r, 1));
        }
    }
    for(int c = na; c < na + ng; c++) {
        add_client(tmp, r, c);
        int n = (int) r.range(1, 4);
        for(int i = 0; i < n; i++) {
            if(!proxy || r.pct(60)) { rich_req(tmp, r, c, s, i == n - 1); continue; }
            string tag = "t" + std::to_string(tags++);
            Item &q = add_req(tmp, c, "/p/" + word(r, 3), r.pct(60) ? "GET" : "POST");
            q.set("tag", tag);
            if(q.get("m") == "POST") q.set("body", "gen:" + std::to_string(r.below(100)) + ":" + std::to_string(pick_size(r, 3000)));
            tmp.add("uresp").set("port", 9000).set("tag", tag).set("body", "gen:" + std::to_string(r.below(100)) + ":" + std::to_string(pick_size(r, 5000)));
            if(r.pct(30)) tmp.items.back().set("framing", "chunked");
        }
    }
    for(auto &i : tmp.items) p.items.push_back(i);
    if(!heavy) p.add("rounds").set("n", r.pct(40) ? (int) Rounds::MAX : 2);
}
static void run_hostile(const Plan &plan) {
    Plan p = Rounds::expand(plan, Rounds::of(plan), false);
    Srv s(p);
    s.setup();
    s.hostile = true;
    int clients = 0;
    for(auto &i : p.items) if(i.kind == "client" && !i.num("phase")) clients++;
    heap_track = true;
    heap_budget = 2000000 + 2500000 * (i64) clients;
    // a request is read to its end before it is passed on to an upstream, there is no limit for its body
    for(auto &i : p.items) if(i.kind == "req" && i.has("fill") && (i.get("raw").find("/e/") != string::npos || i.get("raw").find("/p/") != string::npos)) {
        string f = i.get("fill");
        size_t k = f.find(':');
        if(k != string::npos) heap_budget += 6 * atoll(f.c_str() + k + 1);
    }
    R->nontrivial = 1;
    Rounds rounds;
    s.on_phase = [&](int k) {
        rounds.phase(s, k);
    };
    s.run();
}
static RegScenario h05({"H05", "arbitrary bytes from clients and upstreams neither crash the server nor reach anybody else", gen_hostile, run_hostile});
