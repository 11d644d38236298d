// Reverse proxy scenarios: fidelity of the forwarded messages (H13) and
// behaviour when an upstream misbehaves or disappears (H14).
#include "proxy_gen.h"

// ---------------------------------------------------------------- H13 fidelity
// bodies well above what the server is ready to hold for a connection, and a
// receiver that takes them slowly
static void gen_flood(Plan &p, Rng &r) {
    Item &cfg = p.add("cfg");
    cfg.set("cost", r.range(1, 60));
    if(r.pct(30)) cfg.set("stall", r.range(5, 100));
    if(r.pct(30)) cfg.set("short_read", r.range(5, 60));
    bool upload = r.pct(35);
    p.add("up").set("port", 9000).set("lat", r.range(1, 500)).set("snd", r.range(16, 64) * 1024).set("rcv", r.range(32, 128) * 1024);
    if(upload) p.items.back().set("rate", r.range(40, 400)).set("snd", r.range(1, 64) * 512);
    p.add("loc").set("name", "px").set("path", "^/p/").set("handler", "proxy").set("proxy_pass", "http://127.0.0.1:9000/");
    int nc = (int) r.range(1, 2);
    i64 total = 0;
    for(int c = 0; c < nc; c++) {
        Item &cl = p.add("client");
        cl.set("id", c).set("lat", r.range(1, 2000)).set("snd", r.range(1, 64) * 512).set("rcv", 65536);
        if(!upload) cl.set("rate", r.range(40, 400));
        if(!upload && r.pct(25)) { cl.set("stall_rx", r.range(0, 2000000)); cl.set("stall_t", r.range(100000, 5000000)); }
        int n = (int) r.range(1, 2);
        for(int i = 0; i < n; i++) {
            string tag = "t" + std::to_string(c * 10 + i);
            i64 size = r.range(900, 2600) * 1024;
            total += size;
            Item &q = add_req(p, c, "/p/x", upload ? "POST" : "GET");
            q.set("tag", tag);
            if(upload) { q.set("body", "gen:" + std::to_string(r.below(1000)) + ":" + std::to_string(size)); if(r.pct(30)) q.set("chunked", r.range(4000, 60000)); }
            Item &u = p.add("uresp");
            u.set("port", 9000).set("tag", tag).set("status", 200).set("body", "gen:" + std::to_string(r.below(1000)) + ":" + std::to_string(upload ? r.range(0, 5000) : size));
            u.set("framing", r.pct(50) ? "cl" : r.pct(70) ? "chunked" : "eof");
            if(u.get("framing") == "chunked") u.set("chunk", r.range(8000, 60000));
        }
    }
    no_pipe_behind_eof(p);
}
static void gen_proxy(Plan &p, Rng &r, bool thorough) {
    if(r.pct(thorough ? 8 : 3)) { gen_flood(p, r); return; }
    swarm_cfg(p, r);
    PSite s = proxy_site(p, r);
    int nc = (int) r.range(1, r.pct(10) ? 20 : 5), tags = 0;
    i64 max = r.pct(25) ? (thorough ? 1000000 : 200000) : 12000;
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        bool pipe = r.pct(35);
        if(pipe) cl.set("mode", "pipe");
        if(r.pct(25)) { cl.set("snd", r.range(32, 8000)); cl.set("rate", r.range(20, 3000)); }
        if(r.pct(20)) { cl.set("stall_rx", r.range(0, 20000)); cl.set("stall_t", r.range(100, 300000)); }
        int n = (int) r.range(1, 6);
        for(int i = 0; i < n; i++) {
            if(!s.local.empty() && r.pct(20)) { add_req(p, c, r.pick(s.local), r.pct(80) ? "GET" : "HEAD"); continue; }
            proxied(p, r, c, s, tags, max, i == n - 1);
        }
    }
    no_pipe_behind_eof(p);
    if(r.pct(25)) {
        int c = (int) r.below((u64) nc);
        static const char *how[] = {"rst", "close", "fin", "hang"};
        for(auto &i : p.items) if(i.kind == "client" && i.num("id") == c) i.set("abort", r.pct(12) ? "vanish" : how[r.below(4)]).set(r.pct(50) ? "abort_rx" : "abort_t", r.range(1, 40000));
    }
}
static void run_proxy(const Plan &p) {
    Srv s(p);
    s.setup();
    s.on_response = [&](Client &, Req &, Resp &) { if(s.exch.size() > 1) R->nontrivial = 1; };
    s.run();
}
static RegScenario h13({"H13", "proxied requests and responses are relayed faithfully", gen_proxy, run_proxy});

// ---------------------------------------------------------------- H14 failing upstreams
static void break_resp(Item &u, Rng &r) {
    switch(r.below(9)) {
        case 0: case 1: case 2: case 3: {
            static const char *how[] = {"rst", "close", "close", "hang"};
            u.set("fault", r.pct(10) ? "vanish" : how[r.below(4)]);
            if(r.pct(85)) u.set("cut", r.pct(40) ? r.range(0, 150) : r.pct(50) ? r.range(0, 2000) : r.range(0, 200000));
            break;
        }
        case 4: {
            static const char *raw[] = {"lit:GARBAGE\r\n\r\n", "lit:HTTP/1.1\r\n\r\n", "lit:HTTP/1.1 abc OK\r\nContent-Length: 2\r\n\r\nok", "lit:HTTP/1.1 200 OK\r\nContent-Length: zz\r\n\r\nok", "lit:\x15\x03\x01\x02\x02\n\n", "lit:HTTP/9x1 200 OK\r\n\r\n", "lit:SSH-2.0-x\r\n\r\n", "lit:HTTP/1.1 200 OK\r\nBad\x01Name: 1\r\n\r\n", "rep:A:20000", "lit:XTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok",
                "lit:HTTP/1.1 200 OK\r\nContent-Length: 2\r\nContent-Length: 3\r\n\r\nokk", "lit:HTTP/1.1 200 OK\r\nContent-Length: 2, 2\r\n\r\nok", "lit:HTTP/1.1 200 OK\r\nContent-Length : 2\r\n\r\nok", "lit:HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nContent-Length: 2\r\n\r\n2\r\nok\r\n0\r\n\r\n",
                "lit:HTTP/1.1 200 OK\r\nno colon\r\nContent-Length: 2\r\n\r\nok", "lit:HTTP/1.1 200 OK\r\nX: a\rb\r\nContent-Length: 2\r\n\r\nok", "lit:HTTP/1.1 200 OK\r\nX: a\x01" "b\r\nContent-Length: 2\r\n\r\nok", "lit:HTTP/1.1 200 OK\r\nContent-Length: 1\r\n 2\r\n\r\nok", "lit:HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n", "lit:HTTP/1.1 200 OK\r\n: x\r\nContent-Length: 2\r\n\r\nok"};
            u.set("raw", raw[r.below(20)]);
            if(r.pct(70)) u.set("fault", r.pct(50) ? "close" : "rst");
            break;
        }
        case 5: { static const char *j[] = {"lit:x", "lit:\r\n", "lit:HTTP/1.1 200 OK\r\nContent-Length: 6\r\n\r\nsecond", "rep:Z:9000"}; u.set("junk", j[r.below(4)]); break; }
        case 6: case 7: u.set("after", r.pct(50) ? r.range(0, 100) : r.range(0, 50000)); break;
        default: u.set("delay", r.range(100000, 20000000)); break;
    }
}
static void gen_upfault(Plan &p, Rng &r, bool thorough) {
    swarm_cfg(p, r);
    for(auto &i : p.items) if(i.kind == "cfg") i.set("heap", 1);
    Plan tmp;
    PSite s = proxy_site(tmp, r);
    bool resource = r.pct(20);
    for(auto &i : tmp.items) if(i.kind == "up" && r.pct(35)) { i.set("cfault", r.pct(60) ? "refuse" : "timeout"); if(r.pct(60)) i.set("cfn", r.range(1, 4)); }
    if(r.pct(20)) { tmp.add("loc").set("name", "lost").set("path", "^/lost/").set("handler", "proxy").set("proxy_pass", "http://nohost.invalid:9000/"); s.prefix.push_back("/lost/"); s.port_of.push_back(9000); }
    if(r.pct(20)) { tmp.add("loc").set("name", "dead").set("path", "^/dead/").set("handler", "proxy").set("proxy_pass", "http://127.0.0.1:9999/"); s.prefix.push_back("/dead/"); s.port_of.push_back(9999); }
    int nc = (int) r.range(1, 5), tags = 0;
    i64 max = r.pct(20) ? (thorough ? 500000 : 120000) : 12000;
    std::set<int> broken;
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(tmp, r, c);
        if(r.pct(30)) cl.set("mode", "pipe");
        if(r.pct(20)) cl.set("end", r.pct(50) ? "close" : "rst");
        if(r.pct(20)) { cl.set("snd", r.range(32, 8000)); cl.set("rate", r.range(20, 3000)); }
        int n = (int) r.range(1, 6);
        for(int i = 0; i < n; i++) {
            if(!s.local.empty() && r.pct(20)) { add_req(tmp, c, r.pick(s.local), r.pct(80) ? "GET" : "HEAD"); continue; }
            auto x = proxied(tmp, r, c, s, tags, max, i == n - 1);
            if(r.pct(40)) { break_resp(tmp.items[x.second], r); broken.insert(c); }
        }
    }
    // what is pipelined behind a failure is lost with its connection
    for(auto &c : tmp.items) if(c.kind == "client" && broken.count((int) c.num("id"))) c.del("mode");
    no_pipe_behind_eof(tmp);
    if(r.pct(25)) {
        int c = (int) r.below((u64) nc);
        static const char *how[] = {"rst", "close", "fin", "hang"};
        for(auto &i : tmp.items) if(i.kind == "client" && i.num("id") == c) i.set("abort", r.pct(12) ? "vanish" : how[r.below(4)]).set(r.pct(50) ? "abort_rx" : "abort_t", r.range(1, 40000));
    }
    if(resource) {
        int n = (int) r.range(1, 3);
        for(int i = 0; i < n; i++) switch(r.below(3)) {
            case 0: { static const char *call[] = {"socket", "connect", "gethostbyname", "epoll_add"}; p.add("fault").set("kind", "nth").set("call", call[r.below(4)]).set("n", r.range(i ? 1 : 2, 12)).set("err", r.pct(50) ? EMFILE : ENOMEM); break; }
            default: p.add("fault").set("kind", "fdlimit").set("t", r.range(1500, 60000)).set("val", r.range(0, 5)).set("rel", 1); p.add("fault").set("kind", "fdlimit").set("t", r.range(60000, 300000)).set("val", 100000);
        }
    }
    for(auto &i : tmp.items) p.items.push_back(i);
    if(!resource && r.pct(60)) p.add("rounds").set("n", Rounds::MAX);
}
static void run_upfault(const Plan &plan) {
    Plan p = plan;
    p.items.erase(std::remove_if(p.items.begin(), p.items.end(), [](Item &i) { return i.kind == "fault" && i.get("kind") == "nth" && (i.get("call") == "socket" || i.get("call") == "epoll_add") && i.num("n") < 2; }), p.items.end());
    Srv s(Rounds::expand(p, Rounds::of(p)));
    s.setup();
    bool resource = false;
    for(auto &i : p.items) if(i.kind == "fault") resource = true;
    if(resource) {
        s.proxy_502 = true;
        s.may_cut = [&](Client &, Req &) { return true; };
        s.override_check = [&](Client &, Req &, Resp &r) { return r.status == 404 || r.status == 500 || r.status == 503; };
    }
    s.on_response = [&](Client &, Req &, Resp &) { for(auto &x : s.exch) if(x.second.seen && x.second.u.has("fault")) R->nontrivial = 1; if(resource) R->nontrivial = 1; };
    Rounds rounds;
    s.on_phase = [&](int k) {
        rounds.phase(s, k);
    };
    s.run();
}
static RegScenario h14({"H14", "a failing upstream yields an error, never wrong content, and costs nothing lasting", gen_upfault, run_upfault});
