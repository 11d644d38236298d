// Scenarios over the HTTP server and its file handler.
#include "gen.h"

// ---------------------------------------------------------------- H01 framing
static void gen_framing(Plan &p, Rng &r, bool thorough) {
    swarm_cfg(p, r);
    if(r.pct(45)) {
        Site s = rich_site(p, r, 20000);
        int nc = (int) r.range(1, 5);
        for(int c = 0; c < nc; c++) { Item &cl = add_client(p, r, c); if(r.pct(60)) cl.set("mode", "pipe"); rich_reqs(p, r, c, s, (int) r.range(1, 8)); }
        return;
    }
    if(r.pct(thorough ? 8 : 5)) {
        // bodies larger than what one readiness event may take
        use_handler(p, r);
        add_file(p, r, "/www/f0", 3000);
        int nc = (int) r.range(1, 2);
        for(int c = 0; c < nc; c++) {
            Item &cl = add_client(p, r, c);
            cl.set("seg", r.range(30000, 3000000)).set("rcv", r.range(300, 6000) * 1024);
            if(r.pct(50)) cl.set("gap", r.range(0, 300));
            if(r.pct(60)) cl.set("mode", "pipe");
            int n = (int) r.range(1, 4);
            for(int i = 0; i < n; i++) { Item &q = add_req(p, c, "/f0", r.pct(70) ? "POST" : "GET"); if(q.get("m") == "POST") q.set("body", "gen:" + std::to_string(r.below(1000)) + ":" + std::to_string(r.pct(20) ? 1048576 + r.range(-300, 300) : r.range(100000, 4000000))); }
        }
        return;
    }
    use_handler(p, r);
    int nf = (int) r.range(1, 5);
    for(int i = 0; i < nf; i++) add_file(p, r, "/www/f" + std::to_string(i), 20000);
    int nc = (int) r.range(1, 5);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(r.pct(60)) cl.set("mode", "pipe");
        int n = (int) r.range(1, 8);
        for(int i = 0; i < n; i++) {
            string path = r.pct(85) ? "/f" + std::to_string(r.below((u64) nf)) : "/none" + word(r, (int) r.range(1, 30));
            if(r.pct(20)) path += "?" + word(r, (int) r.range(1, 40));
            Item &q = add_req(p, c, path, r.pct(75) ? "GET" : r.pct(60) ? "POST" : "HEAD");
            if(q.get("m") == "POST") q.set("body", "gen:" + std::to_string(r.below(1000)) + ":" + std::to_string(pick_size(r, 5000)));
            noise_headers(q, r);
            if(i == n - 1 && r.pct(25)) q.set("conn", "close");
        }
    }
}
static void run_framing(const Plan &p) { R->nontrivial = 1; std_run(p); }
static RegScenario h01({"H01", "every request gets its own response, once, in order, under any segmentation", gen_framing, run_framing});

static void fault_swarm(Plan &p, Rng &r, int clients) {
    // peers that give up in the middle of things
    for(auto &i : p.items) {
        if(i.kind != "client" || i.num("id") >= clients || !r.pct(40)) continue;
        static const char *how[] = {"rst", "close", "fin", "hang"};
        i.set("abort", r.pct(10) ? "vanish" : how[r.below(4)]);
        switch(r.below(3)) {
            case 0: i.set("abort_t", r.range(0, 60000)); break;
            case 1: i.set("abort_tx", r.range(1, 400)); break;
            default: i.set("abort_rx", r.range(1, 20000)); break;
        }
    }
}
static void reqs_for(Plan &p, Rng &r, int c, const vector<string> &paths, int n, bool bodies = true) {
    for(int i = 0; i < n; i++) {
        Item &q = add_req(p, c, r.pick(paths), r.pct(80) ? "GET" : r.pct(50) || !bodies ? "HEAD" : "POST");
        if(q.get("m") == "POST") q.set("body", "gen:" + std::to_string(r.below(1000)) + ":" + std::to_string(pick_size(r, 3000)));
        if(r.pct(40)) noise_headers(q, r);
    }
}

// ---------------------------------------------------------------- H02 fidelity under backpressure
static void gen_fidelity(Plan &p, Rng &r, bool thorough) {
    swarm_cfg(p, r);
    if(r.pct(25)) {
        Site s = rich_site(p, r, thorough ? 1500000 : 400000);
        int nc = (int) r.range(1, 4);
        for(int c = 0; c < nc; c++) {
            Item &cl = add_client(p, r, c);
            cl.set("snd", r.pct(40) ? r.range(64, 3000) : r.range(4, 256) * 1024);
            if(r.pct(40)) { cl.set("stall_rx", r.range(0, 100000)); cl.set("stall_t", r.range(100, 5000000)); }
            rich_reqs(p, r, c, s, (int) r.range(1, 4));
        }
        return;
    }
    use_handler(p, r);
    vector<string> paths;
    int nf = (int) r.range(1, 4);
    i64 max = thorough ? 1500000 : 400000;
    for(int i = 0; i < nf; i++) {
        string n = "/f" + std::to_string(i);
        if(r.pct(8)) { // a path that is long, with or without dots in it
            string d;
            for(int k = (int) r.range(1, 5); k > 0; k--) { d += "/" + word(r, (int) r.range(1, 150)) + (r.pct(20) ? "." + word(r, (int) r.range(1, 90)) : ""); p.add("dir").set("path", "/www" + d); }
            n = d + n;
        }
        n += pick_ext(r);
        add_file(p, r, "/www" + n, r.pct(30) ? max : 60000);
        paths.push_back(n);
    }
    int nc = (int) r.range(1, 4);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(r.pct(30)) cl.set("mode", "pipe");
        cl.set("snd", r.pct(40) ? r.range(64, 3000) : r.range(4, 256) * 1024);
        if(r.pct(50)) cl.set("rate", r.range(1, 5000));
        if(r.pct(40)) { cl.set("stall_rx", r.range(0, 100000)); cl.set("stall_t", r.range(100, 5000000)); }
        reqs_for(p, r, c, paths, (int) r.range(1, 4));
    }
}
static void run_fidelity(const Plan &p) { R->nontrivial = 1; std_run(p); }
static RegScenario h02({"H02", "files arrive complete and unaltered under backpressure and short writes", gen_fidelity, run_fidelity});

// ---------------------------------------------------------------- H03 ranges and validators
static string gen_range(Rng &r, i64 sz) {
    auto num = [&]() { return r.pct(60) ? r.range(0, sz + 3) : r.pct(50) ? r.range(sz - 2 < 0 ? 0 : sz - 2, sz + 2) : r.range(0, 1) * sz; };
    switch(r.below(12)) {
        case 0: case 1: case 2: case 3: { i64 a = num(), b = num(); if(a > b && r.pct(80)) std::swap(a, b); return "bytes=" + std::to_string(a) + "-" + std::to_string(b); }
        case 4: case 5: return "bytes=" + std::to_string(num()) + "-";
        case 6: case 7: return "bytes=-" + std::to_string(num());
        case 8: return "bytes=" + std::to_string(num()) + "-" + std::to_string(num()) + "," + std::to_string(num()) + "-";
        case 9: { static const char *bad[] = {"bytes=", "bytes=-", "bytes", "bytes=a-b", "bytes=1-2-3", "bytes= 1-2", "items=0-1", "bytes=--1", "bytes=+1-2", "bytes=1", "bytes=0x1-2", "bytes=1-a", ""}; return bad[r.below(13)]; }
        case 10: { static const char *big[] = {"bytes=0-18446744073709551615", "bytes=18446744073709551616-", "bytes=-18446744073709551615", "bytes=99999999999999999999-99999999999999999999", "bytes=4294967296-4294967297", "bytes=-4294967297", "bytes=0-9223372036854775807", "bytes=-9223372036854775808"}; return big[r.below(8)]; }
        default: return "bytes=" + string((size_t) r.range(1, 300), '0') + "-1";
    }
}
static void gen_ranges(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    use_handler(p, r);
    int nf = (int) r.range(1, 3);
    vector<i64> sizes;
    for(int i = 0; i < nf; i++) { i64 sz = pick_size(r, 70000); sizes.push_back(sz); p.add("file").set("path", "/www/f" + std::to_string(i)).set("data", "gen:" + std::to_string(r.below(100000)) + ":" + std::to_string(sz)).set("mtime", 1400000000 + (i64) r.below(5)); }
    int ph = (int) r.range(0, 2), id = 0;
    for(int k = 0; k <= ph; k++) {
        if(k > 0) {
            int f = (int) r.below((u64) nf);
            i64 sz = r.pct(50) ? sizes[f] : pick_size(r, 70000);
            sizes[f] = sz;
            p.add("fault").set("kind", "fs").set("phase", k).set("op", "replace").set("path", "/www/f" + std::to_string(f)).set("data", "gen:" + std::to_string(r.below(100000)) + ":" + std::to_string(sz)).set("mtime", 1400000000 + k * 100 + (i64) r.below(100));
        }
        int nc = (int) r.range(1, 3);
        for(int c = 0; c < nc; c++, id++) {
            Item &cl = add_client(p, r, id);
            if(k) cl.set("phase", k);
            int n = (int) r.range(1, 7);
            for(int i = 0; i < n; i++) {
                int f = (int) r.below((u64) nf);
                Item &q = add_req(p, id, "/f" + std::to_string(f), r.pct(85) ? "GET" : "HEAD");
                if(r.pct(65)) q.set("range", gen_range(r, sizes[f]));
                if(r.pct(35)) q.set("inm", r.pct(75) ? "last" : r.pct(50) ? "any" : "\"" + word(r, (int) r.range(0, 40)) + "\"");
                noise_headers(q, r);
            }
        }
    }
}
static void run_ranges(const Plan &p) {
    R->nontrivial = 1;
    Srv s(p);
    s.setup();
    s.run();
}
static RegScenario h03({"H03", "range and conditional requests select exactly the bytes of the current file", gen_ranges, run_ranges});

// ---------------------------------------------------------------- H04 isolation
static void gen_isolation(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    if(r.pct(50)) {
        Site s = rich_site(p, r, 150000);
        int bad = (int) r.range(1, r.pct(10) ? 30 : 6), good = (int) r.range(1, 4);
        for(int c = 0; c < bad + good; c++) {
            Item &cl = add_client(p, r, c);
            if(bad > 6) cl.set("t", r.range(0, 2000));
            if(r.pct(40)) cl.set("mode", "pipe");
            rich_reqs(p, r, c, s, (int) r.range(1, 6));
            if(r.pct(20)) cl.set("end", r.pct(50) ? "close" : "rst");
        }
        fault_swarm(p, r, bad);
        for(auto &i : p.items) if(i.kind == "client" && i.num("id") < bad && r.pct(20)) i.set("stall_rx", r.range(0, 20000));
        return;
    }
    use_handler(p, r);
    vector<string> paths;
    int nf = (int) r.range(2, 6);
    for(int i = 0; i < nf; i++) { add_file(p, r, "/www/f" + std::to_string(i), r.pct(30) ? 150000 : 9000); paths.push_back("/f" + std::to_string(i)); }
    paths.push_back("/nothing");
    paths.push_back("/");
    int bad = (int) r.range(1, 5), good = (int) r.range(1, 4);
    for(int c = 0; c < bad + good; c++) {
        Item &cl = add_client(p, r, c);
        if(r.pct(40)) cl.set("mode", "pipe");
        reqs_for(p, r, c, paths, (int) r.range(1, 6));
        if(r.pct(20)) cl.set("end", r.pct(50) ? "close" : "rst");
    }
    fault_swarm(p, r, bad);
    for(auto &i : p.items) if(i.kind == "client" && i.num("id") < bad && r.pct(20)) i.set("stall_rx", r.range(0, 20000));
}
static void run_isolation(const Plan &p) {
    Srv s(p);
    s.setup();
    bool ab = false;
    s.on_response = [&](Client &, Req &, Resp &) { for(auto &c : s.clients) if(c->aborted || c->stalled) ab = true; if(ab) R->nontrivial = 1; };
    s.run();
}
static RegScenario h04({"H04", "what one connection does never disturbs another", gen_isolation, run_isolation});

// ---------------------------------------------------------------- H06 reclamation
static void x_slow(Plan &p, int c, Rng &r) { for(auto &i : p.items) if(i.kind == "client" && i.num("id") == c) { i.set("snd", r.range(256, 8000)); i.set("rate", r.range(100, 5000)); } }
static void gen_reclaim(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    p.find("cfg");
    for(auto &i : p.items) if(i.kind == "cfg") i.set("heap", 1);
    bool mod = r.pct(12), rich = !mod && r.pct(60);    // handlers of modules, of a rich site, or just files
    Site site;
    if(rich) site = rich_site(p, r, 150000); else if(!mod) use_handler(p, r);
    vector<string> paths;
    int nf = (int) r.range(1, 3);
    if(!rich) for(int i = 0; i < nf; i++) { add_file(p, r, "/www/f" + std::to_string(i), r.pct(30) ? 150000 : 9000); paths.push_back("/f" + std::to_string(i)); }
    if(r.pct(60)) paths.push_back("/nothing" + word(r, 4));
    if(r.pct(50)) paths.push_back("/");
    if(r.pct(30)) { p.add("dir").set("path", "/www/sub"); paths.push_back("/sub"); paths.push_back("/sub/"); }
    if(r.pct(20)) paths.push_back("/" + word(r, (int) r.range(900, 4500)));
    if(mod) {
        static const char *mods[] = {"gif", "diag", "lua"};
        for(auto m : mods) {
            p.add("file").set("path", string("/modules/libviriatum_mod_") + m + ".so").set("data", "lit:x");
            p.add("loc").set("name", string("m") + m).set("path", string("^/") + m).set("handler", m);
            for(int k = (int) r.range(1, 3); k > 0; k--) paths.push_back(string("/") + m);
        }
        static const char *scripts[] = {
            "function handle() collectgarbage(); write_connection(connection, \"HTTP/1.1 200 OK\\r\\nContent-Length: 2\\r\\n\\r\\nok\", 40) end",
            "function handle() collectgarbage(); local s = \"HTTP/1.1 200 OK\\r\\nContent-Length: 2\\r\\n\\r\\n\"; write_connection(connection, s, #s); write_connection(connection, \"ok\", 2) end",
            "function handle() collectgarbage(); error(\"x\") end",
            "function handle() collectgarbage(); write_connection(connection, \"x\", 5000) end",
            "function handle() collectgarbage() end",
            "function handle( (",
            "error(\"x\")",
        };
        if(r.pct(90)) p.add("file").set("path", "/cwd/default.lua").set("data", string("lit:") + scripts[r.below(7)]);
    }
    int nc = (int) r.range(1, 5);
    vector<Item> cl, rq;
    Plan tmp;
    for(int c = 0; c < nc; c++) {
        Item &x = add_client(tmp, r, c);
        if(r.pct(40)) x.set("mode", "pipe");
        if(r.pct(20)) x.set("end", r.pct(50) ? "close" : "rst");
        if(rich) rich_reqs(tmp, r, c, site, (int) r.range(1, 6)); else reqs_for(tmp, r, c, paths, (int) r.range(1, 6));
        if(rich && r.pct(30)) x_slow(tmp, c, r);
        if(r.pct(20)) {
            static const char *junk[] = {"lit:GARBAGE\r\n\r\n", "lit:GET\r\n\r\n", "lit:GET / HTTP/1.1\r\nContent-Length: zz\r\n\r\n", "lit:GET / HTTP/9.9\r\n\r\n", "lit:POST /f0 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "lit:\x16\x03\x01\x02"};
            tmp.add("req").set("c", c).set("raw", junk[r.below(6)]);
        }
    }
    fault_swarm(tmp, r, nc);
    for(auto &i : tmp.items) if(i.kind == "req" && i.get("p") == "/lua" && i.get("m") == "HEAD") i.set("m", "GET");   // (a script can not tell)
    for(auto &i : tmp.items) p.items.push_back(i);
}
static void run_reclaim(const Plan &p) {
    Srv s(Rounds::expand(p, Rounds::MAX));
    s.setup();
    Rounds rounds;
    s.on_phase = [&](int k) { rounds.phase(s, k); };
    s.run();
}
static RegScenario h06({"H06", "descriptors and memory return to their idle level after any workload", gen_reclaim, run_reclaim});

// ---------------------------------------------------------------- H07 liveness
static void gen_live(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    for(auto &i : p.items) if(i.kind == "cfg") { i.set("eintr", r.range(0, 30)); i.set("subset", r.range(0, 95)); if(r.pct(50)) i.set("short_read", r.range(20, 95)); }
    if(r.pct(12)) {
        // a crowd arrives at once
        Site s = rich_site(p, r, 8000);
        int nc = (int) r.range(9, 90);
        i64 spread = r.pct(60) ? 0 : r.range(1, 3000), lat = r.range(1, 500);
        for(int c = 0; c < nc; c++) {
            Item &cl = p.add("client");
            cl.set("id", c).set("t", spread ? r.range(0, spread) : 0).set("lat", lat);
            if(r.pct(30)) cl.set("mode", "pipe");
            if(r.pct(30)) cl.set("snd", r.range(32, 4000));
            rich_reqs(p, r, c, s, (int) r.range(1, 2));
        }
        if(r.pct(30)) fault_swarm(p, r, (int) r.below((u64) nc));
        return;
    }
    if(r.pct(2)) {
        // more input at once than one round of reading takes, several times in a row
        for(auto &i : p.items) if(i.kind == "cfg") i.del("short_read");
        if(r.pct(60)) use_handler(p, r);
        add_file(p, r, "/www/f", 5000);
        int nc = (int) r.range(1, 2);
        for(int c = 0; c < nc; c++) {
            Item &cl = p.add("client");
            cl.set("id", c).set("lat", r.range(1, 300)).set("snd", 8 << 20).set("rcv", 8 << 20);
            if(r.pct(50)) cl.set("mode", "pipe");
            int n = (int) r.range(1, 3);
            for(int i = 0; i < n; i++) {
                Item &q = add_req(p, c, r.pct(80) ? "/f" : "/absent");
                if(r.pct(80)) q.set("m", r.pct(50) ? "POST" : "GET").set("body", "gen:7:" + std::to_string(r.range(900000, 3600000)));
                if(r.pct(20)) q.set("chunked", r.range(1000, 400000));
            }
        }
        return;
    }
    if(r.pct(40)) {
        Site s = rich_site(p, r, 60000);
        int nc = (int) r.range(2, 8);
        for(int c = 0; c < nc; c++) {
            Item &cl = add_client(p, r, c);
            if(r.pct(50)) cl.set("mode", "pipe");
            if(r.pct(50)) cl.set("snd", r.range(32, 4000));
            if(r.pct(50)) cl.set("rcv", r.range(16, 400));
            rich_reqs(p, r, c, s, (int) r.range(1, 6));
            if(r.pct(20)) { cl.set("stall_rx", r.range(0, 3000)); cl.set("stall_t", r.range(100, 300000)); }
        }
        fault_swarm(p, r, (int) r.below((u64) nc));
        return;
    }
    use_handler(p, r);
    vector<string> paths;
    int nf = (int) r.range(1, 4);
    for(int i = 0; i < nf; i++) { add_file(p, r, "/www/f" + std::to_string(i), r.pct(30) ? 60000 : 5000); paths.push_back("/f" + std::to_string(i)); }
    paths.push_back("/absent");
    int nc = (int) r.range(2, 8);
    i64 t0 = r.pct(50) ? 0 : r.range(0, 20000);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(r.pct(60)) cl.set("t", t0 + r.range(0, 30));   // bursts
        if(r.pct(50)) cl.set("mode", "pipe");
        if(r.pct(50)) cl.set("snd", r.range(32, 4000));
        if(r.pct(50)) cl.set("rcv", r.range(16, 400));
        reqs_for(p, r, c, paths, (int) r.range(1, 6));
        if(r.pct(20)) { cl.set("stall_rx", r.range(0, 3000)); cl.set("stall_t", r.range(100, 300000)); }
    }
    if(r.pct(30)) p.add("fault").set("kind", "wall").set("t", r.range(0, 50000)).set("jump", (r.pct(50) ? 1 : -1) * r.range(1, 100000) * 1000000);
    fault_swarm(p, r, (int) r.below((u64) nc));
}
static void run_live(const Plan &p) {
    R->nontrivial = 1;
    Srv s(p);
    s.setup();
    // bounded progress: the server may not burn calls without end for what the peers ask
    s.on_quiet = [&]() {
        u64 bytes = 0, segs = 0;
        for(auto &w : W->wires) { bytes += w->bytes_in + w->bytes_out; }
        segs = W->seq;
        u64 bound = 4000 + 40 * segs + 12 * bytes + W->now / 500000;       // (two a second for its timer)
        if(W->calls > bound) violation("the server needed %llu system calls for %llu bytes moved in %llu events: busy waiting", (unsigned long long) W->calls, (unsigned long long) bytes, (unsigned long long) segs);
        return false;
    };
    s.run();
}
static RegScenario h07({"H07", "no lost wakeup: every accepted request is answered without further stimulus", gen_live, run_live});

// ---------------------------------------------------------------- H08 persistence
static void gen_persist(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    bool rich = r.pct(60);
    Site site;
    if(rich) site = rich_site(p, r, 30000); else use_handler(p, r);
    vector<string> paths;
    int nf = rich ? 0 : (int) r.range(1, 3);
    for(int i = 0; i < nf; i++) { add_file(p, r, "/www/f" + std::to_string(i), 30000); paths.push_back("/f" + std::to_string(i)); }
    paths.push_back("/absent"); paths.push_back("/");
    int nc = (int) r.range(1, 6);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        bool pipe = r.pct(30);
        if(pipe) cl.set("mode", "pipe");
        int n = (int) r.range(1, 6);
        if(rich) rich_reqs(p, r, c, site, n, false); else reqs_for(p, r, c, paths, n);
        int k = 0;
        for(auto &q : p.items) if(q.kind == "req" && q.num("c") == c) {
            k++;
            if(r.pct(25)) q.set("v", "HTTP/1.0");
            if(r.pct(12) || (k == n && r.pct(50))) q.set("conn", r.pct(60) ? "close" : "none");
        }
        // requests pipelined behind one that ends the connection are not answered
        if(pipe) { int cut = -1; k = 0; for(auto &q : p.items) if(q.kind == "req" && q.num("c") == c) { if(q.has("conn") && cut < 0) cut = k; k++; }
            if(cut >= 0 && r.pct(70)) { k = 0; for(size_t i = 0; i < p.items.size();) { if(p.items[i].kind == "req" && p.items[i].num("c") == c && k++ > cut) p.items.erase(p.items.begin() + (long) i); else i++; } } }
    }
}
static RegScenario h08({"H08", "connections persist or close as the response announced", gen_persist, run_framing});
