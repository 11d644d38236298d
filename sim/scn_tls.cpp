// Scenarios over TLS: the server's own OpenSSL code, with real OpenSSL clients.
#include "proxy_gen.h"

static void use_tls(Plan &p, Rng &r) {
    p.add("gen").set("key", "ssl").set("val", "1");
    if(r.pct(40)) { p.add("gen").set("key", "ssl_csr").set("val", r.pct(50) ? "/etc/pki/site.crt" : "tls/site.crt"); p.add("gen").set("key", "ssl_key").set("val", "/etc/pki/site.key"); }
}
static void tls_client(Item &c, Rng &r) {
    if(r.pct(30)) c.set("tls", "1.2");
    if(r.pct(25)) c.set("frag", r.range(512, 4000));
    if(r.pct(15)) c.set("kupd", r.range(1, 4));
    if(r.pct(15)) c.set("kupd_rx", r.pct(50) ? r.range(1500, 6000) : r.range(1500, 60000));
    if(r.pct(30)) c.set("bye", 1);
    if(c.num("id") > 0 && r.pct(30)) c.set("resume", r.range(0, c.num("id") - 1));
    if(r.pct(30)) c.set("end", r.pct(60) ? "close" : "fin");
    // keep the number of records and segments bounded
    if(c.has("seg") && c.num("seg") < 4) c.set("seg", r.range(4, 12));
}
static void tls_load(Plan &p, Rng &r, int nc, bool thorough, int first = 0) {
    i64 max = r.pct(20) ? (thorough ? 400000 : 150000) : 20000;
    bool proxy = r.pct(25);
    if(proxy) {
        PSite s = proxy_site(p, r);
        int tags = 0;
        for(int c = first; c < first + nc; c++) {
            Item &cl = add_client(p, r, c);
            if(r.pct(30)) cl.set("mode", "pipe");
            tls_client(cl, r);
            cl.del("kupd_rx");                 // bytes on their way when the server closes turn the end into a reset
            int n = (int) r.range(1, 5);
            for(int i = 0; i < n; i++) {
                if(!s.local.empty() && r.pct(25)) add_req(p, c, r.pick(s.local), r.pct(80) ? "GET" : "HEAD");
                else proxied(p, r, c, s, tags, std::min(max, (i64) 40000), i == n - 1);
            }
        }
        no_pipe_behind_eof(p);
        return;
    }
    Site s = rich_site(p, r, max);
    for(int c = first; c < first + nc; c++) {
        Item &cl = add_client(p, r, c);
        if(r.pct(40)) cl.set("mode", "pipe");
        tls_client(cl, r);
        rich_reqs(p, r, c, s, (int) r.range(1, 6));
    }
}
static void gen_tls(Plan &p, Rng &r, bool thorough) {
    swarm_cfg(p, r);
    use_tls(p, r);
    tls_load(p, r, (int) r.range(1, 5), thorough);
}
static void run_tls(const Plan &p) {
    Srv s(p);
    s.setup();
    s.on_response = [&](Client &c, Req &, Resp &) { if(c.tls && c.tls->up) R->nontrivial = 1; };
    s.at_end = [&]() {
        if(tls_server_handles()) violation("%d TLS sessions are still allocated after an orderly shutdown", tls_server_handles());
        if(tls_server_contexts()) violation("%d TLS contexts are still allocated after an orderly shutdown", tls_server_contexts());
    };
    s.run();
}
static RegScenario h18({"H18", "TLS connections get the same answers as plain ones", gen_tls, run_tls});

// ---------------------------------------------------------------- hostile and dying TLS peers
static void gen_tlsfault(Plan &p, Rng &r, bool thorough) {
    swarm_cfg(p, r);
    for(auto &i : p.items) if(i.kind == "cfg") i.set("heap", 1);
    Plan tmp;
    use_tls(tmp, r);
    int nc = (int) r.range(1, 4), nb = (int) r.range(1, 5);
    tls_load(tmp, r, nc, thorough);
    string any = "/";
    for(auto &i : tmp.items) if(i.kind == "req" && !i.has("tag")) any = i.get("p");
    for(int c = nc; c < nc + nb; c++) {
        Item &cl = add_client(tmp, r, c);
        if(cl.has("seg") && cl.num("seg") < 4) cl.set("seg", r.range(4, 12));
        if(r.pct(30)) cl.set("tls", "1.2");
        static const char *how[] = {"rst", "close", "fin", "hang"};
        switch(r.below(5)) {
            case 0:                                            // no TLS at all
                cl.set("tls", "0");
                if(r.pct(50)) add_req(tmp, c, any);
                else if(r.pct(30)) {                           // TLS alerts instead of a handshake
                    static const string al[] = {string("\x15\x03\x01\x00\x02\x01\x00", 7), string("\x15\x03\x03\x00\x02\x02\x28", 7), string("\x15\x03\x01\x00\x02\x01\x5a", 7)};
                    tmp.add("req").set("c", c).set("raw", "lit:" + al[r.below(3)]);
                }
                else tmp.add("req").set("c", c).set("raw", r.pct(50) ? "gen:" + std::to_string(r.below(1000)) + ":" + std::to_string(r.range(1, 600)) : r.pct(50) ? "lit:\x16\x03\x01\xff\xff\x01" : "lit:\x16\x03\x01");
                if(r.pct(50)) cl.set("abort", how[r.below(3)]).set("abort_t", r.range(1000, 60000));
                continue;
            case 1: cl.set("abort", r.pct(15) ? "vanish" : how[r.below(4)]).set("abort_tx", r.range(0, 700)); break;      // dies within the handshake
            case 2: cl.set("abort", r.pct(15) ? "vanish" : how[r.below(4)]).set("abort_t", r.range(0, 60000)); break;
            case 3: cl.set("abort", how[r.below(3)]).set("abort_rx", r.range(1, 4000)); break;
            default: cl.set("tlsbad", r.range(0, 900)).set("abort", how[r.below(3)]).set("abort_t", r.range(20000, 200000)); break;
        }
        int n = (int) r.range(1, 3);
        for(int i = 0; i < n; i++) add_req(tmp, c, any);
    }
    for(auto &i : tmp.items) p.items.push_back(i);
    if(r.pct(60)) p.add("rounds").set("n", Rounds::MAX);
}
static void run_tlsfault(const Plan &p) {
    Srv s(Rounds::expand(p, Rounds::of(p)));
    s.setup();
    s.on_response = [&](Client &c, Req &, Resp &) { if(c.tls && c.tls->up && !c.aborted) R->nontrivial = 1; };
    Rounds rounds;
    s.on_phase = [&](int k) {
        if(tls_server_handles()) violation("after every peer has left %d TLS sessions stay allocated", tls_server_handles());
        rounds.phase(s, k);
    };
    s.at_end = [&]() {
        if(tls_server_handles()) violation("%d TLS sessions are still allocated after an orderly shutdown", tls_server_handles());
        if(tls_server_contexts()) violation("%d TLS contexts are still allocated after an orderly shutdown", tls_server_contexts());
    };
    s.run();
}
static RegScenario h19({"H19", "broken TLS peers disturb nobody, get nothing in the clear and leave nothing behind", gen_tlsfault, run_tlsfault});
