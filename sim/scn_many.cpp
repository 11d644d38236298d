// Crowds: more connections than one batch of the poller takes.
#include "proxy_gen.h"
#include <csignal>

// ---------------------------------------------------------------- H24
static void gen_crowd(Plan &p, Rng &r, bool) {
    Item &c0 = p.add("cfg");
    c0.set("cost", r.pct(50) ? r.range(1, 20) : r.range(20, 300));
    if(r.pct(30)) c0.set("subset", r.range(10, 60));
    if(r.pct(20)) c0.set("eintr", r.range(1, 10));
    if(r.pct(25)) c0.set("stale", 1);
    size_t cfgi = p.items.size() - 1;
    bool proxy = r.pct(45);
    vector<string> paths;
    int nf = (int) r.range(1, 3);
    for(int i = 0; i < nf; i++) { add_file(p, r, "/www/f" + std::to_string(i), 3000); paths.push_back("/f" + std::to_string(i)); }
    paths.push_back("/"); paths.push_back("/absent");
    if(proxy) {
        p.add("up").set("port", 9000).set("lat", r.range(1, 300));
        p.add("loc").set("name", "pp").set("path", "^/p/").set("handler", "proxy").set("proxy_pass", "http://127.0.0.1:9000/");
    }
    int n = (int) (r.pct(55) ? r.range(1000, 2200) : r.pct(60) ? r.range(500, 1100) : r.range(100, 600));
    if(proxy) n = std::min(n, 1300);
    i64 lat = r.range(1, 200), gapc = r.range(5, 60);
    bool hang = proxy && r.pct(50);                  // the upstream keeps everybody waiting
    i64 end = 3000000 + n * gapc * 20;
    int how = (int) r.below(4);                      // how the crowd leaves: on its own, all at once (two ways), by a signal
    if(hang && how == 0) how = 1;
    int tags = 0;
    for(int c = 0; c < n; c++) {
        Item &cl = p.add("client");
        cl.set("id", c).set("t", (i64) c * gapc + r.range(0, 30)).set("lat", lat);
        if(how == 1 || how == 2) cl.set("abort", how == 1 ? "close" : "rst").set("abort_t", end - (i64) c * gapc);
        if(r.pct(10)) cl.set("think", r.range(1, 200000));
        int k = r.pct(70) ? 1 : 2;
        for(int i = 0; i < k; i++) {
            if(proxy && r.pct(80)) {
                string tag = "t" + std::to_string(tags++);
                add_req(p, c, "/p/x", "GET").set("tag", tag);
                Item &u = p.add("uresp").set("port", 9000).set("tag", tag).set("body", "gen:" + std::to_string(c) + ":" + std::to_string(r.range(0, 300)));
                if(hang) { u.set("fault", "hang").set("cut", r.range(0, 60)); break; }
            } else {
                Item &q = add_req(p, c, r.pick(paths), r.pct(85) ? "GET" : "HEAD");
                if(i == k - 1 && r.pct(10)) q.set("conn", "close");
            }
        }
    }
    p.items[cfgi].set("maxcalls", 2000000);
    if(how == 3) p.add("fault").set("kind", "sig").set("t", r.pct(50) ? end : r.range(1, end)).set("sig", r.pct(60) ? SIGTERM : SIGINT);
}
static void run_crowd(const Plan &p) {
    Srv s(p);
    s.setup();
    s.check_fds_at_exit = true;
    R->nontrivial = 1;
    s.run();
}
static RegScenario h24({"H24", "any number of connections is served at the same time", gen_crowd, run_crowd});
