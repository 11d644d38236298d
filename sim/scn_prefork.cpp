// H29: the server built with its prefork support. fork() returns as the master
// or as one of the workers of the one simulated process; the others exist as
// processes that can be signalled and waited for and that take connections.
#include "gen.h"
#include "http.h"
#include <csignal>

static const char *PIDF = "/var/run/viriatum.pid";

static void gen_prefork(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    int n = (int) (r.pct(75) ? r.range(1, 5) : r.pct(30) ? 0 : r.pct(50) ? r.range(60, 70) : r.pct(60) ? r.range(71, 255) : r.range(256, 2000));
    if(r.pct(15)) p.add("gen").set("key", "ip6").set("val", "1");
    p.add("gen").set("key", "workers").set("val", std::to_string(n));
    Site s = rich_site(p, r, 9000);
    int nc = (int) r.range(1, 4);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(cl.has("seg") && cl.num("seg") < 4) cl.set("seg", r.range(4, 12));
        if(r.pct(30)) cl.set("mode", "pipe");
        rich_reqs(p, r, c, s, (int) r.range(1, 4));
    }
    if(n && r.pct(70)) {                                       // connections that the siblings take
        int k = (int) r.range(1, 5);
        for(int c = 0; c < k; c++) p.add("client").set("id", 50 + c).set("sibling", 1).set("t", r.range(0, 60000)).set("lat", r.range(1, 3000)).set("abort", r.pct(50) ? "close" : "rst").set("abort_t", r.range(100000, 400000));
    }
    Item d; d.kind = "prefork";
    d.set("slow", r.pct(50) ? r.range(0, 3000000) : 0);
    bool daemon = r.pct(30);
    if(n && r.pct(45)) d.set("worker", r.range(0, std::min(n, 64) - 1));
    else if(n && r.pct(30)) d.set("dead", r.range(0, std::min(n, 64) - 1));
    auto nth = [&](const char *call, i64 k, int err) { p.add("fault").set("kind", "nth").set("start", 1).set("call", call).set("n", k).set("err", err); };
    if(r.pct(30)) {
        if(n && !d.has("worker") && r.pct(50)) nth("fork", (daemon ? 2 : 1) + r.range(0, std::min(n, 64) - 1), r.pct(50) ? EAGAIN : ENOMEM);
        else if(r.pct(50)) nth("epoll_create", 1, EMFILE);
        else if(r.pct(50)) nth("epoll_add", 1, ENOSPC);
        else nth(r.pct(50) ? "bind" : "listen", 1, EADDRINUSE);
    }
    for(auto &i : p.items) if(i.kind == "cfg") { if(daemon) i.set("args", "--daemon"); if(r.pct(20)) i.set("stop_call", r.range(1, 800)); }
    if(r.pct(20)) { static const int sg[] = {SIGTERM, SIGINT, SIGHUP}; p.add("fault").set("kind", "sig").set("t", r.range(0, 300000)).set("sig", sg[r.below(3)]); }
    p.items.push_back(d);
}
static void run_prefork(const Plan &p) {
    Srv s(p);
    s.setup();
    s.expect_exit0 = false;
    s.strict = true;
    const Item *d = p.find("prefork"), *cfg = p.find("cfg");
    Item none;
    if(!d) d = &none;
    bool daemon = cfg && cfg->get("args").find("--daemon") != string::npos;
    int n = 0;
    for(auto &i : p.items) if(i.kind == "gen" && i.get("key") == "workers") n = atoi(i.get("val").c_str());
    int want = std::min(n, 64), worker = d->has("worker") ? (int) d->num("worker") : -1;
    W->child_end = (u64) d->num("slow", 0);
    W->fork_fn = [=](int nr) {
        if(daemon && nr-- == 0) { W->pid = 4243; return 0; }
        if(nr == worker) { W->pid = 5000 + nr; return 0; }
        return 5000 + nr;
    };
    if(daemon) {
        W->std_model = true;
        for(int k = 0; k < 3; k++) { W->fds.emplace_back(nullptr); W->fds[k].reset(new Fd()); W->fds[k]->kind = FD_STD; W->fds[k]->path = "tty"; }
        W->mkdirs("/var/run"); W->mkdirs("/var/log");
    }
    W->taken = [&](const WireP &w) { Client *c = dynamic_cast<Client *>(w->peer); return c && c->it.num("sibling", 0); };
    auto is_worker = [&]() { return W->pid >= 5000; };
    auto serving = [&]() {
        if(W->stopping) return;
        if(!is_worker() && (int) W->children.size() != want) violation("the server is configured for %d workers (64 at most) and serves with %zu", n, W->children.size());
        for(auto &c : W->children) if(c.told || c.reaped) violation("worker %d is told to end while the server serves", c.pid);
    };
    s.on_response = [&](Client &, Req &, Resp &) { R->nontrivial = 1; serving(); };
    W->on_stop = [&]() {
        if(d->has("dead") && (size_t) d->num("dead") < W->children.size()) W->children[(size_t) d->num("dead")].end = 1;
    };
    s.at_end = [&]() {
        bool fired = !W->fired.empty();
        NodeP pf = W->lookup(PIDF);
        if(is_worker()) {
            for(auto &c : W->children) if(c.told || c.reaped) violation("a worker of the server ends its sibling %d", c.pid);
            if(W->forks != worker + 1 + daemon) violation("worker %d of the server starts processes of its own", worker);
            if(daemon && (!pf || pf->data != "4243\n")) violation("a worker that ends takes away the pid file of the daemon");
        } else {
            for(auto &c : W->children) if(!c.told || !c.reaped) violation("worker %d outlives the server, which ends with code %d%s", c.pid, s.exit_code, c.told ? " without having waited for it" : "");
            if(daemon && pf) violation("the daemon has ended and its pid file (\"%s\") is still there", esc(pf->data).c_str());
        }
        R->nontrivial = 1;
        if(W->stopping && W->serving) {
            if(s.exit_code != 0) violation("the server exited with code %d after an orderly shutdown", s.exit_code);
            if(W->fds_open || open_streams()) violation("descriptors or streams still open after an orderly shutdown:%s", open_fd_list().c_str());
        } else if(!W->stopping) {
            if(s.exit_code == 0) violation("the server gives up starting and reports success (exit code 0)");
            if(!fired) violation("the server refuses to start (exit code %d) although nothing was denied to it", s.exit_code);
        }
    };
    s.run();
}
static RegScenario h29({"H29", "with workers every process serves the same and none outlives the master", gen_prefork, run_prefork});
