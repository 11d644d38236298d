// H23: the server built with select() as its polling mechanism (the one of the
// systems without epoll). The workloads, faults and oracles are the ones of the
// other properties; more connections than a descriptor set has room for on top.
#include "gen.h"
#include "http.h"

static const char *SUBS[] = {"H01", "H02", "H04", "H05", "H06", "H07", "H08", "H11", "H12", "H13", "H14", "H15", "H18", "H19", "H22"};
static const Scenario *sub(const string &prop) { for(auto &s : scenarios()) if(prop == s.prop) return &s; return nullptr; }

static void gen_limit(Plan &p, Rng &r) {
    Item &c0 = p.add("cfg");
    c0.set("cost", r.range(1, 20)).set("maxcalls", 2000000);
    size_t cfgi = p.items.size() - 1;
    add_file(p, r, "/www/f", 3000);
    int n = (int) r.range(1000, 1300), gap = (int) r.range(5, 40);
    i64 end = 3000000 + (i64) n * gap;
    for(int c = 0; c < n; c++) p.add("client").set("id", c).set("t", (i64) c * gap).set("abort", r.pct(50) ? "close" : "rst").set("abort_t", end - (i64) c * gap + r.range(0, 1000));
    for(int k = 0; k < 3; k++) {                                // and once they are gone
        add_client(p, r, n + k).set("t", end + 1000000 + k * 1000);
        int q = (int) r.range(1, 3);
        for(int i = 0; i < q; i++) add_req(p, n + k, r.pct(70) ? "/f" : "/absent", "GET");
    }
    if(r.pct(30)) p.items[cfgi].set("subset", r.range(10, 60));
}
static void gen_select(Plan &p, Rng &r, bool thorough) {
    size_t k = r.below(sizeof SUBS / sizeof *SUBS * 3 + 1);
    const char *of = k == 0 ? "limit" : SUBS[(k - 1) / 3];
    p.add("sub").set("of", of);
    if(k == 0) gen_limit(p, r);
    else sub(of)->gen(p, r, thorough);
}
static void run_select(const Plan &p) {
    const Item *i = p.find("sub");
    string of = i ? i->get("of") : "H01";
    R->stats[stat_id(strdup(("part:" + of).c_str()))]++;
    if(const Scenario *s = sub(of)) { s->run(p); return; }
    Srv s(p);
    s.setup();
    s.check_fds_at_exit = true;
    R->nontrivial = 1;
    s.run();
}
static RegScenario h23({"H23", "with select() as the polling mechanism everything holds the same", gen_select, run_select});
