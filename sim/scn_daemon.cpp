// H27: the server as a daemon. fork(), setsid(), chdir(), the standard streams
// and the pid and log files are simulated; the process that is followed is the
// child or the parent of the fork.
#include "gen.h"
#include <csignal>

static const char *PIDF = "/var/run/viriatum.pid", *LOGF = "/var/log/viriatum.log", *LOGE = "/var/log/viriatum.err";

static void gen_daemon(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    string args = "--daemon";
    if(r.pct(15)) { p.add("gen").set("key", "ip6").set("val", "1"); }
    bool six = p.find("gen") != nullptr;
    bool ssl = r.pct(15);                                      // (a signal ends TLS connections without a close_notify: not together)
    if(ssl) p.add("gen").set("key", "ssl").set("val", "1");
    Site s = rich_site(p, r, 9000);
    int nc = (int) r.range(1, 3);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(cl.has("seg") && cl.num("seg") < 4) cl.set("seg", r.range(4, 12));
        if(r.pct(30)) cl.set("mode", "pipe");
        if(six && r.pct(60)) cl.set("six", 1);
        rich_reqs(p, r, c, s, (int) r.range(1, 4));
    }
    Item d; d.kind = "daemon";
    if(r.pct(20)) d.set("stdin", "closed");
    auto nth = [&](const char *call, i64 n, int err) { p.add("fault").set("kind", "nth").set("start", 1).set("call", call).set("n", n).set("err", err); };
    switch(r.below(12)) {
        case 0: d.set("role", "parent"); break;
        case 1: nth("fork", 1, r.pct(50) ? EAGAIN : ENOMEM); break;
        case 2: if(r.pct(50)) nth("setsid", 1, EPERM); else nth("chdir", 1, EACCES); break;
        case 3: case 4:                                        // the pid file can not be written
            switch(r.below(4)) {
                case 0: d.set("norun", 1); break;
                case 1: d.set("piderr", r.pct(50) ? EACCES : EROFS); break;
                case 2: d.set("pidcap", r.range(0, 5)); break;
                default: nth(r.pct(70) ? "fwrite" : "fclose", 1, r.pct(50) ? EIO : ENOSPC); break;
            }
            if(r.pct(30)) d.set("stale", r.pct(50) ? "9999999\n" : "77\n");
            break;
        case 5:                                                // the log files can not be opened
            switch(r.below(3)) {
                case 0: d.set("nolog", 1); break;
                case 1: d.set("logerr", r.range(1, 3)); break;
                default: nth("dup2", r.range(1, 2), EBUSY); break;
            }
            break;
        case 6: case 7: {                                      // the start fails behind the fork
            static const char *calls[] = {"socket", "bind", "listen", "epoll_create", "epoll_add"};
            static const int errs[] = {EMFILE, EADDRINUSE, EADDRINUSE, ENFILE, ENOSPC};
            size_t k = r.below(6);
            if(k == 5) args += r.pct(50) ? " --handler=bogus" : " --host=nonsense";
            else nth(calls[k], 1, errs[k]);
            if(r.pct(30)) d.set("running", 1);                 // (and another daemon is serving)
            break;
        }
        case 8: args += r.pct(50) ? " --version" : " --help"; d.set("running", 1); break;
        case 9: d.set("stale", r.pct(30) ? "" : r.pct(50) ? "9999999\n" : "77\n"); break;
        default: break;
    }
    if(r.pct(10) && args == "--daemon" && !d.has("role")) { args = r.pct(50) ? "" : "--port=9090"; d.set("foreground", 1); d.set("running", 1); for(auto i = p.items.begin(); i != p.items.end();) if(i->kind == "fault") i = p.items.erase(i); else ++i; }
    for(auto &i : p.items) if(i.kind == "cfg") { if(!args.empty()) i.set("args", args); if(!ssl && r.pct(25)) i.set("stop_call", r.range(1, 600)); }
    if(!ssl && r.pct(20)) { static const int sg[] = {SIGTERM, SIGINT, SIGHUP}; p.add("fault").set("kind", "sig").set("t", r.range(0, 200000)).set("sig", sg[r.below(3)]); }
    p.items.push_back(d);
}
static void run_daemon(const Plan &p) {
    Srv s(p);
    s.setup();
    s.expect_exit0 = false;
    const Item *d = p.find("daemon");
    Item none;
    if(!d) d = &none;
    const Item *cfg = p.find("cfg");
    string args = cfg ? cfg->get("args") : "";
    bool daemon = args.find("--daemon") != string::npos, info = args.find("--version") != string::npos || args.find("--help") != string::npos;
    bool badargs = args.find("bogus") != string::npos || args.find("nonsense") != string::npos;
    bool parent = d->get("role") == "parent";
    W->fork_result = parent ? 4243 : 0;
    // standard streams are descriptors like any other
    W->std_model = true;
    for(int k = 0; k < 3; k++) {
        W->fds.emplace_back(nullptr);
        if(k == 0 && d->get("stdin") == "closed") continue;
        W->fds[k].reset(new Fd());
        W->fds[k]->kind = FD_STD;
        W->fds[k]->path = "tty";
    }
    if(!d->num("norun", 0)) W->mkdirs("/var/run");
    if(!d->num("nolog", 0)) W->mkdirs("/var/log");
    static const string OTHER = "999\n";
    string before;                                             // what the pid file holds before
    bool had = false;
    if(W->lookup("/var/run")) {
        if(d->num("running", 0)) { W->mkfile(PIDF, before = OTHER); had = true; }
        else if(d->has("stale")) { W->mkfile(PIDF, before = d->get("stale")); had = true; }
        if(d->has("piderr")) { if(!had) { W->mkfile(PIDF, ""); had = true; } W->lookup(PIDF)->open_err = (int) d->num("piderr"); }
        if(d->has("pidcap")) { if(!had) { W->mkfile(PIDF, ""); had = true; } W->lookup(PIDF)->write_cap = d->num("pidcap"); }
    }
    if(W->lookup("/var/log")) {
        if(d->num("logerr", 0) & 1) { W->mkfile(LOGF, ""); W->lookup(LOGF)->open_err = EACCES; }
        if(d->num("logerr", 0) & 2) { W->mkfile(LOGE, ""); W->lookup(LOGE)->open_err = EACCES; }
    }
    bool piddenied = d->num("norun", 0) || d->has("piderr") || (d->has("pidcap") && d->num("pidcap") < 5);
    bool logdenied = d->num("nolog", 0) || d->num("logerr", 0);
    auto content = [](string &v) { NodeP n = W->lookup(PIDF); if(!n) return false; v = n->data; return true; };
    auto fd = [](int k) { Fd *f = W->get(k); return f && f->kind == FD_STD ? f->path : string(f ? "reused" : "closed"); };
    auto serving = [&](const char *when) {
        if(!daemon) {
            string v;
            if(content(v) != had || v != before) violation("in the foreground the server changes the pid file of the daemon that is running (%s)", when);
            if(W->forks || W->sessions || W->cwd != "/cwd") violation("in the foreground the server leaves its terminal (%s)", when);
            return;
        }
        bool pd = piddenied || W->fired.count("fwrite") || W->fired.count("fclose");
        string v;
        bool is = content(v);
        if(is && v != "4243\n" && !(pd && had && v == before)) violation("while the daemon serves (%s) its pid file holds \"%s\" instead of its process id", when, esc(v).c_str());
        if(!is && !pd) violation("while the daemon serves (%s) it has no pid file", when);
        if(W->forks != 1 || W->sessions != 1) violation("the daemon serves (%s) in the session it was started from", when);
        if(W->cwd != "/") violation("the daemon serves (%s) in the directory it was started in", when);
        if(fd(0) == "tty") violation("the daemon serves (%s) with the standard input of its starter", when);
        bool ld = logdenied || W->fired.count("dup2");
        if(!ld && (fd(1) != LOGF || fd(2) != LOGE)) violation("the daemon serves (%s) with its output going to %s and its errors to %s", when, fd(1).c_str(), fd(2).c_str());
    };
    s.on_response = [&](Client &, Req &, Resp &) { serving("at a response"); };
    W->on_stop = [&]() { if(W->serving) serving("until the signal"); };
    s.strict = true;
    s.at_end = [&]() {
        string v;
        bool is = content(v);
        bool fired = !W->fired.empty(), pd = piddenied || W->fired.count("fwrite") || W->fired.count("fclose");
        if(info) {
            R->nontrivial = 1;
            if(s.exit_code != 0 || W->forks || !W->listen_on.empty()) violation("an informational start exits with %d after %d forks", s.exit_code, W->forks);
            if(is != had || v != before) violation("an informational start removes the pid file of the daemon that is running");
            return;
        }
        if(parent && daemon) {
            R->nontrivial = 1;
            if(s.exit_code != 0) violation("the parent of the daemon exits with code %d", s.exit_code);
            if(!W->listen_on.empty() || W->sessions || is != had || v != before) violation("the parent of the daemon does the work of its child");
            return;
        }
        if(W->stopping && !W->serving) {                          // signalled while it was starting
            if(s.exit_code != 0 && !fired && !pd && !logdenied && !badargs) violation("the daemon exits with code %d after a signal while it was starting", s.exit_code);
        }
        else if(!W->stopping) {
            R->nontrivial = 1;
            if(s.exit_code == 0) violation("the daemon gives up starting and reports success (exit code 0)");
            if(!fired && !pd && !logdenied && !badargs) violation("the daemon refuses to start (exit code %d) although nothing was denied to it", s.exit_code);
        }
        else {
            if(s.exit_code != 0) violation("the daemon exited with code %d after an orderly shutdown", s.exit_code);
            if(W->fired.count("fork") || W->fired.count("setsid") || W->fired.count("chdir")) violation("the daemon serves although it could not detach");
            if(badargs) violation("the daemon serves although its command line can not be carried out");
            bool any = false;
            for(auto &c : s.clients) if(!c->resps.empty()) any = true;
            if(any) R->nontrivial = 1;
            if(W->fds_open || open_streams()) violation("descriptors or streams still open after an orderly shutdown:%s", open_fd_list().c_str());
        }
        if(!daemon) { if(is != had || v != before) violation("in the foreground the server removes the pid file of the daemon that is running"); return; }
        if(is && had && v == before && (pd || !W->forks || (W->fired.count("setsid") || W->fired.count("chdir")))) return;   // it never got to it
        if(d->num("running", 0) && (!is || v != OTHER)) violation("a daemon that can not start takes away the pid file of the daemon that is running");
        else if(d->num("running", 0)) return;
        else if(is) violation("the daemon has ended and its pid file (\"%s\") is still there", esc(v).c_str());
    };
    s.run();
}
static RegScenario h27({"H27", "as a daemon the server detaches, keeps a true pid file and serves the same", gen_daemon, run_daemon});
