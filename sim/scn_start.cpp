// Scenarios about the start of the server and the meaning of its configuration.
#include "proxy_gen.h"
#include <pcre.h>

// ---------------------------------------------------------------- H21 the configuration means what it says
static void six_listener(Plan &p, Rng &r) {
    p.add("gen").set("key", "ip6").set("val", "1");
    static const char *h[] = {"[::]", "[::1]"};
    if(r.pct(60)) p.add("gen").set("key", "ip6_host").set("val", h[r.below(2)]);
}
static void conf_load(Plan &p, Rng &r, int nc, bool six) {
    bool proxy = r.pct(20);
    int tags = 0;
    PSite ps; Site s;
    if(proxy) ps = proxy_site(p, r);
    else s = rich_site(p, r, 9000);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(cl.has("seg") && cl.num("seg") < 4) cl.set("seg", r.range(4, 12));
        if(r.pct(30)) cl.set("mode", "pipe");
        if(six && r.pct(60)) cl.set("six", 1);
        if(proxy) {
            int n = (int) r.range(1, 4);
            for(int i = 0; i < n; i++) {
                if(!ps.local.empty() && r.pct(30)) add_req(p, c, r.pick(ps.local));
                else proxied(p, r, c, ps, tags, 6000, i == n - 1);
            }
        } else rich_reqs(p, r, c, s, (int) r.range(1, 5));
    }
    if(proxy) no_pipe_behind_eof(p);
}
static void gen_conf(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    for(auto &i : p.items) if(i.kind == "cfg") { i.set("ini", r.range(1, 1000000000)); if(r.pct(15)) i.set("timewait", 1); }
    bool six = r.pct(50);
    if(six) six_listener(p, r);
    static const char *yes[] = {"1", "On", "True"}, *no[] = {"0", "Off", "False"};
    if(r.pct(30)) p.add("gen").set("key", "ssl").set("val", r.pct(70) ? yes[r.below(3)] : no[r.below(3)]);
    if(r.pct(15)) for(auto &i : p.items) if(i.kind == "cfg") {
        static const char *a[] = {"--ssl", "--ip6", "--port=8443 --host=0.0.0.0", "--handler=file", "--handler=dispatch --port=1", "-port=80", "--verbose --port=65535", "--host=127.0.0.1 --ip6 --ssl"};
        i.set("args", a[r.below(8)]);
    }
    for(auto &i : p.items) if(i.kind == "gen" && i.get("key") == "ip6" && r.pct(60)) i.set("val", yes[r.below(3)]);
    if(r.pct(40)) p.add("gen").set("key", "port").set("val", std::to_string(r.range(1024, 65535)));
    if(r.pct(40)) p.add("gen").set("key", "host").set("val", r.pct(50) ? "0.0.0.0" : "127.0.0.1");
    conf_load(p, r, (int) r.range(1, 4), six);
    for(auto &i : p.items) if(i.kind == "gen" && i.get("key") == "index") {
        string v = i.get("val"), o;
        if(v.empty()) continue;
        if(r.pct(30)) o = "none.html ";
        for(char c : v) o += c == ' ' ? string((size_t) r.range(1, 3), ' ') : string(1, c);
        if(r.pct(30)) for(i64 k = r.range(1, 40); k > 0 && std::count(o.begin(), o.end(), ' ') < 30; k--) o += " x" + std::to_string(k);
        i.set("val", o);
    }
}
static void run_conf(const Plan &p) { R->nontrivial = 1; std_run(p); }
static RegScenario h21({"H21", "the configuration file means the same however it is written", gen_conf, run_conf});

// ---------------------------------------------------------------- H20 it starts as configured or not at all
static void gen_start(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    bool six = r.pct(40);
    if(six) six_listener(p, r);
    bool tls = r.pct(40);
    if(tls) { p.add("gen").set("key", "ssl").set("val", "1"); p.add("gen").set("key", "ssl_csr").set("val", "/etc/pki/s.crt"); p.add("gen").set("key", "ssl_key").set("val", "/etc/pki/s.key"); }
    conf_load(p, r, (int) r.range(1, 3), six);
    switch(r.below(8)) {
        case 0: case 1: {                        // the system refuses something
            static const char *calls[] = {"socket", "bind", "listen", "epoll_create", "epoll_add", "setsockopt", "epoll_add", "bind"};
            static const int errs[] = {EMFILE, EADDRINUSE, EADDRINUSE, ENFILE, ENOSPC, ENOBUFS, ENOMEM, EACCES};
            size_t k = r.below(8);
            p.add("fault").set("kind", "nth").set("start", 1).set("call", calls[k]).set("n", r.range(1, six ? (k == 5 ? 12 : 2) : (k == 5 ? 6 : 1))).set("err", errs[k]);
            break;
        }
        case 2: for(auto &i : p.items) if(i.kind == "cfg") i.set("fdlimit", r.range(0, six ? 5 : 4)); p.add("fault").set("kind", "fdlimit").set("t", 1).set("val", 1000000); break;
        case 3: {                                // the configuration file
            Item &f = p.add("fault").set("kind", "ini");
            switch(r.below(3)) {
                case 0: f.set("openerr", r.pct(50) ? EACCES : EIO); break;
                case 1: f.set("eio", r.range(0, 60)); break;
                default: f.set("missing", 1); break;
            }
            break;
        }
        case 4: {                                // the certificate or its key
            static const char *how[] = {"lit:", "lit:garbage", "gen:5:2000", "other", "gone", "openerr", "eio"};
            p.add("fault").set("kind", "cert").set("key", r.pct(50) ? 1 : 0).set("how", how[r.below(7)]);
            break;
        }
        case 5: {                                // a configuration that can not be carried out
            static const char *k[] = {"handler", "host", "ip6_host", "port", "host", "handler", "port", "port", "port", "index"};
            string many, v[] = {"bogus", "localhost", "[nonsense]", "0", "203.0.113.9.9", "", "65536", "http", "99999999999", ""};
            if(r.pct(20)) {
                static const char *bad[] = {"(", "^/a[", "*", "^/x(?<n", "a{2", "^/(ok)", "\\", "(?P<a>x)(?P<a>y)"};
                p.add("loc").set("name", "re").set("path", bad[r.below(8)]).set("handler", "file");
                break;
            }
            if(r.pct(5)) { i64 n = r.range(1000, 1040); for(i64 i = 0; i < n; i++) p.add("loc").set("name", "m" + std::to_string(i)).set("path", "^/m" + std::to_string(i) + "/").set("handler", "file"); break; }
            size_t j = r.below(10);
            if(j == 9) { if(r.pct(50)) v[9] = string((size_t) r.range(128, 900), 'i'); else for(i64 n = r.range(33, 60); n > 0; n--) v[9] += "i" + std::to_string(n) + " "; }
            for(auto i = p.items.begin(); i != p.items.end();) if(i->kind == "gen" && i->get("key") == k[j]) i = p.items.erase(i); else ++i;
            p.add("gen").set("key", k[j]).set("val", v[j]);
            break;
        }
        case 6:
            for(auto &i : p.items) if(i.kind == "cfg") {
                static const char *a[] = {"--handler=bogus", "--host=localhost", "--host", "--port=70000", "--port", "--port=0x50", "word", "-", "--", "--handler="};
                if(r.pct(20)) i.set("args", "--" + string(r.pct(50) ? "host=" : "k") + string((size_t) r.range(200, 2000), 'a'));
                else if(r.pct(75)) i.set("args", a[r.below(10)]);
                else i.set("timewait", 1);
            }
            break;
        default: break;
    }
}
static void run_start(const Plan &p) {
    Srv s(p);
    s.setup();
    s.expect_exit0 = false;
    string denied;
    auto deny = [&](const string &why) { if(denied.empty()) denied = why; };
    for(auto &i : p.items) {
        if(i.kind == "fault" && i.get("kind") == "ini") {
            NodeP n = W->lookup("/conf/viriatum.ini");
            if(n && (n->open_err || (n->eio_off >= 0 && n->eio_off < (i64) n->data.size()))) deny("its configuration file can not be read");
        }
        if(i.kind == "fault" && i.get("kind") == "cert" && s.tls) {
            bool key = i.num("key") != 0;
            string f = s.general[key ? "ssl_key" : "ssl_csr"], how = i.get("how");
            NodeP n = W->lookup(f);
            if(!n) continue;
            if(how == "gone") W->fs.erase(f);
            else if(how == "openerr") n->open_err = EACCES;
            else if(how == "eio") n->eio_off = 10;
            else if(how == "other") n->data = key ? TLS_KEY2 : TLS_CERT2;
            else n->data = expand(how);
            deny(string("its ") + (key ? "key" : "certificate") + " is unusable");
        }
    }
    auto bad_port = [](const string &v) { u64 n = 0; for(char c : v) n = isdigit((unsigned char) c) && n < 1000000 ? n * 10 + (u64) (c - '0') : 1000000; return v.empty() || n > 65535; };
    bool overridden = false;                     // a bad value of the file that the command line replaces
    for(auto &i : p.items) if(i.kind == "gen" && i.get("key") == "port" && bad_port(i.get("val")) && s.general["port"] != i.get("val")) overridden = true;
    for(auto &g : s.general) {
        const string &k = g.first, &v = g.second;
        if(k == "handler" && v != "file" && v != "dispatch" && v != "default" && v != "proxy") deny("there is no handler \"" + v + "\"");
        if(k == "host" && v != "127.0.0.1" && v != "0.0.0.0") deny("its host is not an address");
        if(k == "ip6_host" && v == "[nonsense]" && s.six) deny("its IPv6 host is not an address");
        if(k == "port" && bad_port(v)) deny("its port is not valid");
        if(k == "index") { size_t n = 0, i = 0; while(i < v.size()) { size_t e = std::min(v.find(' ', i), v.size()); if(e > i) n++; if(e - i > 127) n = 100; i = e + 1; } if(n > 32) deny("its index files are too many or too long"); }
    }
    for(auto &l : s.locs) {
        const char *err; int off;
        pcre *x = pcre_compile(l.path.c_str(), 0, &err, &off, nullptr);
        if(x) pcre_free(x);
        else deny("the path \"" + l.path + "\" of a location is not valid");
    }
    if(s.locs.size() > 1024) deny("it has too many locations");
    const Item *cfg = p.find("cfg");
    string a = cfg ? cfg->get("args") : "";
    for(size_t i = 0; i < a.size();) {
        size_t e = std::min(a.find(' ', i), a.size());
        string w = a.substr(i, e - i);
        i = e + 1;
        size_t q = w.find('='), d = w.compare(0, 2, "--") == 0 ? 2 : 1;
        if(!w.empty() && w[0] != '-') deny("its command line is not valid");
        if((q == string::npos ? w.size() : q) - d > 255 || (q != string::npos && w.size() - q > 1024)) deny("its command line is too long");
    }
    bool port0 = s.general.count("port") && s.general["port"] == "0", missing = false;
    for(auto &i : p.items) { if(i.kind == "fault" && i.get("kind") == "ini" && i.num("missing")) missing = true; }
    s.strict = true;
    if(missing) { s.model_on = false; s.strict = false; for(auto &c : s.clients) c->lenient = true; }   // the built-in defaults apply
    s.at_end = [&]() {
        bool sys = false;
        for(auto &f : W->fired) if(f.first != "setsockopt") sys = true;
        bool opt = W->fired.count("setsockopt");
        if(!W->stopping) {
            R->nontrivial = 1;
            if(s.exit_code == 0) violation("the server gives up starting and reports success (exit code 0)");
            if(!sys && !opt && denied.empty() && !port0 && !overridden) violation("the server refuses to start (exit code %d) although nothing was denied to it", s.exit_code);
            return;
        }
        if(s.exit_code != 0) violation("the server exited with code %d after an orderly shutdown", s.exit_code);
        if(!denied.empty()) violation("the server starts although %s", denied.c_str());
        bool any = false;
        for(auto &c : s.clients) if(!c->resps.empty()) any = true;
        if(any) R->nontrivial = 1;
        if(W->fds_open || open_streams()) violation("descriptors or streams still open after an orderly shutdown:%s", open_fd_list().c_str());
    };
    s.run();
}
static RegScenario h20({"H20", "the server starts as it is configured or refuses to start", gen_start, run_start});
