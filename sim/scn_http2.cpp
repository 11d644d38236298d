// Scenarios: access control, containment, disk faults, descriptor exhaustion,
// shutdown, listings and routing.
#include "proxy_gen.h"
#include <csignal>

static void users_file(Plan &p, Rng &r, vector<std::pair<string, string>> &users, const string &path) {
    string t;
    int n = (int) r.range(1, 5);
    for(int i = 0; i < n; i++) {
        string u = word(r, (int) r.range(1, 12)), w = word(r, (int) r.range(1, 20));
        users.push_back({u, w});
        t += u + ":" + w + (i + 1 < n || r.pct(50) ? "\n" : "");
    }
    p.add("file").set("path", path).set("data", "lit:" + t);
}
static string bad_auth(Rng &r, const vector<std::pair<string, string>> &users) {
    auto &u = users[r.below(users.size())];
    auto &v = users[r.below(users.size())];
    switch(r.below(16)) {
        case 0: return "Basic " + b64(u.first + ":" + u.second + "x");
        case 1: return "Basic " + b64(u.first + ":" + u.second.substr(0, u.second.size() - 1));
        case 2: return "Basic " + b64(u.first + ":");
        case 3: return "Basic " + b64(":" + u.second);
        case 4: return "Basic " + b64("nobody:" + u.second);
        case 5: return "Basic " + b64(u.first);
        case 6: return "Basic ";
        case 7: return "Basic";
        case 8: return b64(u.first + ":" + u.second);
        case 9: return "Basic " + b64(u.first + ":" + v.second);
        case 10: return "Basic " + b64(u.first + ":" + u.second).substr(0, 5);
        case 11: return "Basic " + word(r, (int) r.range(1, 300));
        case 12: return "Basic " + b64(string((size_t) r.range(60, 200), 'a') + ":" + u.second);
        case 13: return "Bearer " + word(r, 20);
        case 14: return "Basic " + b64(u.first + ":" + u.second + "\n");
        default: return "Basic ====";
    }
}
// different spellings of one path
static string spell(Rng &r, const string &path) {
    string o;
    for(size_t i = 0; i < path.size(); i++) {
        char c = path[i];
        if(c == '/' && r.pct(12)) o += "//";
        else if(c == '/' && r.pct(10)) o += "/./";
        else if(c == '/' && i && i + 1 < path.size() && r.pct(5)) o += r.pct(50) ? "%2f" : "%2F";
        else if(c != '/' && r.pct(6)) { char b[8]; snprintf(b, sizeof b, r.pct(50) ? "%%%02x" : "%%%02X", (unsigned char) c); o += b; }
        else o += c;
    }
    if(r.pct(10)) o += "?" + word(r, 5);
    return o;
}

// ---------------------------------------------------------------- H09 access control
static void gen_access(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    vector<std::pair<string, string>> users;
    users_file(p, r, users, "/conf/passwd");
    bool alias = r.pct(40), deflt = r.pct(15);
    string dir = alias ? "/data/vault" : "/www/secret";
    if(r.pct(50)) p.add("loc").set("name", "open").set("path", "^/open/");
    Item &l = p.add("loc");
    l.set("name", "secret").set("path", r.pct(70) ? "^/secret/" : r.pct(50) ? "/secret/" : "^/secret");
    if(alias) l.set("base_path", dir);
    l.set("auth_basic", r.pct(80) ? "Realm" : "two words").set("auth_file", deflt ? "$default" : "/conf/passwd");
    if(deflt) { users.clear(); users.push_back({"root", "root"}); }
    if(r.pct(30)) p.add("gen").set("key", "use_template").set("val", "0");
    p.add("file").set("path", dir + "/f0").set("data", "gen:1:" + std::to_string(pick_size(r, 5000)));
    p.add("file").set("path", dir + "/sub/f1").set("data", "gen:2:" + std::to_string(pick_size(r, 5000)));
    p.add("file").set("path", "/www/open/f2").set("data", "gen:3:" + std::to_string(pick_size(r, 5000)));
    int ph = r.pct(30) ? 1 : 0, id = 0;
    if(r.pct(25) && !deflt) {
        Item &f = p.add("fault").set("kind", "fs").set("path", "/conf/passwd").set("phase", 1);
        ph = 1;
        switch(r.below(4)) {
            case 0: f.set("op", "openerr").set("arg", r.pct(50) ? 13 : 24); break;
            case 1: f.set("op", "eio").set("arg", r.range(0, 20)); break;
            case 2: f.set("op", "delete"); break;
            default: { Plan t; vector<std::pair<string, string>> nu; users_file(t, r, nu, "x"); f.set("op", "replace").set("data", t.items[0].get("data")); }
        }
    }
    for(int k = 0; k <= ph; k++) {
        int nc = (int) r.range(1, 4);
        for(int c = 0; c < nc; c++, id++) {
            Item &cl = add_client(p, r, id);
            if(k) cl.set("phase", k);
            if(r.pct(40)) cl.set("mode", "pipe");
            int n = (int) r.range(1, 8);
            for(int i = 0; i < n; i++) {
                static const char *t[] = {"/secret/f0", "/secret/sub/f1", "/open/f2", "/secret/none", "/secret/", "/secret/sub/", "/secret", "/f0", "/secret/sub", "/secret/../secret/f0", "/open/../secret/f0", "/Secret/f0", "/secret/f0/"};
                string path = t[r.pct(60) ? r.below(2) : r.below(13)];
                if(r.pct(50)) path = spell(r, path);
                Item &q = add_req(p, id, path, r.pct(85) ? "GET" : r.pct(50) ? "HEAD" : "POST");
                if(q.get("m") == "POST") q.set("body", "lit:x=1");
                if(r.pct(45)) { auto &u = users[r.below(users.size())]; q.set("auth", "Basic " + b64(u.first + ":" + u.second)); }
                else if(r.pct(55)) q.set("auth", bad_auth(r, users));
                if(r.pct(15)) q.set("range", "bytes=0-");
                if(r.pct(10)) q.set("inm", "any");
            }
        }
    }
}
static void run_access(const Plan &p) {
    Srv s(p);
    s.setup();
    for(auto &i : p.items) if(i.kind == "fault" && i.get("path") == "/conf/passwd") for(auto &l : s.locs) l.auth_faulty = true;
    s.on_response = [&](Client &, Req &q, Resp &r) { if(q.target.find("secret") != string::npos && (r.status == 401 || r.status == 200)) R->nontrivial = 1; if(r.status == 401) STAT("probe:refused"); };
    s.run();
}
static RegScenario h09({"H09", "protected locations open only to valid credentials, however they are reached", gen_access, run_access});

// ---------------------------------------------------------------- H10 containment
static const char SECRET[] = "TOPSECRET-9f2c-MARKER";
static string hostile_path(Rng &r) {
    static const char *dots[] = {"..", "%2e%2e", ".%2e", "%2E.", "..;", "...", "%252e%252e", "..\\", "..%5c", ".", "%c0%ae%c0%ae", ". .", "..%00"};
    static const char *sep[] = {"/", "/", "/", "%2f", "//", "/./", "\\", "%5c", "%2F%2f"};
    static const char *tail[] = {"etc/passwd", "secret/key", "www-private/x", "conf/viriatum.ini", "conf/passwd", "cwd/secret", "data2/x", "etc/", "", "www/f0", "data/vault/f0"};
    string o = r.pct(85) ? "/" : "";
    if(r.pct(40)) { static const char *pre[] = {"f0", "sub", "alias", "alias/", "templates", "nosuch", "alias..", "alias%2f"}; o += pre[r.below(8)]; o += sep[r.below(9)]; }
    int n = (int) r.range(1, 6);
    for(int i = 0; i < n; i++) { o += r.pct(75) ? dots[r.below(5)] : dots[r.below(13)]; o += sep[r.below(9)]; }
    o += tail[r.below(11)];
    if(r.pct(15)) o += "%00.html";
    if(r.pct(10)) o += "%";
    if(r.pct(5)) o += "?/../../etc/passwd";
    return o;
}
static void gen_contain(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    use_handler(p, r);
    p.add("loc").set("name", "alias").set("path", r.pct(70) ? "^/alias/" : "^/alias(/|$)").set("base_path", r.pct(70) ? "/data/vault" : "/data");
    if(r.pct(30)) p.add("gen").set("key", "index").set("val", "f0 index.html");
    p.add("file").set("path", "/www/f0").set("data", "lit:public");
    p.add("file").set("path", "/www/sub/f1").set("data", "lit:public1");
    p.add("file").set("path", "/data/vault/f0").set("data", "lit:vault");
    static const char *sec[] = {"/etc/passwd", "/secret/key", "/www-private/x", "/conf/passwd", "/cwd/secret", "/data2/x", "/cwd/etc/passwd"};
    for(auto s : sec) p.add("file").set("path", s).set("data", string("lit:") + SECRET);
    if(p.find("loc")->get("base_path") == "/data/vault") p.add("file").set("path", "/data/key").set("data", string("lit:") + SECRET);
    int nc = (int) r.range(1, 3);
    for(int c = 0; c < nc; c++) {
        add_client(p, r, c);
        int n = (int) r.range(1, 10);
        for(int i = 0; i < n; i++) { string t = r.pct(80) ? hostile_path(r) : r.pct(50) ? "/f0" : "/alias/f0"; string v; for(char ch : t) if(ch > ' ' && ch < 127) v += ch; add_req(p, c, v.empty() || v[0] != '/' ? "/" + v : v, r.pct(90) ? "GET" : "HEAD"); }
    }
}
static void run_contain(const Plan &p) {
    R->nontrivial = 1;
    Srv s(p);
    s.setup();
    s.override_check = [&](Client &c, Req &q, Resp &r) {
        if(r.body.find(SECRET) != string::npos || r.body.find("[general]") != string::npos) violation("%s: \"%s\" delivered a file outside of the served directories", c.describe().c_str(), q.target.c_str());
        Route rt = route(s, q);
        if(!rt.bad && !rt.dotdot && rt.contained) return false;   // an ordinary path: the model judges it
        if(r.status / 100 == 2 && r.body.size()) {
            // content may only come from inside
            string n = normpath(rt.fs_path);
            NodeP x = W->lookup(n);
            if(x && !x->dir && rt.contained && r.body == x->data) return true;
            if(x && x->dir && rt.contained && r.body.compare(0, 5, "LIST[") == 0) return true;
            violation("%s: \"%s\" is answered with %d and %zu bytes", c.describe().c_str(), q.target.c_str(), r.status, r.body.size());
        }
        return true;
    };
    s.at_end = [&]() {
        vector<string> roots = {"/www", "/modules", "/data/vault"};
        for(auto &l : s.locs) if(!l.base_path.empty()) roots.push_back(l.base_path);
        for(auto &f : W->fs_log) {
            bool in = f == "/" || f == "/conf/viriatum.ini" || f == "/conf" || f == "/conf/config.ini";
            for(auto &b : roots) if(f == b || f.compare(0, b.size() + 1, b + "/") == 0) in = true;
            if(!in) violation("the server touched \"%s\", which lies outside of every served directory", f.c_str());
        }
    };
    s.run();
}
static RegScenario h10({"H10", "no request reaches a file outside of the served directories", gen_contain, run_contain});

// ---------------------------------------------------------------- H11 disk faults
static void gen_disk(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    use_handler(p, r);
    vector<string> good, bad;
    int nf = (int) r.range(1, 3), nb = (int) r.range(1, 3);
    for(int i = 0; i < nf; i++) { add_file(p, r, "/www/g" + std::to_string(i), 60000); good.push_back("/g" + std::to_string(i)); }
    for(int i = 0; i < nb; i++) {
        string path = "/b" + std::to_string(i);
        i64 sz = r.pct(70) ? r.range(5000, 250000) : r.range(0, 5000);
        Item &f = p.add("file").set("path", "/www" + path).set("data", "gen:" + std::to_string(r.below(1000000)) + ":" + std::to_string(sz)).set("mtime", 1450000000);
        bad.push_back(path);
        Item &q = p.add("fault").set("kind", "fs").set("path", "/www" + path).set("t", r.pct(70) ? r.range(2000, 30000) : r.range(2000, 600000)).set("mtime", 1460000000);
        switch(r.below(8)) {
            case 0: q.set("op", "delete"); break;
            case 1: q.set("op", "replace").set("data", "gen:" + std::to_string(r.below(1000000)) + ":" + std::to_string(r.pct(50) ? sz : r.range(0, 200000))); break;
            case 2: q.set("op", "truncate").set("arg", r.range(0, sz)); break;
            case 3: q.set("op", "append").set("data", "gen:7:" + std::to_string(r.range(1, 50000))); break;
            case 4: q.set("op", "eio").set("arg", r.range(0, sz)); break;
            case 5: q.set("op", "openerr").set("arg", r.pct(50) ? 13 : 5); break;
            case 6: f.set("eio", r.range(0, sz)); q.set("op", "eio").set("arg", f.num("eio")); break;
            default: f.set("openerr", r.pct(50) ? 13 : 5); q.set("op", "openerr").set("arg", f.num("openerr")); break;
        }
    }
    int nc = (int) r.range(2, 5);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(r.pct(40)) cl.set("mode", "pipe");
        if(r.pct(60)) { cl.set("snd", r.range(256, 16000)); cl.set("rate", r.range(1, 3000)); }
        int n = (int) r.range(1, 5);
        for(int i = 0; i < n; i++) { Item &q = add_req(p, c, c && r.pct(60) ? r.pick(bad) : c ? r.pick(good) : r.pick(good), r.pct(90) ? "GET" : "HEAD"); if(r.pct(20)) q.set("range", "bytes=" + std::to_string(r.range(0, 3000)) + "-"); }
    }
    if(r.pct(25)) { static const char *calls[] = {"fopen", "fread", "fseek", "ftell", "fclose", "stat", "opendir"}; int k = (int) r.range(1, 3); for(int i = 0; i < k; i++) p.add("fault").set("kind", "nth").set("call", calls[r.below(7)]).set("n", r.range(8, 60)).set("err", r.pct(50) ? 5 : 24); }
}
static void run_disk(const Plan &p) {
    Srv s(p);
    s.setup();
    bool nth = false;
    for(auto &i : p.items) if(i.kind == "fault" && i.get("kind") == "nth") nth = true;
    auto path_of = [&](Req &q) { return normpath(route(s, q).fs_path); };
    auto faulty = [&](Req &q) { return nth || s.mutated.count(path_of(q)); };
    // the bytes delivered must be a part of one content the file has had
    auto check = [&](Client &c, Req &q, int status, const string &body, bool complete, const Resp &r) {
        string f = path_of(q);
        vector<string> v = s.versions[f];
        if(v.empty()) { NodeP n = W->lookup(f); if(n) v.push_back(n->data); }
        if(status == 404 || status == 500 || status == 403 || status == 503) return;
        if(f == "/www" || (W->lookup(f) && W->lookup(f)->dir)) return;
        size_t off = 0;
        if(status == 206) {
            const string *cr = r.h("Content-Range");
            unsigned long long a = 0, b = 0, t = 0;
            if(!cr || sscanf(cr->c_str(), "bytes %llu-%llu/%llu", &a, &b, &t) != 3 || b < a || b >= t) { violation("%s: 206 with Content-Range \"%s\"", c.describe().c_str(), cr ? cr->c_str() : ""); return; }
            off = a;
            if(complete && q.method != "HEAD" && body.size() != b - a + 1) violation("%s: 206 with %zu body bytes for \"%s\"", c.describe().c_str(), body.size(), cr->c_str());
        } else if(status != 200) { violation("%s: %s %s on a failing disk is answered with %d", c.describe().c_str(), q.method.c_str(), q.target.c_str(), status); return; }
        if(q.method == "HEAD") return;
        for(auto &x : v) if(x.size() >= off + body.size() && x.compare(off, body.size(), body) == 0) return;
        violation("%s: GET %s delivered %zu bytes that no version of the file contains at offset %zu", c.describe().c_str(), q.target.c_str(), body.size(), off);
    };
    s.may_cut = [&](Client &c, Req &q) {
        if(!faulty(q)) return false;
        R->nontrivial = 1;
        STAT("probe:cut_short");
        if(c.rp.have_head) check(c, q, c.rp.cur.status, c.rp.buf, false, c.rp.cur);
        return true;
    };
    s.override_check = [&](Client &c, Req &q, Resp &r) {
        if(!faulty(q)) return false;
        R->nontrivial = 1;
        if(r.status / 100 == 2) check(c, q, r.status, r.body, true, r);
        else if(r.status != 404 && r.status != 500 && r.status != 304) violation("%s: %s %s is answered with %d", c.describe().c_str(), q.method.c_str(), q.target.c_str(), r.status);
        if(r.status == 404 && !nth) {
            // a file that can be opened at all times exists
            bool gone = false;
            for(auto &i : p.items) if(i.kind == "fault" && normpath(i.get("path")) == path_of(q) && (i.get("op") == "delete" || i.get("op") == "openerr")) gone = true;
            for(auto &i : p.items) if(i.kind == "file" && normpath(i.get("path")) == path_of(q) && (i.has("openerr") || i.num("eio", -1) >= 0)) gone = true;
            if(!gone) violation("%s: %s exists at all times and is answered with 404", c.describe().c_str(), q.target.c_str());
        }
        return true;
    };
    s.run();
}
static RegScenario h11({"H11", "disk faults during a transfer never yield wrong or silently short content", gen_disk, run_disk});

// ---------------------------------------------------------------- H12 descriptor exhaustion
static void gen_fds(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    bool rich = r.pct(50);
    Site site;
    if(rich) site = rich_site(p, r, 60000, true, false); else use_handler(p, r);
    vector<string> paths;
    int nf = rich ? 0 : (int) r.range(1, 3);
    for(int i = 0; i < nf; i++) { add_file(p, r, "/www/f" + std::to_string(i), 60000); paths.push_back("/f" + std::to_string(i)); }
    if(r.pct(30)) paths.push_back("/");
    int ph = (int) r.range(0, 1), id = 0;
    p.add("fault").set("kind", "fdlimit").set("t", r.pct(60) ? 1500 : r.range(1500, 30000)).set("val", r.range(0, 5)).set("rel", 1);
    for(int k = 0; k <= ph; k++) {
        int nc = (int) r.range(2, r.pct(10) ? 40 : 9);
        for(int c = 0; c < nc; c++, id++) {
            Item &cl = add_client(p, r, id);
            if(k) cl.set("phase", k);
            if(r.pct(50)) cl.set("t", r.range(0, 3000));
            if(r.pct(60)) cl.set("end", r.pct(50) ? "close" : "rst");
            int n = (int) r.range(1, 3);
            if(rich) { rich_reqs(p, r, id, site, n); continue; }
            for(int i = 0; i < n; i++) { Item &q = add_req(p, id, r.pick(paths)); if(i == n - 1 && r.pct(40)) q.set("conn", "close"); }
        }
    }
    if(r.pct(70)) p.add("fault").set("kind", "fdlimit").set("t", r.range(30000, 200000)).set("val", 100000);
    // single calls the kernel refuses for want of memory or other resources
    if(r.pct(40)) {
        static const char *calls[] = {"accept", "epoll_add", "recv", "send"};
        static const int errs[4][4] = {{EMFILE, ENFILE, ENOMEM, ECONNABORTED}, {ENOSPC, ENOMEM, ENOSPC, ENOMEM}, {ETIMEDOUT, ENOMEM, EHOSTUNREACH, ENOBUFS}, {ENOBUFS, ENOMEM, ETIMEDOUT, EHOSTUNREACH}};
        if(r.pct(60)) p.items.erase(std::remove_if(p.items.begin(), p.items.end(), [](Item &i) { return i.kind == "fault"; }), p.items.end());
        int k = (int) r.range(1, 4);
        for(int i = 0; i < k; i++) { size_t c = r.below(4); p.add("fault").set("kind", "nth").set("call", calls[c]).set("n", r.range(c == 1 ? 2 : 1, 14)).set("err", errs[c][r.below(4)]); }
    }
}
static void run_fds(const Plan &plan) {
    Plan p = plan;
    // the listener itself is registered first: that failure belongs to H20
    p.items.erase(std::remove_if(p.items.begin(), p.items.end(), [](Item &i) { return i.kind == "fault" && i.get("call") == "epoll_add" && i.num("n") < 2; }), p.items.end());
    Srv s(p);
    s.setup();
    for(auto &l : s.locs) l.auth_faulty = true;
    // while descriptors are short a file may be unavailable and a connection may be refused or dropped
    s.may_cut = [&](Client &, Req &) { R->nontrivial = 1; return true; };
    s.override_check = [&](Client &c, Req &q, Resp &r) {
        if(r.status == 404 || r.status == 500 || r.status == 503) { R->nontrivial = 1; return true; }
        return false;
    };
    u64 failed = 0;
    s.on_quiet = [&]() {
        // an attempt that failed for an injected reason is followed by another one
        u64 f = W->injected;
        if(f != failed) { failed = f; W->at(2500000, []() {}); return true; }
        // nothing is left to happen: every connection the kernel queued must have been taken if a descriptor is free
        Fd *l = W->listener(W->listen_port);
        if(!l) { violation("the listening socket is gone"); return false; }
        if(!l->backlog.empty()) R->nontrivial = 1;
        if(!l->backlog.empty() && W->fds_open < W->fd_limit) violation("%zu connections wait in the accept queue although %d descriptors are free: they are never served", l->backlog.size(), std::min(W->fd_limit - W->fds_open, 99999));
        // clients still queued for want of descriptors are not owed an answer yet
        for(auto &c : s.clients) if(c->w && c->w->fd < 0 && !c->w->s_closed) c->lenient = true;
        return false;
    };
    s.run();
}
static RegScenario h12({"H12", "running out of descriptors is survived and service resumes", gen_fds, run_fds});

// ---------------------------------------------------------------- H15 shutdown
static void gen_stop(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    if(r.pct(30)) {
        // exchanges with upstreams are under way
        PSite s = proxy_site(p, r);
        int nc = (int) r.range(1, 5), tags = 0;
        for(int c = 0; c < nc; c++) {
            Item &cl = add_client(p, r, c);
            if(r.pct(30)) { cl.set("snd", r.range(256, 16000)); cl.set("rate", r.range(1, 3000)); }
            int n = (int) r.range(1, 5);
            for(int i = 0; i < n; i++) { auto x = proxied(p, r, c, s, tags, 40000, i == n - 1); if(r.pct(15)) p.items[x.second].set("fault", "hang").set("cut", r.range(0, 1000)); }
        }
        for(auto &i : p.items) if(i.kind == "cfg" && r.pct(80)) i.set("stop_call", r.range(1, 400 + 60 * nc));
        if(r.pct(50)) p.add("fault").set("kind", "sig").set("t", r.range(0, 100000)).set("sig", r.pct(60) ? SIGTERM : r.pct(50) ? SIGINT : SIGHUP);
        return;
    }
    if(r.pct(50)) {
        Site s = rich_site(p, r, 200000);
        int nc = (int) r.range(0, r.pct(10) ? 30 : 5);
        for(int c = 0; c < nc; c++) {
            Item &cl = add_client(p, r, c);
            if(r.pct(40)) cl.set("mode", "pipe");
            if(r.pct(40)) { cl.set("snd", r.range(256, 16000)); cl.set("rate", r.range(1, 3000)); }
            if(r.pct(20)) cl.set("stall_rx", r.range(0, 3000));
            if(r.pct(20)) { static const char *how[] = {"rst", "close", "fin", "hang"}; cl.set("abort", how[r.below(4)]).set("abort_rx", r.range(1, 20000)); }
            rich_reqs(p, r, c, s, (int) r.range(1, 5));
        }
        for(auto &i : p.items) if(i.kind == "cfg" && r.pct(70)) i.set("stop_call", r.pct(30) ? r.range(1, 40) : r.range(1, 600 + 30 * nc));
        if(r.pct(50)) p.add("fault").set("kind", "sig").set("t", r.range(0, 60000)).set("sig", r.pct(60) ? SIGTERM : r.pct(50) ? SIGINT : SIGHUP);
        return;
    }
    use_handler(p, r);
    vector<string> paths;
    int nf = (int) r.range(1, 3);
    for(int i = 0; i < nf; i++) { add_file(p, r, "/www/f" + std::to_string(i), r.pct(40) ? 200000 : 6000); paths.push_back("/f" + std::to_string(i)); }
    paths.push_back("/"); paths.push_back("/absent");
    int nc = (int) r.range(0, 5);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(r.pct(40)) cl.set("mode", "pipe");
        if(r.pct(40)) { cl.set("snd", r.range(256, 16000)); cl.set("rate", r.range(1, 3000)); }
        if(r.pct(20)) cl.set("stall_rx", r.range(0, 3000));
        int n = (int) r.range(1, 5);
        for(int i = 0; i < n; i++) add_req(p, c, r.pick(paths), r.pct(80) ? "GET" : "HEAD");
    }
    for(auto &i : p.items) if(i.kind == "cfg" && r.pct(70)) i.set("stop_call", r.pct(30) ? r.range(1, 40) : r.range(1, 600));
    if(r.pct(50)) p.add("fault").set("kind", "sig").set("t", r.range(0, 60000)).set("sig", r.pct(60) ? SIGTERM : r.pct(50) ? SIGINT : SIGHUP);
}
static void run_stop(const Plan &p) {
    Srv s(p);
    s.setup();
    static u64 at = 0, t0 = 0;
    W->on_stop = [&]() { at = W->calls; t0 = W->now; for(auto &c : s.clients) if(c->started && c->resps.size() < c->reqs.size()) R->nontrivial = 1; };
    s.at_end = [&]() {
        u64 open = 0;
        for(auto &c : s.clients) if(c->started) open++;
        if(at && W->calls - at > 3000 + 400 * open) violation("shutdown took %llu system calls after the signal", (unsigned long long) (W->calls - at));
        if(at && W->now - t0 > 5000000 + 2000000 * open) violation("shutdown took %.1f simulated seconds after the signal", (double) (W->now - t0) / 1e6);
    };
    s.run();
}
static RegScenario h15({"H15", "a termination signal at any moment ends in an orderly exit", gen_stop, run_stop});

// ---------------------------------------------------------------- H16 listings, redirects, index files
static void gen_listing(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    if(r.pct(20)) p.items[0].set("dtype", "0");
    if(r.pct(40)) use_handler(p, r);
    bool disp = !p.find("gen");
    if(disp && r.pct(60)) p.add("gen").set("key", "index").set("val", r.pct(50) ? "index.html" : "home.htm index.html");
    vector<string> dirs = {"/", "/d0/"}, paths;
    p.add("dir").set("path", "/www/d0");
    if(r.pct(60)) { dirs.push_back("/d0/deep dir/"); p.add("dir").set("path", "/www/d0/deep dir"); }
    if(r.pct(40)) { dirs.push_back("/empty/"); p.add("dir").set("path", "/www/empty"); }
    if(disp && r.pct(40)) { p.add("loc").set("name", "al").set("path", "^/al/").set("base_path", "/data"); p.add("file").set("path", "/data/x.txt").set("data", "lit:x"); p.add("dir").set("path", "/data/in"); if(r.pct(40)) p.add("file").set("path", r.pct(50) ? "/data/index.html" : "/data/in/home.htm").set("data", "lit:aliased index"); paths.push_back("/al/in/"); paths.push_back("/al/"); paths.push_back("/al/in"); paths.push_back("/al/x.txt"); }
    for(auto &d : dirs) {
        int n = r.pct(9) ? (int) r.range(20, 200) : r.pct(2) ? (int) r.range(200, 1500) : (int) r.range(0, 6);
        for(int i = 0; i < n; i++) {
            static const char *odd[] = {"a b", "x&y", "q'uote", "UPPER", "caf\xc3\xa9", "a+b", "100%", "semi;colon", "a=b", "${out}", "<tag>"};
            string nm = r.pct(85) ? word(r, (int) r.range(1, r.pct(5) ? 200 : 12)) + (r.pct(50) ? ".txt" : "") : odd[r.below(11)];
            if(nm == "${out}" || nm == "<tag>" || nm == "d0" || nm == "empty") nm = "t" + word(r, 3);
            if(r.pct(80)) p.add("file").set("path", "/www" + d + nm).set("data", "gen:3:" + std::to_string(r.pct(90) ? pick_size(r, 3000) : r.range(0, 2000000))).set("mtime", r.pct(90) ? r.range(0, 4000000000LL) : r.range(-5000000000LL, 300000000000LL));
            else p.add("dir").set("path", "/www" + d + nm);
        }
        if(r.pct(25)) p.add("file").set("path", "/www" + d + (r.pct(70) ? "index.html" : "home.htm")).set("data", "lit:index of " + d);
        string enc; for(char ch : d) enc += ch == ' ' ? (r.pct(50) ? string("%20") : string("+")) : string(1, ch);
        paths.push_back(enc);
        if(enc.size() > 1) paths.push_back(enc.substr(0, enc.size() - 1));
    }
    if(r.pct(20)) p.add("fault").set("kind", "nth").set("call", r.pct(50) ? "opendir" : r.pct(50) ? "readdir" : "stat").set("n", r.range(1, 40)).set("err", 5);
    int nc = (int) r.range(1, 3);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(r.pct(30)) cl.set("mode", "pipe");
        int n = (int) r.range(1, 6);
        for(int i = 0; i < n; i++) { string t = r.pick(paths); if(r.pct(20)) t += "?" + word(r, 4); add_req(p, c, t, r.pct(85) ? "GET" : "HEAD"); }
    }
}
static void run_listing(const Plan &p) {
    Srv s(p);
    s.setup();
    bool nth = false;
    for(auto &i : p.items) if(i.kind == "fault") nth = true;
    if(nth) s.override_check = [](Client &c, Req &q, Resp &r) { if(r.status != 200 && r.status != 404 && r.status != 500 && r.status != 307) violation("%s: %s answered with %d", c.describe().c_str(), q.target.c_str(), r.status); return true; };
    R->nontrivial = 1;
    s.run();
}
static RegScenario h16({"H16", "directories are listed, redirected and indexed as they are on disk", gen_listing, run_listing});

// ---------------------------------------------------------------- H17 routing
static void gen_route(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    vector<string> paths;
    int nl = (int) r.range(0, 6);
    static const char *pat[] = {"^/a/", "^/a", "^/ab/", "^/a/b/", "\\.txt$", "^/x[0-9]+/", "^/", "/b/", "^/(a|b)/", "^/one two/", "^/A/", "^/deflt"};
    for(int i = 0; i < nl; i++) {
        Item &l = p.add("loc").set("name", "l" + std::to_string(i)).set("path", pat[r.below(12)]);
        switch(r.below(6)) {
            case 0: l.set("handler", "default"); break;
            case 1: l.set("handler", "nosuch"); break;
            case 2: case 3: l.set("base_path", r.pct(50) ? "/data/one" : "/data/two"); if(r.pct(50)) l.set("handler", "file"); break;
            default: if(r.pct(50)) l.set("handler", "file"); break;
        }
    }
    static const char *fs[] = {"/www/a/f.txt", "/www/a/b/f.txt", "/www/ab/f", "/www/x12/f", "/www/f.txt", "/www/b/f", "/www/one two/f", "/www/deflt/f", "/data/one/f.txt", "/data/one/f", "/data/one/b/f.txt", "/data/two/f", "/data/two/a/f.txt", "/data/two/f.txt"};
    for(auto f : fs) if(r.pct(85)) p.add("file").set("path", f).set("data", string("lit:content of ") + f);
    static const char *rq[] = {"/a/f.txt", "/a/b/f.txt", "/ab/f", "/x12/f", "/f.txt", "/b/f", "/one%20two/f", "/one+two/f", "/deflt/f", "/a/f", "/ab/f.txt", "/A/f.txt", "/a", "/a/b", "/x1x/f", "/a//f.txt", "/none"};
    int nc = (int) r.range(1, 4);
    for(int c = 0; c < nc; c++) {
        Item &cl = add_client(p, r, c);
        if(r.pct(40)) cl.set("mode", "pipe");
        int n = (int) r.range(1, 8);
        for(int i = 0; i < n; i++) { string t = rq[r.below(17)]; if(r.pct(25)) t = spell(r, t); add_req(p, c, t, r.pct(90) ? "GET" : "HEAD"); }
    }
}
static void run_route(const Plan &p) { R->nontrivial = 1; std_run(p); }
static RegScenario h17({"H17", "every request is served by the location the configuration selects", gen_route, run_route});
