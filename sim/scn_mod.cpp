// Modules: handlers that come from the loadable modules (a constant image,
// diagnostics of the server, Lua scripts).
#include "proxy_gen.h"
#include <csignal>

static string show(const string &s, size_t max = 80) { string o = esc(s.substr(0, max)); if(s.size() > max) o += "..."; return o; }
// ---------------------------------------------------------------- H28
// every failing kind of script; what happens when call n of handle() fails
static const char *LUA_FAIL[] = {
    "error(\"secret-\" .. n)",
    "error({})",
    "error()",
    "local x = nil; x = x.y",
    "write_connection(connection, \"secret\")",
    "write_connection(connection, \"secret\", \"many\")",
    "write_connection(connection, {}, 3)",
    "write_connection(\"connection\", \"secret\", 6)",
    "write_connection(connection, \"secret\", 7)",
    "write_connection(connection, \"secret\", 70000)",
    "write_connection(connection, \"secret\", -1)",
    "write_connection(connection, \"secret\", 2^40)",
    "write_connection(connection, \"secret\", 0/0)",
    "local function f() return 1 + f() end; f()",
    "error(string.rep(\"secret\", 20000))",
    "return",
    "write_connection(connection, \"secret\", 0)",
    "write_connection()",
};
enum { NFAIL = sizeof LUA_FAIL / sizeof *LUA_FAIL };
static const string GIF = string("GIF89a\x01\0\x01\0\xf0\x01\0\xff\xff\xff\0\0\0!\xf9\x04\x01\x0a\0\0\0,\0\0\0\0\x01\0\x01\0\0\x02\x02" "D\x01\0;", 43);

static string lua_script(const Item &l, int version) {
    i64 size = l.num("size", 10), every = l.num("every", 0), kind = l.num("fail", 0), parts = l.num("parts", 1), late = l.num("late", 0);
    string s;
    if(l.num("sharp")) s += "#!/usr/bin/lua\n";
    s += "n = n or 0\nruns = (runs or 0) + 1\nversion = " + std::to_string(version) + "\n";
    if(l.num("local")) s += "local ";
    s += "function reply()\n"
        "  local body = string.rep(\"\\0x\\r\\n\", " + std::to_string(size / 4) + ") .. \"n=\" .. n .. \";r=\" .. runs .. \";v=\" .. version .. \";\"\n"
        "  return \"HTTP/1.1 200 OK\\r\\n" + string(l.num("close") ? "Connection: close\\r\\n" : l.num("silent") ? "" : "Connection: keep-alive\\r\\n") + "Content-Length: \" .. #body .. \"\\r\\n\\r\\n\" .. body\n"
        "end\n";
    s += "function handle()\n  n = n + 1\n";
    string fail = every ? "  if n % " + std::to_string(every) + " == 0 then " + LUA_FAIL[kind % NFAIL] + (string(LUA_FAIL[kind % NFAIL]) == "return" ? "" : " return") + " end\n" : "";
    if(!late) s += fail;
    s += "  local out = reply()\n";
    if(parts == 1) s += l.num("extra") ? "  write_connection(connection, out .. \"secret\", #out)\n" : "  write_connection(connection, out, #out)\n";
    else s += "  local at, step = 1, math.ceil(#out / " + std::to_string(parts) + ")\n"
              "  while at <= #out do local piece = string.sub(out, at, at + step - 1); write_connection(connection, piece, #piece); at = at + step end\n";
    if(late) s += fail;
    if(l.num("garbage")) s += "  collectgarbage()\n";
    if(l.num("dirt")) s += "  return 1, 2, 3\n";
    s += "end\n";
    if(l.num("value")) s += "return 1, \"two\", {}\n";
    return s;
}

static void gen_mod(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    p.items.back().set("maxcalls", 1000000);
    static const char *mods[] = {"gif", "diag", "lua"};
    bool have[3];
    int direct = r.pct(15) ? (int) r.below(3) : -1;
    bool phases = r.pct(40);
    bool stay = !r.pct(20);
    for(int m = 0; m < 3; m++) {
        have[m] = m == direct || !r.pct(8);
        if(have[m]) p.add("file").set("path", string("/modules/libviriatum_mod_") + mods[m] + ".so").set("data", "lit:x");
        p.add("loc").set("name", string("m") + mods[m]).set("path", string("^/") + mods[m]).set("handler", mods[m]);
    }
    // what else lies in the directory of the modules
    if(r.pct(40)) {
        static const char *junk[] = {"libviriatum_mod_none.so", "notes.txt", "libother.so", "libviriatum_mod_gif.so.old", "viriatum_x.so", "libviriatum_mod_gift_x.so", ".so", "libviriatum_.so", "viriatum_.so"};
        for(int k = (int) r.range(1, 3); k > 0; k--) p.add("file").set("path", string("/modules/") + junk[r.below(9)]).set("data", "lit:x");
    }
    if(direct >= 0) p.add("gen").set("key", "handler").set("val", mods[direct]);
    vector<string> paths;
    if(direct < 0) { add_file(p, r, "/www/f", 5000); paths = {"/f", "/"}; }
    for(int m = 0; m < 3; m++) if(direct < 0 || direct == m) { paths.push_back(string("/") + mods[m]); paths.push_back(string("/") + mods[m] + "/" + word(r, 4) + "?q=" + word(r, 2)); }
    if(direct < 0) { int fav = (int) r.below(3); for(int k = (int) r.below(6); k > 0; k--) paths.push_back(string("/") + mods[fav]); }
    Item &l = p.add("lua");
    if(r.pct(60)) l.set("path", r.pct(50) ? "/conf/handler.lua" : "/cwd/scripts/h.lua");
    l.set("size", r.pct(50) ? r.range(0, 200) : pick_size(r, 150000));
    if(r.pct(60)) l.set("every", r.range(1, 6)).set("fail", (i64) r.below(NFAIL));
    if(r.pct(40)) l.set("parts", r.pct(50) ? 2 : r.range(2, 12));
    if(r.pct(25)) l.set("late", 1);
    static const char *odd[] = {"dirt", "garbage", "value", "sharp", "extra", "silent"};
    for(auto o : odd) if(r.pct(15)) l.set(o, 1);
    bool lclose = r.pct(15);
    if(lclose) l.set("close", 1);
    // a script that can not be read at first
    int broken = have[2] && phases && r.pct(40) ? (int) r.range(1, 5) : 0;
    if(broken) l.set("broken", broken);
    if(phases && r.pct(40)) l.set("edit", 1);
    int np = phases ? 2 : 1, id = 0;
    for(int ph = 0; ph < np; ph++) {
        int nc = (int) r.range(1, 4);
        for(int c = 0; c < nc; c++, id++) {
            Item &cl = add_client(p, r, id);
            if(ph) cl.set("phase", ph);
            if(r.pct(40)) cl.set("mode", "pipe");
            int k = (int) r.range(1, r.pct(20) ? 25 : 6);
            for(int i = 0; i < k; i++) {
                string path = r.pick(paths);
                bool lua = path.compare(0, 4, "/lua") == 0 || direct == 2;
                string m = r.pct(75) ? "GET" : r.pct(50) && !lua ? "HEAD" : "POST";
                Item &q = add_req(p, id, path, m);
                if(m == "POST") { q.set("body", "gen:" + std::to_string(r.below(1000)) + ":" + std::to_string(pick_size(r, 4000))); if(r.pct(30)) q.set("chunked", 1); }
                if(r.pct(25)) noise_headers(q, r);
                if(lua && lclose) { q.set("conn", "close"); break; }
                if(i == k - 1 && r.pct(20) && !lua) q.set("conn", "close");
            }
            if(!stay && r.pct(40)) {
                static const char *how[] = {"rst", "close", "fin", "hang", "vanish"};
                cl.set("abort", how[r.below(5)]);
                if(r.pct(50)) cl.set("abort_t", r.range(0, 60000)); else cl.set("abort_rx", r.range(1, 20000));
            }
        }
    }
    if(r.pct(10)) p.add("fault").set("kind", "sig").set("t", r.range(1, 100000)).set("sig", r.pct(60) ? SIGTERM : SIGINT);
    if(r.pct(10)) p.add("fault").set("kind", "wall").set("t", r.range(1, 60000)).set("jump", r.range(1, 400000));
}

// a flat JSON object of strings and integers; false when it is anything else
static bool json_flat(const string &s, std::map<string, string> &out) {
    size_t i = 0;
    auto str = [&](string &v) {
        if(i >= s.size() || s[i] != '"') return false;
        for(i++; i < s.size() && s[i] != '"'; i++) {
            if((unsigned char) s[i] < 32) return false;
            if(s[i] == '\\') { if(++i >= s.size() || !strchr("\"\\/bfnrt", s[i])) return false; }
            v += s[i];
        }
        return i < s.size() && s[i++] == '"';
    };
    if(i >= s.size() || s[i++] != '{') return false;
    for(;;) {
        string k, v;
        if(!str(k) || i >= s.size() || s[i++] != ':' || out.count(k)) return false;
        if(i < s.size() && s[i] == '"') { if(!str(v)) return false; }
        else {
            size_t b = i;
            if(i < s.size() && s[i] == '-') i++;
            while(i < s.size() && isdigit((unsigned char) s[i])) i++;
            v = s.substr(b, i - b);
            if(v.empty() || v == "-" || (v.size() > 1 && v[0] == '0')) return false;
        }
        out[k] = v;
        if(i < s.size() && s[i] == ',') { i++; continue; }
        return i + 1 == s.size() && s[i] == '}';
    }
}
static string uptime(i64 d) {
    i64 v[4] = {d / 86400, d % 86400 / 3600, d % 3600 / 60, d % 60};
    static const char *u[4] = {"day", "hour", "minute", "second"};
    string o;
    int k = 0;
    bool on = false;
    for(int i = 0; i < 4 && k < 2; i++) {
        if(v[i]) on = true;
        if(!on && i < 3) continue;
        o += (o.empty() ? "" : " ") + std::to_string(v[i]) + " " + u[i] + (v[i] == 1 ? "" : "s");
        k++;
    }
    return o;
}

static void run_mod(const Plan &p) {
    Plan q = p;
    Item l("lua");
    for(auto &i : p.items) if(i.kind == "lua") l = i;
    string path = l.get("path", "/cwd/default.lua");
    if(l.has("path")) q.add("sec").set("name", "mod_lua").set("script_path", path.compare(0, 5, "/cwd/") == 0 ? path.substr(5) : path);
    Srv s(q);
    s.setup();
    u64 t0 = W->now;
    i64 wall0 = ((i64) W->now + W->wall_off) / 1000000;
    int broken = (int) l.num("broken", 0);
    string good = lua_script(l, 1);
    if(broken == 1) W->mkfile(path, "function handle( write_connection\nend end");
    else if(broken == 2) W->mkfile(path, "error(\"secret\")\n" + good);
    else if(broken == 3) {}
    else W->mkfile(path, broken == 5 ? good.substr(0, good.size() / 2) + "\n)" : good);
    if(broken == 4) if(NodeP n = W->lookup(path)) n->open_err = EACCES;
    auto has = [&](const string &m) { return W->lookup("/modules/libviriatum_mod_" + m + ".so") != nullptr; };
    i64 every = l.num("every", 0), kind = l.num("fail", 0) % NFAIL;
    bool late = l.num("late", 0) != 0;
    // does call n of handle() raise an error, does it answer?
    auto is_return = [&]() { return string(LUA_FAIL[kind]) == "return" || kind == 16; };
    auto hit = [&](i64 n) { return every && n % every == 0; };
    auto raises = [&](i64 n) { return hit(n) && !is_return(); };
    auto answers = [&](i64 n) { return late || !hit(n); };
    std::map<i64, string> seen;                  // n -> who got the answer of call n
    std::map<int, i64> last;
    int edited_at = -1;
    i64 n_edit = 0;
    i64 wall_jump_seen = 0;
    for(auto &i : q.items) if(i.kind == "fault" && i.get("kind") == "wall") wall_jump_seen = 1;
    s.on_response = [&](Client &c, Req &rq, Resp &r) {
        if(rq.raw) return;
        Route rt = route(s, rq);
        if(rt.handler != "gif" && rt.handler != "diag" && rt.handler != "lua") return;
        string what = c.describe() + ": " + rq.method + " " + show(rq.target);
        if(!has(rt.handler)) { if(r.status != 500) violation("%s: the module of the handler is not there and the answer is %d", what.c_str(), r.status); STAT("probe:absent_module"); return; }
        R->nontrivial = 1;
        if(rt.handler == "gif") {
            if(r.status != 200 || !r.h("Content-Type") || *r.h("Content-Type") != "image/gif" || !r.h("Content-Length") || *r.h("Content-Length") != "43") violation("%s: the image is answered with %d, type \"%s\"", what.c_str(), r.status, r.h("Content-Type") ? show(*r.h("Content-Type")).c_str() : "");
            if(r.body != (rq.method == "HEAD" ? string() : GIF)) violation("%s: the image has the body \"%s\"", what.c_str(), show(r.body).c_str());
            STAT("probe:module_gif");
        } else if(rt.handler == "diag") {
            if(r.status != 200 || !r.h("Content-Type") || *r.h("Content-Type") != "application/json") violation("%s: the diagnostics are answered with %d, type \"%s\"", what.c_str(), r.status, r.h("Content-Type") ? show(*r.h("Content-Type")).c_str() : "");
            if(rq.method == "HEAD") return;
            std::map<string, string> j;
            if(!json_flat(r.body, j)) { violation("%s: the diagnostics are not a JSON object: \"%s\"", what.c_str(), show(r.body).c_str()); return; }
            string port = s.general.count("port") ? s.general["port"] : "9090", names;
            if(j["name"] != "viriatum") violation("%s: the name is \"%s\"", what.c_str(), show(j["name"]).c_str());
            if(j["port"] != port) violation("%s: the port is %s, the server listens on %s", what.c_str(), show(j["port"]).c_str(), port.c_str());
            if(j["status"] != "1" && !W->stopping) violation("%s: the status of the running server is %s", what.c_str(), show(j["status"]).c_str());
            for(auto m : {"gif", "diag", "lua"}) if(has(m) != ((" " + j["modules"] + " ").find(string(" ") + m + " ") != string::npos)) violation("%s: the modules are \"%s\", mod_%s is %s", what.c_str(), show(j["modules"]).c_str(), m, has(m) ? "loaded" : "not there");
            i64 open = 1;                // (the listening socket counts)
            for(auto &x : s.clients) if(x->started && (x->it.num("phase", 0) == s.phase || x->it.has("abort"))) open++;
            i64 n = atoll(j["connections"].c_str());
            if(n < 1 || n > open) violation("%s: %lld connections are counted, at most %lld can be open", what.c_str(), (long long) n, (long long) open);
            if(!wall_jump_seen) {
                string up = j["uptime"];
                while(!up.empty() && up.back() == ' ') up.pop_back();
                i64 lo = (i64) ((rq.sent_at - t0) / 1000000) - 1, hi = ((i64) W->now + W->wall_off) / 1000000 - wall0 + 1;
                bool ok = false;
                for(i64 d = std::max<i64>(0, lo); d <= hi && !ok; d++) ok = up == uptime(d);
                if(!ok) violation("%s: the uptime is \"%s\" after %lld seconds", what.c_str(), show(up).c_str(), (long long) (hi - 1));
            }
            STAT("probe:module_diag");
        } else {
            if(r.body.find("secret") != string::npos) violation("%s: the answer carries what the script did not write: \"%s\"", what.c_str(), show(r.body).c_str());
            bool bad_now = broken && s.phase == 0;
            if(r.status == 500) {
                if(!bad_now && !every) violation("%s: the script does not fail and the answer is 500", what.c_str());
                if(!bad_now && every && late) violation("%s: the script had answered before it failed and the answer is 500", what.c_str());
                STAT("probe:module_lua_failure");
                return;
            }
            if(bad_now) { violation("%s: the script can not be loaded and the answer is %d", what.c_str(), r.status); return; }
            int n = -1, runs = -1, v = -1, end = 0;
            i64 size = l.num("size", 10) / 4 * 4;
            string want;
            for(i64 k = 0; k < size / 4; k++) want += string("\0x\r\n", 4);
            if(r.status != 200 || r.body.size() < (size_t) size || r.body.compare(0, (size_t) size, want) || sscanf(r.body.c_str() + size, "n=%d;r=%d;v=%d;%n", &n, &runs, &v, &end) != 3 || (size_t) (size + end) != r.body.size()) { violation("%s: the answer (%d, %zu bytes) is not the one the script wrote", what.c_str(), r.status, r.body.size()); return; }
            STAT("probe:module_lua");
            if(!answers(n)) violation("%s: call %d of the script answers nothing and is answered with 200", what.c_str(), n);
            if(seen.count(n)) violation("%s: call %d of the script also answered %s", what.c_str(), n, seen[n].c_str());
            seen[n] = what;
            if(last.count(c.id) && n <= last[c.id]) violation("%s: answered by call %d after call %lld", what.c_str(), n, (long long) last[c.id]);
            last[c.id] = n;
            i64 rr = 1;
            for(i64 k = 1; k < n; k++) if(raises(k)) rr++;
            if(runs != rr) violation("%s: call %d comes after %d runs of the script, %lld were due (one at first, one after each failure)", what.c_str(), n, runs, (long long) rr);
            bool fresh = edited_at >= 0 && [&]() { for(i64 k = n_edit + 1; k < n; k++) if(raises(k)) return true; return false; }();
            if(edited_at < 0 ? v != 1 : fresh && v != 2) violation("%s: version %d of the script answers call %d", what.c_str(), v, n);
        }
    };
    // an answer followed by a failure may be incomplete: its connection ends there
    if(every && late) s.may_cut = [&](Client &c, Req &) { for(auto &x : c.reqs) if(route(s, x).handler == "lua") return true; return false; };
    s.on_phase = [&](int) {
        if(broken) { W->fs.erase(path); W->mkfile(path, good); broken = 0; n_edit = 0; }
        else if(l.num("edit")) {
            // no call so far has a higher number than this
            n_edit = 0;
            for(auto &c : s.clients) for(auto &x : c->reqs) if(x.sent && route(s, x).handler == "lua") n_edit++;
            edited_at = s.phase; W->mkfile(path, lua_script(l, 2)); STAT("fault:file_changed");
        }
    };
    s.run();
}
static RegScenario h28({"H28", "the handlers of the modules answer every request once and as specified", gen_mod, run_mod});
