// H25: pages made from templates (directory listings, error pages). Every run
// writes its own templates, built from random fragments; a reference renderer
// says what each page has to look like, byte by byte.
#include "gen.h"
#include <ctime>
#include <functional>

namespace {
static string show(const string &s) { string o; char b[8]; for(unsigned char c : s) if(c >= 32 && c < 127) o += (char) c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } return o; }
struct Frag { string k, s, v; i64 n = 0; int sp = 0; vector<Frag> in; };
// fragments of one template as a tree; loose ends are closed, fragments which
// make no sense where they are (a loop variable outside of its loop) dropped
static bool in_scope(const string &v, const vector<string> &scope) {
    size_t d = v.find('.');
    if(d == string::npos) return true;
    string h = v.substr(0, d);
    if(h == "nobody") return true;
    return std::find(scope.begin(), scope.end(), h) != scope.end();
}
static vector<Frag> assemble(const Plan &p, const string &which) {
    vector<Frag> root;
    std::function<void(size_t &, vector<Frag> &, vector<string> &, int)> fill;
    vector<const Item *> its;
    for(auto &i : p.items) if(i.kind == "tpl" && i.get("w") == which) its.push_back(&i);
    fill = [&](size_t &i, vector<Frag> &out, vector<string> &scope, int depth) {
        while(i < its.size()) {
            const Item &t = *its[i++];
            Frag f;
            f.k = t.get("k"); f.s = t.get("s"); f.v = t.get("v"); f.n = t.num("n", 0); f.sp = (int) t.num("sp", 1);
            if(f.sp < 0) f.sp = 0;
            if(f.k == "end") { if(depth) return; continue; }
            if(f.k == "text") {
                if(t.has("rep")) { string x; for(i64 k = 0; k < t.num("rep", 1); k++) x += f.s; f.s = x; }
                if(f.s.empty()) continue;
                if(!out.empty() && out.back().k == "text") out.back().s += f.s; else out.push_back(f);
                continue;
            }
            if((f.k == "out" || f.k == "if") && !in_scope(f.v, scope)) { if(f.k == "if") { vector<Frag> x; fill(i, x, scope, depth + 1); for(auto &y : x) out.push_back(y); } continue; }
            if(f.k == "for") {
                string var = f.v.empty() ? "x" : f.v;
                if(std::find(scope.begin(), scope.end(), var) != scope.end() || depth > 3) { vector<Frag> x; fill(i, x, scope, depth + 1); for(auto &y : x) out.push_back(y); continue; }
                f.v = var;
                scope.push_back(var);
                fill(i, f.in, scope, depth + 1);
                scope.pop_back();
            }
            else if(f.k == "if") fill(i, f.in, scope, depth + 1);
            out.push_back(f);
        }
    };
    size_t i = 0;
    vector<string> scope;
    fill(i, root, scope, 0);
    return root;
}
// no "${" may come up inside of a text or where two fragments meet, NUL ends text
static void source(const vector<Frag> &v, string &o) {
    for(auto &f : v) {
        string sp((size_t) std::max(f.sp, 1), ' '), fin((size_t) f.sp, ' ');
        if(f.k == "text" || f.k == "junk") o += f.s;
        else if(f.k == "out") o += "${out" + sp + "value=" + f.v + fin + "/}";
        else if(f.k == "str") o += "${out" + sp + "value=\"" + f.s + "\"" + fin + "/}";
        else if(f.k == "for") { o += "${foreach" + sp + (f.n & 1 ? "from=" + f.s + sp + "item=" + f.v : "item=" + f.v + sp + "from=" + f.s) + (f.n & 2 ? sp : "") + "}"; source(f.in, o); o += "${/foreach}"; }
        else if(f.k == "if") { o += "${if" + sp + (f.n < 0 ? "value=" + std::to_string(-f.n) + sp + "item=" + f.v + sp + "operator=eq" : "item=" + f.v + sp + "value=" + std::to_string(f.n) + sp + "operator=eq") + "}"; source(f.in, o); o += "${/if}"; }
    }
}
struct Val { bool num = false; i64 n = 0; string s; };
typedef std::map<string, Val> Row;
struct Env { std::map<string, Val> g; std::map<string, vector<Row>> lists; std::map<string, const Row *> vars; };
static const Val *find(const Env &e, const string &v) {
    size_t d = v.find('.');
    if(d == string::npos) { auto i = e.g.find(v); return i == e.g.end() ? nullptr : &i->second; }
    auto i = e.vars.find(v.substr(0, d));
    if(i == e.vars.end()) return nullptr;
    auto j = i->second->find(v.substr(d + 1));
    return j == i->second->end() ? nullptr : &j->second;
}
static void render(const vector<Frag> &v, Env &e, string &o) {
    for(auto &f : v) {
        if(f.k == "text" || f.k == "str") o += f.s;
        else if(f.k == "out") {
            if(f.v.size() && (f.v[0] >= '0' && f.v[0] <= '9')) { o += f.v; continue; }
            if(const Val *x = find(e, f.v)) o += x->s;
        }
        else if(f.k == "for") {
            auto l = e.lists.find(f.s);
            if(l == e.lists.end()) continue;
            for(auto &row : l->second) { e.vars[f.v] = &row; render(f.in, e, o); }
            e.vars.erase(f.v);
        }
        else if(f.k == "if") { const Val *x = find(e, f.v); if(x && x->num && x->n == (f.n < 0 ? -f.n : f.n)) render(f.in, e, o); }
    }
}
static Val num(i64 n) { Val v; v.num = true; v.n = n; v.s = std::to_string(n); return v; }
static Val str(const string &s) { Val v; v.s = s; return v; }
// sizes are shown for people: the largest unit that rounds to at least one
static string human(size_t b) {
    char o[64];
    static const struct { double u; const char *n; } un[] = {{1073741824.0, "GByte"}, {1048576.0, "MByte"}, {1024.0, "KByte"}};
    for(auto &u : un) {
        size_t v = (size_t) ((double) b / u.u + 0.5);
        if(!v) continue;
        if(v == 1) snprintf(o, sizeof o, "%.1f %s", (double) b / u.u, u.n);
        else if(v < 10) snprintf(o, sizeof o, "%.1f %ss", (double) b / u.u, u.n);
        else snprintf(o, sizeof o, "%zu %ss", v, u.n);
        return o;
    }
    if(b < 10) { snprintf(o, sizeof o, "%.1f %s", (double) b, b == 1 ? "Byte" : "Bytes"); return o; }
    return std::to_string(b) + " Bytes";
}
static vector<Row> rows_of(const string &dir) {
    vector<std::pair<std::pair<int, string>, NodeP>> es;
    string pre = normpath(dir) == "/" ? "/" : normpath(dir) + "/";
    es.push_back({{1, "."}, W->lookup(normpath(dir))});
    es.push_back({{1, ".."}, W->lookup(normpath(dir + "/.."))});
    for(auto i = W->fs.lower_bound(pre); i != W->fs.end() && i->first.compare(0, pre.size(), pre) == 0; ++i) {
        string x = i->first.substr(pre.size());
        if(!x.empty() && x.find('/') == string::npos) es.push_back({{i->second->dir ? 1 : 2, x}, i->second});
    }
    std::sort(es.begin(), es.end(), [](auto &a, auto &b) { return a.first < b.first; });
    vector<Row> o;
    for(auto &e : es) {
        Row r;
        r["name"] = str(e.first.second);
        r["type"] = num(e.first.first);
        r["size"] = num(e.second->dir ? 4096 : (i64) e.second->data.size());
        r["size_string"] = str(e.second->dir ? "-" : human(e.second->data.size()));
        time_t t = (time_t) e.second->mtime;
        struct tm tm;
        gmtime_r(&t, &tm);
        char b[64];
        snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min);
        r["time"] = str(b);
        o.push_back(r);
    }
    return o;
}

static string text(Rng &r) {
    static const char *bits[] = {"$", "$$", "{", "}", "/}", "${"+1, "<tr>", "\n", "\r\n", "\"", "=", "/", "$ {", "&amp;", "caf\xc3\xa9", "\xff", "\xfe\xff", "  ", "price: $5", "%d%s", "{}", "$}", "\\"};
    string o;
    int n = (int) r.range(1, 8);
    for(int i = 0; i < n; i++) o += r.pct(50) ? bits[r.below(23)] : word(r, (int) r.range(1, 10));
    size_t k;
    while((k = o.find("${")) != string::npos) o[k + 1] = '(';
    return o;
}
static void fragments(Plan &p, Rng &r, const string &w, vector<string> names, int depth, int &left, bool list) {
    int n = (int) r.range(1, 6);
    for(int i = 0; i < n && left > 0; i++) {
        left--;
        int k = (int) r.below(100);
        int sp = r.pct(75) ? 1 : (int) r.range(0, 5);
        if(k < 40) {
            string s = text(r);
            Item &t = p.add("tpl").set("w", w).set("k", "text").set("s", s);
            if(r.pct(8) && s[0] != '{' && s.back() != '$') t.set("rep", r.range(10, 900));
        }
        else if(k < 65) p.add("tpl").set("w", w).set("k", "out").set("v", r.pick(names)).set("sp", sp);
        else if(k < 75) {
            string s = r.pct(10) ? word(r, (int) r.range(60, 400)) : text(r);
            for(auto &c : s) if(c == '"') c = '\'';
            if(r.pct(10)) s = "";
            p.add("tpl").set("w", w).set("k", "str").set("s", s).set("sp", sp);
        }
        else if(k < 88 && depth < 3) {
            static const char *vars[] = {"entry", "e", "item2", "Other", "x_y", "a_rather_long_name_for_the_variable_of_a_loop"};
            string v = vars[r.below(6)], from = list && r.pct(93) ? "entries" : "nothing";
            p.add("tpl").set("w", w).set("k", "for").set("v", v).set("s", from).set("n", (i64) r.below(4)).set("sp", sp);
            vector<string> in = names;
            static const char *fields[] = {"name", "type", "time", "size", "size_string", "absent"};
            for(int q = 0; q < 6; q++) in.push_back(v + "." + fields[q]);
            for(int q = 0; q < 2; q++) in.push_back(v + ".name");
            fragments(p, r, w, in, depth + 1, left, list);
            p.add("tpl").set("w", w).set("k", "end");
        }
        else if(depth < 5) {
            string v = r.pick(names);
            i64 val = r.pct(70) ? r.range(1, 3) : v.find("size") != string::npos ? r.range(1, 12) : list ? r.range(1, 9) : r.pct(70) ? 404 : r.range(300, 600);
            p.add("tpl").set("w", w).set("k", "if").set("v", v).set("n", r.pct(30) ? -val : val).set("sp", sp);
            fragments(p, r, w, names, depth + 1, left, list);
            p.add("tpl").set("w", w).set("k", "end");
        }
    }
}
static void gen_tpl(Plan &p, Rng &r, bool) {
    swarm_cfg(p, r);
    if(r.pct(20)) p.items[0].set("dtype", "0");
    p.add("gen").set("key", "use_template").set("val", "1");
    if(r.pct(40)) use_handler(p, r);
    bool disp = !p.find("gen") || p.items.back().get("key") != "handler";
    vector<string> paths;
    vector<string> dirs = {"/", "/q/"};
    if(r.pct(40)) dirs.push_back("/q/r/");
    for(auto &d : dirs) {
        p.add("dir").set("path", "/www" + d.substr(0, d.size() - 1) + (d == "/" ? "zz" : ""));
        int n = (int) r.range(0, 5);
        for(int i = 0; i < n; i++) {
            string nm = word(r, (int) r.range(1, r.pct(10) ? 150 : 8)) + (r.pct(30) ? "${out}" : r.pct(20) ? "<b>&" : "") + (r.pct(50) ? ".txt" : "");
            if(nm == "q" || nm == "r") nm = "n" + nm;
            if(r.pct(75)) p.add("file").set("path", "/www" + d + nm).set("data", "gen:3:" + std::to_string(r.pct(30) ? r.range(1, 12) : r.pct(90) ? pick_size(r, 3000) : r.range(0, 3000000))).set("mtime", r.range(0, 4000000000LL));
            else p.add("dir").set("path", "/www" + d + nm);
        }
        paths.push_back(d);
    }
    paths.push_back("/absent"); paths.push_back("/absent/too");
    if(disp && r.pct(40)) { p.add("loc").set("name", "lk").set("path", "^/lk/").set("base_path", "/data").set("auth_basic", "basic").set("auth_file", "/data/pw"); p.add("file").set("path", "/data/pw").set("data", "lit:u:p\n"); paths.push_back("/lk/x"); }
    vector<string> ln = {"folder_path", "items", "items", "7", "3.25", "42", "nobody", "nobody.name"};
    vector<string> en = {"error_code", "error_message", "error_code", "error_message", "10", "2.5", "nobody", "nobody.name"};
    for(auto v : {&ln, &en}) if(r.pct(40)) {
        static const char *nums[] = {"0", "007", "00", "99999999999", "4294967296", "0.50", "1.0000000001", "2147483648", "123456789012345678901234567890", "0x1f", "1e9"};
        for(int i = 0; i < 3; i++) v->push_back(nums[r.below(11)]);
    }
    int left = (int) r.range(1, 30);
    fragments(p, r, "l", ln, 0, left, true);
    left = (int) r.range(1, 12);
    fragments(p, r, "e", en, 0, left, false);
    if(r.pct(20)) {
        // mistakes: whatever is written in a template, the server serves on
        static const char *mist[] = {"${out", "${", "${}", "${/}", "${/if}", "${/foreach}", "${/out}", "${out}", "${out /}", "${out value /}", "${out value= /}", "${out value=items.size /}", "${out value=entries /}", "${out value=. /}", "${out value=entries.name /}", "${out item=items /}", "${foreach item=x}", "${foreach from=entries}", "${foreach}", "${foreach item=x from=items}", "${foreach item=\"x\" from=entries}", "${foreach item=1 from=2}", "${if}", "${if item=items}", "${if item=folder_path value=1}", "${if item=items value=x}", "${if value=1}", "${unknown value=1 /}", "${unknown}", "${out value=\"", "${out value=\"x /}", "${out value=error_code", "$", "${foreach item=entries from=entries}", "${out =x /}", "${out x==y /}", "${out value=a value=b /}", "${ out value=items /}", "${foreach item=folder_path from=entries}${out value=folder_path.name /}", "${out value=folder_path.name /}", "${foreach item=x from=entries}${foreach item=y from=x}"};
        int n = (int) r.range(1, 4);
        for(int i = 0; i < n; i++) {
            string m = mist[r.below(41)];
            if(r.pct(20)) m += word(r, (int) r.range(1, 300));
            p.add("tpl").set("w", r.pct(60) ? "l" : "e").set("k", "junk").set("s", m);
            int more = (int) r.range(0, 5);
            if(r.pct(60)) fragments(p, r, p.items.back().get("w"), p.items.back().get("w") == "l" ? ln : en, 0, more, true);
        }
    }
    int phases = r.pct(35) ? 2 : 1;
    if(phases == 2) {
        string t = r.pct(50) ? "/www/templates/listing.html.tpl" : "/www/templates/error.html.tpl";
        if(r.pct(50)) p.add("fault").set("kind", "fs").set("op", "openerr").set("path", t).set("arg", r.pct(50) ? EACCES : EMFILE).set("phase", 1);
        else p.add("fault").set("kind", "fs").set("op", "eio").set("path", t).set("arg", r.range(0, 200)).set("phase", 1);
        p.add("fault").set("kind", "fs").set("op", "heal").set("path", t).set("phase", 2);
        phases = 3;
    }
    int id = 0;
    for(int ph = 0; ph < phases; ph++) {
        int nc = (int) r.range(1, 2);
        for(int c = 0; c < nc; c++, id++) {
            Item &cl = add_client(p, r, id);
            if(ph) cl.set("phase", ph);
            if(r.pct(30)) cl.set("mode", "pipe");
            int n = (int) r.range(1, 4);
            for(int i = 0; i < n; i++) add_req(p, id, r.pick(paths), r.pct(90) ? "GET" : "HEAD");
        }
    }
}
static void run_tpl(const Plan &p) {
    Srv s(p);
    s.setup();
    vector<Frag> lt = assemble(p, "l"), et = assemble(p, "e");
    string ls, es;
    source(lt, ls); source(et, es);
    W->mkfile("/www/templates/listing.html.tpl", ls);
    W->mkfile("/www/templates/error.html.tpl", es);
    bool bad_phase = false, junk = false;
    for(auto &i : p.items) if(i.kind == "tpl" && i.get("k") == "junk") junk = true;
    if(junk) STAT("template:malformed");
    for(auto &i : p.items) if(i.kind == "fault") { bad_phase = true; }
    auto count = [](const string &t, const string &x) { size_t n = 0; for(size_t i = 0; (i = t.find(x, i)) != string::npos; i++) n++; return n; };
    // a text that runs into the next fragment so that "${" comes up says something else
    size_t opens = 0;
    std::function<void(const vector<Frag> &)> cnt = [&](const vector<Frag> &v) { for(auto &f : v) { if(f.k == "text" || f.k == "junk") continue; opens += f.k == "str" ? 1 + count(f.s, "${") : f.k == "out" ? 1 : 2; cnt(f.in); } };
    cnt(lt); cnt(et);
    bool odd = opens != count(ls, "${") + count(es, "${");
    if(odd && !junk) return;
    for(auto &c : ls) T.sh((u64) (unsigned char) c & 7);
    s.override_check = [&](Client &c, Req &q, Resp &r) {
        int ph = (int) c.it.num("phase", 0);
        bool sick = (bad_phase && ph == 1);
        string path = q.target;
        bool err = path.compare(0, 7, "/absent") == 0 || path == "/lk/x";
        int want_status = path == "/lk/x" ? 401 : err ? 404 : 200;
        if(err && r.status == 404 && path == "/lk/x") want_status = 404;
        if(sick) {
            if(err && r.status != want_status && r.status != 500) violation("%s: %s is answered with %d while a template can not be read", c.describe().c_str(), path.c_str(), r.status);
            return true;
        }
        if(r.status != want_status) { violation("%s: %s is answered with %d, expected %d", c.describe().c_str(), path.c_str(), r.status, want_status); return true; }
        if(q.method == "HEAD" || junk || (err && s.general["use_template"] != "1")) return true;
        Env e;
        string want;
        if(err) { e.g["error_code"] = num(r.status); e.g["error_message"] = str(r.reason); render(et, e, want); }
        else {
            e.lists["entries"] = rows_of("/www" + path);
            e.g["items"] = num((i64) e.lists["entries"].size());
            e.g["folder_path"] = str(path.size() > 2 ? path.substr(1, path.size() - 2) : "");
            render(lt, e, want);
        }
        R->nontrivial = 1;
        if(want == r.body) { STAT(err ? "template:error_page" : "template:listing"); return true; }
        size_t i = 0;
        while(i < r.body.size() && i < want.size() && r.body[i] == want[i]) i++;
        violation("%s: %s: the page is not its template filled in: %zu bytes instead of %zu, first difference at offset %zu: \"%s\" instead of \"%s\"", c.describe().c_str(), path.c_str(), r.body.size(), want.size(), i, show(r.body.substr(i, 40)).c_str(), show(want.substr(i, 40)).c_str());
        return true;
    };
    s.run();
}
static RegScenario h25({"H25", "pages made from templates are the template with the values filled in", gen_tpl, run_tpl});
}
