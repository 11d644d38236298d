// vsim: generates, executes, gates, minimises and reports simulated runs.
#include "sim.h"
#include "tls.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <chrono>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

vector<Scenario> &scenarios() { static vector<Scenario> v; return v; }

static double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (double) ts.tv_sec + (double) ts.tv_nsec / 1e9; }
static string slurp(const string &p) {
    FILE *f = fopen(p.c_str(), "rb");
    if(!f) return "";
    string o;
    char b[65536];
    size_t n;
    while((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
    fclose(f);
    return o;
}
static void spit(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "wb"); if(!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); exit(2); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
static string tmpd;

static const Scenario *find_scn(const string &prop) { for(auto &s : scenarios()) if(prop == s.prop) return &s; return nullptr; }

// ------------------------------------------------------------------ executing one plan
struct Outcome { Result r; string msg; bool harness = false; };
static string crash_signature(const string &err, int status) {
    string kind, frames;
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if(p != string::npos) { p += 25; kind = err.substr(p, err.find_first_of(" \n:", p) - p); }
    else if((p = err.find("runtime error: ")) != string::npos) { kind = err.substr(p + 15, err.find('\n', p) - p - 15); }
    else if(WIFSIGNALED(status)) kind = string("signal ") + strsignal(WTERMSIG(status));
    else kind = "exit status " + std::to_string(WEXITSTATUS(status));
    // functions of the code under test on the faulting stack
    size_t i = p == string::npos ? err.size() : p;
    int n = 0;
    while(n < 3 && (i = err.find("    #", i)) != string::npos) {
        size_t e = err.find('\n', i);
        string l = err.substr(i, e - i);
        if(l.find("    #0 ") == 0 && n) break;
        i = e == string::npos ? err.size() : e;
        size_t q = l.find(" in ");
        if(q == string::npos) continue;
        string fn = l.substr(q + 4, l.find(' ', q + 4) - q - 4);
        if(l.find("/src/viriatum") == string::npos && l.find("/modules/mod_") == string::npos) continue;
        frames += (n ? " < " : "") + fn;
        n++;
    }
    return "memory safety: " + kind + (frames.empty() ? "" : " in " + frames);
}
static Outcome execute(const Plan &plan, Result *sh, bool verbose = false, double cpu_limit = 20) {
    const Scenario *sc = find_scn(plan.prop);
    Outcome o;
    if(!sc) { fprintf(stderr, "unknown property %s\n", plan.prop.c_str()); exit(2); }
    memset(sh, 0, sizeof *sh);
    string errf = tmpd + "/err." + std::to_string(getpid());
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if(pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit rl = {(rlim_t) cpu_limit, (rlim_t) cpu_limit + 1};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit rc = {0, 0};
        setrlimit(RLIMIT_CORE, &rc);
        R = sh;
        if(verbose) T.out = fdopen(dup(1), "w");
        int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
        dup2(e, 2);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        int z = open("/dev/null", O_RDONLY);
        dup2(z, 0);
        sc->run(plan);
        finish_run();
    }
    int status = 0;
    double t0 = now_s();
    bool killed = false;
    while(true) {
        pid_t r = waitpid(pid, &status, killed ? 0 : WNOHANG);
        if(r == pid) break;
        if(now_s() - t0 > 240) { kill(pid, SIGKILL); killed = true; continue; }
        struct timespec ts = {0, now_s() - t0 < 0.02 ? 200000 : 2000000};
        nanosleep(&ts, nullptr);
    }
    o.r = *sh;
    if(sh->violated) o.msg = sh->msg;
    else if(killed) { o.harness = true; o.msg = "run exceeded its wall clock limit"; }
    else if(!sh->done) {
        string err = slurp(errf);
        if(WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL)) o.msg = "endless loop: the run used its whole CPU budget without reaching another system call";
        else o.msg = crash_signature(err, status);
        o.r.violated = 1;
        if(verbose) { fputs(err.c_str(), stderr); }
    }
    unlink(errf.c_str());
    return o;
}
static Result *shared_result() { return (Result *) mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static string klass(const string &m) { // message class: numbers and quoted data removed
    string o;
    bool q = false;
    for(char c : m) { if(c == '"') { q = !q; continue; } if(q) continue; if(isdigit((unsigned char) c)) { if(o.empty() || o.back() != '#') o += '#'; } else o += c; }
    // request targets vary between otherwise equal failures
    size_t i = 0;
    string r;
    while(i < o.size()) { if(o[i] == '/' && (i == 0 || o[i - 1] == ' ')) { r += "/*"; while(i < o.size() && o[i] != ' ') i++; } else r += o[i++]; }
    return r;
}

// ------------------------------------------------------------------ generation
static Plan generate(const Scenario *sc, u64 seed, bool thorough) {
    Plan p;
    p.prop = sc->prop;
    p.seed = seed;
    Rng r(mix2(seed, 99));
    sc->gen(p, r, thorough);
    return p;
}

// ------------------------------------------------------------------ minimisation
static Plan minimise(Plan p, const string &want, Result *sh, double budget) {
    double t0 = now_s();
    auto fails = [&](const Plan &q) { return klass(execute(q, sh, false, 20).msg) == want; };
    bool progress = true;
    while(progress && now_s() - t0 < budget) {
        progress = false;
        for(size_t chunk = std::max((size_t) 1, p.items.size() / 2); chunk >= 1; chunk /= 2) {
            for(size_t i = 0; i < p.items.size() && now_s() - t0 < budget;) {
                Plan q = p;
                size_t e = std::min(i + chunk, q.items.size());
                q.items.erase(q.items.begin() + (long) i, q.items.begin() + (long) e);
                if(fails(q)) { p = q; progress = true; } else i += chunk;
            }
            if(chunk == 1) break;
        }
        for(size_t i = 0; i < p.items.size(); i++) {
            for(size_t k = 0; k < p.items[i].kv.size() && now_s() - t0 < budget;) {
                Plan q = p;
                q.items[i].kv.erase(q.items[i].kv.begin() + (long) k);
                if(fails(q)) { p = q; progress = true; } else k++;
            }
            for(auto &kv : p.items[i].kv) { // shrink numbers and generated content
                for(int step = 0; step < 12 && now_s() - t0 < budget; step++) {
                    Plan q = p;
                    string nv;
                    if(kv.second.compare(0, 4, "gen:") == 0 || kv.second.compare(0, 4, "rep:") == 0) {
                        size_t c = kv.second.rfind(':');
                        u64 n = strtoull(kv.second.c_str() + c + 1, nullptr, 10);
                        if(n < 2) break;
                        nv = kv.second.substr(0, c + 1) + std::to_string(n / 2);
                    } else {
                        char *end;
                        i64 n = strtoll(kv.second.c_str(), &end, 10);
                        if(*end || kv.second.empty() || n < 2 || kv.first == "id" || kv.first == "c" || kv.first == "port" || kv.first == "seed" || kv.first == "mtime") break;
                        nv = std::to_string(n / 2);
                    }
                    q.items[i].set(kv.first, nv);
                    if(!fails(q)) break;
                    kv.second = nv;
                    progress = true;
                }
            }
        }
    }
    return p;
}

// ------------------------------------------------------------------ worker
struct Summary {
    u64 runs = 0, calls = 0, sim_us = 0, events = 0, reqs = 0, resps = 0, nontrivial = 0, det_checked = 0, det_bad = 0;
    std::map<string, u64> stats;
    std::set<u64> shapes;
    struct Fail { string plan, msg; bool harness; };
    vector<Fail> fails;
};
static void worker(const Scenario *sc, u64 seed, bool thorough, int w, int nw, u64 runs, double deadline, const string &out) {
    Result *sh = shared_result();
    Summary s;
    std::map<string, int> classes;
    for(u64 i = (u64) w; i < runs; i += (u64) nw) {
        if(now_s() > deadline) break;
        Plan p = generate(sc, mix2(seed, i) >> 1, thorough);
        double began = now_s();
        Outcome o = execute(p, sh);
        static const char *slow = getenv("VSIM_SLOW");
        if(slow && now_s() - began > atof(slow)) fprintf(stderr, "slow run: seed %llu %.1f s\n", (unsigned long long) p.seed, now_s() - began);
        s.runs++;
        s.calls += o.r.calls; s.sim_us += o.r.sim_us; s.events += o.r.events; s.reqs += o.r.reqs; s.resps += o.r.resps;
        s.nontrivial += o.r.nontrivial ? 1 : 0;
        if(o.r.nontrivial) s.shapes.insert(o.r.shape);
        for(size_t k = 0; k < MAX_STATS; k++) if(o.r.stats[k]) s.stats[o.r.stat_name[k]] += o.r.stats[k];
        if(i < 64 || i % 97 == 0) { // determinism: the same plan again must give the same trace
            u64 h = o.r.hash;
            Outcome o2 = execute(p, sh);
            s.det_checked++;
            if(o2.r.hash != h || o2.msg != o.msg) { s.det_bad++; if(s.det_bad <= 2) fprintf(stderr, "nondeterministic run: seed %llu (%s | %s)\n", (unsigned long long) p.seed, o.msg.c_str(), o2.msg.c_str()); }
        }
        if(!o.msg.empty()) {
            string k = klass(o.msg);
            if(classes[k]++ == 0 || o.harness) s.fails.push_back({p.text(), o.msg, o.harness});
            if(classes.size() > 12) break;
        }
    }
    FILE *f = fopen(out.c_str(), "w");
    fprintf(f, "%llu %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long) s.runs, (unsigned long long) s.calls, (unsigned long long) s.sim_us, (unsigned long long) s.events, (unsigned long long) s.reqs, (unsigned long long) s.resps, (unsigned long long) s.nontrivial, (unsigned long long) s.det_checked, (unsigned long long) s.det_bad);
    fprintf(f, "%zu\n", s.stats.size());
    for(auto &x : s.stats) fprintf(f, "%s %llu\n", x.first.c_str(), (unsigned long long) x.second);
    fprintf(f, "%zu\n", s.shapes.size());
    for(u64 x : s.shapes) fprintf(f, "%llu\n", (unsigned long long) x);
    fprintf(f, "%zu\n", s.fails.size());
    for(auto &x : s.fails) fprintf(f, "%d %s %s\n", x.harness ? 1 : 0, (esc(x.msg) + "|").c_str(), esc(x.plan).c_str());
    fclose(f);
}
static bool read_summary(const string &p, Summary &s) {
    FILE *f = fopen(p.c_str(), "r");
    if(!f) return false;
    unsigned long long v[9], n;
    bool ok = false;
    do {
        for(auto &x : v) if(fscanf(f, "%llu", &x) != 1) break;
        s.runs += v[0]; s.calls += v[1]; s.sim_us += v[2]; s.events += v[3]; s.reqs += v[4]; s.resps += v[5]; s.nontrivial += v[6]; s.det_checked += v[7]; s.det_bad += v[8];
        if(fscanf(f, "%llu", &n) != 1) break;
        for(unsigned long long i = 0; i < n; i++) { char name[128]; unsigned long long c; if(fscanf(f, "%127s %llu", name, &c) == 2) s.stats[name] += c; }
        if(fscanf(f, "%llu", &n) != 1) break;
        for(unsigned long long i = 0; i < n; i++) { unsigned long long c; if(fscanf(f, "%llu", &c) == 1) s.shapes.insert(c); }
        if(fscanf(f, "%llu\n", &n) != 1) break;
        ok = true;
    } while(false);
    if(ok) {
        char *line = nullptr;
        size_t cap = 0;
        for(unsigned long long i = 0; i < n; i++) {
            ssize_t l = getline(&line, &cap, f);
            if(l <= 0) { ok = false; break; }
            string t(line, (size_t) l);
            if(!t.empty() && t.back() == '\n') t.pop_back();
            size_t a = t.find(' '), b = t.find("| ");
            if(a == string::npos || b == string::npos) { ok = false; break; }
            s.fails.push_back({unesc(t.substr(b + 2)), unesc(t.substr(a + 1, b - a - 1)), t[0] == '1'});
        }
        free(line);
    }
    fclose(f);
    return ok;
}

// ------------------------------------------------------------------ known findings
struct Known { string prop, what, match; };
// lines: "known: property=<id> match=<text contained in the violation> :: <what fails>"
static vector<Known> load_known(const string &path) {
    vector<Known> v;
    string t = slurp(path);
    size_t i = 0;
    while(i < t.size()) {
        size_t e = t.find('\n', i);
        if(e == string::npos) e = t.size();
        string l = t.substr(i, e - i);
        i = e + 1;
        if(l.compare(0, 16, "known: property=") != 0) continue;
        Known k;
        size_t s = l.find(' ', 16), m = l.find(" match="), w = l.find(" :: ");
        if(s == string::npos || m == string::npos || w == string::npos) continue;
        k.prop = l.substr(16, s - 16);
        k.match = l.substr(m + 7, w - m - 7);
        k.what = l.substr(w + 4);
        v.push_back(k);
    }
    return v;
}
static string json(const string &s) {
    string o = "\"";
    char b[8];
    for(unsigned char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if(c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char) c; }
    return o + "\"";
}

// one run of each named property in turn until one fails (used to measure the checks against mutations)
static int cmd_hunt(int argc, char **argv) {
    double deadline = now_s() + atof(argv[2]);
    u64 seed = strtoull(argv[3], nullptr, 10), n = 0;
    Result *sh = shared_result();
    for(u64 i = 0; now_s() < deadline; i++)
        for(int k = 4; k < argc && now_s() < deadline; k++) {
            const Scenario *sc = find_scn(argv[k]);
            if(!sc) return 2;
            Plan p = generate(sc, mix2(seed, i) >> 1, false);
            Outcome o = execute(p, sh, false, 5);
            n++;
            if(!o.msg.empty() && !o.harness) { printf("KILLED %s after %llu runs: %s\n", argv[k], (unsigned long long) n, o.msg.c_str()); return 1; }
        }
    printf("SURVIVED %llu runs\n", (unsigned long long) n);
    return 0;
}

static int cmd_check(int argc, char **argv) {
    string prop = argv[2], tier = "quick", evidence, known_path, replay_dir = ".", level = "exploration";
    u64 seed = 1, runs = 0;
    int jobs = 8;
    double secs = 0;
    string components, assumptions;
    for(int i = 3; i + 1 < argc; i += 2) {
        string k = argv[i], v = argv[i + 1];
        if(k == "--tier") tier = v; else if(k == "--seed") seed = strtoull(v.c_str(), nullptr, 10); else if(k == "--jobs") jobs = atoi(v.c_str());
        else if(k == "--runs") runs = strtoull(v.c_str(), nullptr, 10); else if(k == "--secs") secs = atof(v.c_str()); else if(k == "--evidence") evidence = v;
        else if(k == "--known") known_path = v; else if(k == "--replays") replay_dir = v; else if(k == "--level") level = v;
        else if(k == "--components") components = slurp(v); else if(k == "--assume") assumptions = v;
    }
    bool thorough = tier == "thorough";
    const Scenario *sc = find_scn(prop);
    if(!sc) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    if(!runs) runs = thorough ? 2000000 : 4000;
    if(!secs) secs = thorough ? 600 : 40;
    double t0 = now_s();
    vector<pid_t> pids;
    for(int w = 0; w < jobs; w++) {
        pid_t p = fork();
        if(p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(sc, seed, thorough, w, jobs, runs, t0 + secs, tmpd + "/sum." + std::to_string(w)); _exit(0); }
        pids.push_back(p);
    }
    bool bad = false;
    for(pid_t p : pids) { int st; waitpid(p, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    Summary s;
    for(int w = 0; w < jobs; w++) if(!read_summary(tmpd + "/sum." + std::to_string(w), s)) bad = true;
    if(bad) { fprintf(stderr, "a worker failed\n"); return 2; }
    auto known = load_known(known_path);
    Result *sh = shared_result();
    std::map<string, bool> seen;
    std::set<string> known_hit;
    int rc = 0, nviol = 0, shown = 0;
    string samples;
    for(auto &f : s.fails) {
        bool is_known = false;
        for(auto &k : known) if(k.prop == prop && f.msg.find(k.match) != string::npos) { is_known = true; known_hit.insert(k.what); }
        if(is_known) continue;
        string k = klass(f.msg);
        if(seen[k]) continue;
        seen[k] = true;
        if(shown >= 6) { nviol++; continue; }
        Plan p;
        Plan::parse(f.plan, p);
        // gate: the same plan in fresh processes must fail the same way
        Outcome a = execute(p, sh), b = execute(p, sh);
        if(f.harness || klass(a.msg) != k || klass(b.msg) != k || a.r.hash != b.r.hash) {
            fprintf(stderr, "HARNESS-ERROR property=%s irreproducible: %s | %s | %s\n", prop.c_str(), f.msg.c_str(), a.msg.c_str(), b.msg.c_str());
            spit(replay_dir + "/unstable-" + prop + ".plan", f.plan);
            if(rc == 0) rc = 2;
            continue;
        }
        Plan m = minimise(p, k, sh, shown == 0 ? 25 : 8);
        Outcome c = execute(m, sh), d = execute(m, sh);
        if(klass(c.msg) != k || c.r.hash != d.r.hash) { m = p; c = a; }
        string path = replay_dir + "/" + prop + "-" + std::to_string(nviol) + ".plan";
        char hb[64];
        snprintf(hb, sizeof hb, "%016llx", (unsigned long long) c.r.hash);
        spit(path, "# " + c.msg + "\n# trace hash " + hb + ", original seed " + std::to_string(p.seed) + ", minimised from " + std::to_string(p.items.size()) + " to " + std::to_string(m.items.size()) + " items\n" + m.text());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        printf("  %s\n", c.msg.c_str());
        fflush(stdout);
        nviol++; shown++;
        rc = 1;
    }
    for(auto &k : known) if(k.prop == prop) printf("KNOWN-FINDING: property=%s %s%s\n", prop.c_str(), k.what.c_str(), known_hit.count(k.what) ? "" : " (not reached in this run)");
    if(rc == 0 && s.det_bad) { fprintf(stderr, "HARNESS-ERROR property=%s: %llu of %llu repeated runs differed\n", prop.c_str(), (unsigned long long) s.det_bad, (unsigned long long) s.det_checked); rc = 2; }
    double wall = now_s() - t0;
    for(int i = 0; i < 3; i++) {
        Plan p = generate(sc, mix2(seed, (u64) i) >> 1, thorough);
        string d;
        std::map<string, int> kinds;
        for(auto &it : p.items) kinds[it.kind]++;
        for(auto &kk : kinds) d += (d.empty() ? "" : " ") + kk.first + "x" + std::to_string(kk.second);
        samples += (i ? ", " : "") + json("seed " + std::to_string(p.seed) + ": " + d);
    }
    if(!evidence.empty()) {
        string f, pr;
        for(auto &x : s.stats) {
            string *t = x.first.compare(0, 6, "fault:") == 0 ? &f : &pr;
            *t += (t->empty() ? "" : ", ") + json(x.first.substr(x.first.find(':') + 1)) + ": " + std::to_string(x.second);
        }
        static char b[65536];
        snprintf(b, sizeof b,
            "{\n \"property\": %s, \"tier\": %s, \"seed\": %llu, \"level\": %s,\n"
            " \"coverage\": {\n  \"evaluations\": %llu, \"distinct_nontrivial\": %zu,\n"
            "  \"rule\": \"one evaluation = one simulated run of a generated plan; distinct = distinct hashes of the run's sequence of (system call, descriptor, outcome class) decisions, i.e. distinct interleavings\",\n"
            "  \"samples\": [%s],\n"
            "  \"runs\": %llu, \"seeds\": %llu, \"runs_per_hour\": %.0f, \"simulated_seconds\": %.3f, \"system_calls\": %llu, \"scheduled_events\": %llu,\n"
            "  \"requests\": %llu, \"responses\": %llu, \"runs_exercising_the_property\": %llu,\n"
            "  \"determinism_reruns\": %llu, \"determinism_mismatches\": %llu,\n",
            json(prop).c_str(), json(tier).c_str(), (unsigned long long) seed, json(level).c_str(), (unsigned long long) s.runs, s.shapes.size(), samples.c_str(),
            (unsigned long long) s.runs, (unsigned long long) s.runs, (double) s.runs / wall * 3600, (double) s.sim_us / 1e6, (unsigned long long) s.calls, (unsigned long long) s.events,
            (unsigned long long) s.reqs, (unsigned long long) s.resps, (unsigned long long) s.nontrivial, (unsigned long long) s.det_checked, (unsigned long long) s.det_bad);
        string o = b;
        o += "  \"faults_injected\": {" + f + "},\n  \"rare_paths_reached\": {" + pr + "},\n";
        o += "  \"components\": " + (components.empty() ? string("{}") : components) + "\n },\n";
        o += " \"assumptions\": [" + json("the simulated kernel (sockets, epoll, select, files, clock, signals) behaves as the model in sim/seams.cpp; several processes at once and DNS over the real network are not simulated") + (assumptions.empty() ? "" : ", " + json(assumptions)) + "],\n";
        snprintf(b, sizeof b, " \"wall_s\": %.1f, \"violations\": %d\n}\n", wall, nviol);
        o += b;
        spit(evidence, o);
    }
    printf("%s: %llu runs, %zu distinct interleavings, %.0f s simulated, %llu requests, %.1f s wall, %d violation class(es)%s\n", prop.c_str(), (unsigned long long) s.runs, s.shapes.size(), (double) s.sim_us / 1e6, (unsigned long long) s.reqs, wall, nviol, rc == 2 ? " HARNESS ERROR" : "");
    return rc;
}

int main(int argc, char **argv) {
    // address space layout must not influence a run
    int pers = personality(0xffffffff);
    if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VSIM_REEXEC")) {
        if(personality((unsigned long) pers | ADDR_NO_RANDOMIZE) != -1) { setenv("VSIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    setenv("TZ", "UTC", 1);
    tls_init();
    char td[] = "/tmp/vsim.XXXXXX";
    if(!mkdtemp(td)) { perror("mkdtemp"); return 2; }
    tmpd = td;
    int rc = 2;
    string cmd = argc > 1 ? argv[1] : "";
    if(cmd == "check" && argc > 2) rc = cmd_check(argc, argv);
    else if(cmd == "hunt" && argc > 4) rc = cmd_hunt(argc, argv);
    else if(cmd == "list") { for(auto &s : scenarios()) printf("%s %s\n", s.prop, s.what); rc = 0; }
    else if(cmd == "gen" && argc > 3) { const Scenario *s = find_scn(argv[2]); if(s) { fputs(generate(s, strtoull(argv[3], nullptr, 10), argc > 4).text().c_str(), stdout); rc = 0; } }
    else if(cmd == "replay" && argc > 2) {
        Plan p;
        string t = slurp(argv[2]);
        if(!Plan::parse(t, p)) { fprintf(stderr, "not a plan: %s\n", argv[2]); rc = 2; }
        else {
            Result *sh = shared_result();
            Outcome o = execute(p, sh, argc > 3 && !strcmp(argv[3], "-v"));
            size_t h = t.find("# trace hash ");
            printf("trace hash %016llx", (unsigned long long) o.r.hash);
            if(h != string::npos) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long) o.r.hash); printf(" (%s)", t.compare(h + 13, 16, b) == 0 ? "identical to the recorded run" : "DIFFERS from the recorded run"); }
            printf("\n");
            if(!o.msg.empty()) { printf("VIOLATION property=%s replay=%s\n  %s\n", p.prop.c_str(), argv[2], o.msg.c_str()); rc = 1; }
            else { printf("no violation\n"); rc = 0; }
        }
    }
    else if(cmd == "sites" && argc > 2) rc = 0;
    else fprintf(stderr, "usage: vsim check <prop> [--tier quick|thorough] [--seed n] ... | replay <plan> [-v] | gen <prop> <seed> | list\n");
    string rm = "rm -rf " + tmpd;
    if(tmpd.compare(0, 10, "/tmp/vsim.") == 0) { int x = system(rm.c_str()); (void) x; }
    return rc;
}
