// H26: the thread pool. The pool's threads are real threads of which exactly
// one runs at any time; which one is decided by a seeded scheduler at every
// synchronisation call, at every basic block of the pool and of its queue
// (compiled with -fsanitize-coverage=trace-pc, see build.py) and inside of the
// tasks. Injected: spurious wakeups, starved threads, refused thread creation.
#include "gen.h"
#include <pthread.h>
#include <semaphore.h>
#include <functional>
#include <cstring>

extern "C" {
struct thread_pool_task_t { int (*start_function)(void *); int (*stop_function)(void *); int (*pause_function)(void *); int (*resume_function)(void *); };
struct thread_pool_t;
void create_thread_pool(struct thread_pool_t **p, size_t n, size_t algorithm, size_t max);
void insert_task_thread_pool(struct thread_pool_t *p, struct thread_pool_task_t *t);
}
namespace {
enum St { READY, ON_MUTEX, ON_COND, ON_TASK, ON_QUIET, DONE };
struct Th {
    int id = 0;
    St st = READY;
    sem_t go;
    void *obj = nullptr, *cmutex = nullptr;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    int pri = 0;
    bool worker = false;
};
struct Mx { bool live = false; Th *owner = nullptr; };
struct Sched {
    bool on = false;
    Rng rng{1};
    vector<Th *> ths;
    Th *cur = nullptr;
    std::map<void *, Mx> mx;
    std::map<void *, bool> cv;
    unsigned preempt = 0, spurious = 0, pct = 0;   // per mille
    u64 steps = 0, max_steps = 400000, switches = 0;
    int fail_create = 0, creates = 0, created = 0;
    std::set<int> fail_at;
} *S26;
#define SC (*S26)
static void wait_go(Th *t) { while(sem_wait(&t->go) != 0) {} }
static bool ready(Th *t) {
    if(t->st == READY) return true;
    if(t->st == ON_MUTEX) return SC.mx[t->obj].owner == nullptr;
    return false;
}
static int task_started[64];
static bool task_ready(Th *t) { return t->st == ON_TASK && task_started[(intptr_t) t->obj]; }
static void switch_away(bool may_stay) {
    Th *me = SC.cur;
    W->now++;
    if(++SC.steps > SC.max_steps) fatal("the threads are stuck: %llu steps without coming to an end", (unsigned long long) SC.steps);
    if(SC.spurious) for(auto t : SC.ths) if(t->st == ON_COND && SC.rng.below(1000) < SC.spurious) { STAT("fault:spurious_wakeup"); t->st = ON_MUTEX; t->obj = t->cmutex; }
    vector<Th *> c;
    for(auto t : SC.ths) if((t != me || may_stay) && (ready(t) || task_ready(t))) c.push_back(t);
    if(c.empty()) for(auto t : SC.ths) if(t->st == ON_QUIET) c.push_back(t);
    if(c.empty()) {
        if(may_stay) return;
        fatal("deadlock: no thread can go on");
    }
    Th *n = c[SC.rng.below(c.size())];
    if(SC.pct) { for(auto t : c) if(t->pri > n->pri) n = t; if(SC.rng.below(1000) < SC.pct) n->pri = -(int) SC.rng.below(1000); }
    T.u(0x26); T.u((u64) n->id);
    if(n == me) { n->st = READY; return; }
    SC.switches++;
    T.sh((u64) n->id);
    if(n->st == ON_TASK || n->st == ON_QUIET) n->st = READY;
    SC.cur = n;
    sem_post(&n->go);
    wait_go(me);
}
static void yield() { if(S26 && SC.on && SC.cur) switch_away(true); }
static void maybe() { if(S26 && SC.on && SC.cur && SC.rng.below(1000) < SC.preempt) switch_away(true); }
static void *trampoline(void *p) {
    Th *t = (Th *) p;
    wait_go(t);
    t->fn(t->arg);
    t->st = DONE;
    SC.cur = t;
    // hands over and never comes back
    switch_away(false);
    return nullptr;
}
static Th *spawn(void *(*fn)(void *), void *arg, bool worker) {
    Th *t = new Th();
    t->id = (int) SC.ths.size();
    t->fn = fn; t->arg = arg; t->worker = worker;
    t->pri = (int) SC.rng.below(1000);
    sem_init(&t->go, 0, 0);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 256 * 1024);
    pthread_t id;
    if(pthread_create(&id, &a, trampoline, t) != 0) fatal("harness: pthread_create");
    pthread_attr_destroy(&a);
    SC.ths.push_back(t);
    return t;
}
}
// ------------------------------------------------------------------ seams
extern "C" {
void __sanitizer_cov_trace_pc() { maybe(); }
int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if(!S26 || !SC.on) return pthread_create(id, a, fn, arg);
    int n = ++SC.creates;
    if(SC.fail_at.count(n)) { STAT("fault:thread_refused"); T.log("pthread_create #%d refused", n); return EAGAIN; }
    Th *t = spawn(fn, arg, true);
    SC.created++;
    *id = (pthread_t) (0x1000 + t->id);
    T.log("pthread_create -> thread %d", t->id);
    yield();
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    if(!S26 || !SC.on) return pthread_mutex_init(m, a);
    SC.mx[m] = Mx(); SC.mx[m].live = true;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    if(!S26 || !SC.on) return pthread_mutex_destroy(m);
    if(SC.mx[m].owner) fatal("a locked mutex is destroyed");
    SC.mx[m].live = false;
    return 0;
}
static bool zeroed(const void *p, size_t n) { for(size_t i = 0; i < n; i++) if(((const char *) p)[i]) return false; return true; }
// objects never seen before that hold the static initialiser
static void adopt(pthread_mutex_t *m) { if(!SC.mx.count(m) && zeroed(m, sizeof *m)) { SC.mx[m] = Mx(); SC.mx[m].live = true; } }
static void adopt_cond(pthread_cond_t *c) { if(!SC.cv.count(c) && zeroed(c, sizeof *c)) SC.cv[c] = true; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if(!S26 || !SC.on) return pthread_mutex_lock(m);
    adopt(m);
    if(!SC.mx[m].live) fatal("a mutex that does not exist is locked");
    if(SC.mx[m].owner == SC.cur) fatal("deadlock: thread %d locks a mutex it already holds", SC.cur->id);
    yield();
    Th *me = SC.cur;
    while(SC.mx[m].owner) { me->st = ON_MUTEX; me->obj = m; switch_away(false); me->st = READY; }
    SC.mx[m].owner = me;
    T.log("thread %d locks", me->id);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if(!S26 || !SC.on) return pthread_mutex_unlock(m);
    if(SC.mx[m].owner != SC.cur) fatal("thread %d unlocks a mutex it does not hold", SC.cur->id);
    SC.mx[m].owner = nullptr;
    T.log("thread %d unlocks", SC.cur->id);
    yield();
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if(!S26 || !SC.on) return pthread_mutex_trylock(m);
    adopt(m);
    yield();
    if(SC.mx[m].owner) return EBUSY;
    SC.mx[m].owner = SC.cur;
    return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
    if(!S26 || !SC.on) return pthread_cond_init(c, a);
    SC.cv[c] = true;
    return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
    if(!S26 || !SC.on) return pthread_cond_destroy(c);
    SC.cv[c] = false;
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if(!S26 || !SC.on) return pthread_cond_wait(c, m);
    adopt_cond(c);
    if(!SC.cv[c]) fatal("a condition that does not exist is waited for");
    if(SC.mx[m].owner != SC.cur) fatal("thread %d waits for a condition without holding its mutex", SC.cur->id);
    Th *me = SC.cur;
    SC.mx[m].owner = nullptr;
    me->st = ON_COND; me->obj = c; me->cmutex = m;
    T.log("thread %d waits", me->id);
    switch_away(false);
    // woken: the mutex has to be taken again
    while(SC.mx[m].owner) { me->st = ON_MUTEX; me->obj = m; switch_away(false); }
    me->st = READY;
    SC.mx[m].owner = me;
    T.log("thread %d woken", me->id);
    return 0;
}
static int wake(pthread_cond_t *c, bool all) {
    adopt_cond(c);
    if(!SC.cv[c]) fatal("a condition that does not exist is signalled");
    vector<Th *> w;
    for(auto t : SC.ths) if(t->st == ON_COND && t->obj == c) w.push_back(t);
    T.log("thread %d signals, %zu waiting", SC.cur->id, w.size());
    if(!w.empty() && !all) { Th *t = w[SC.rng.below(w.size())]; w.assign(1, t); }
    for(auto t : w) { t->st = ON_MUTEX; t->obj = t->cmutex; }
    yield();
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return !S26 || !SC.on ? pthread_cond_signal(c) : wake(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return !S26 || !SC.on ? pthread_cond_broadcast(c) : wake(c, true); }
pthread_t __wrap_pthread_self(void) { return !S26 || !SC.on ? pthread_self() : (pthread_t) (0x1000 + SC.cur->id); }
int __wrap_pthread_detach(pthread_t id) { return !S26 || !SC.on ? pthread_detach(id) : 0; }
int __wrap_sched_yield(void) { if(S26 && SC.on) yield(); return 0; }
int __wrap_pthread_join(pthread_t id, void **r) {
    if(!S26 || !SC.on) return pthread_join(id, r);
    Th *t = SC.ths[(size_t) id - 0x1000];
    while(t->st != DONE) switch_away(false);
    return 0;
}
}
namespace {
// ------------------------------------------------------------------ tasks
struct Task { bool used = false; int steps = 0, runs = 0, wait = -1, by = -1, round = 0; bool may_wait = false; vector<int> children; struct thread_pool_task_t desc; };
static Task tasks[64];
static struct thread_pool_t *pool;
static int running, most_running, start_order, started_at[64], inserted_at[64], insert_order, runner[64];
static void insert(int i) {
    tasks[i].by = SC.cur->id;
    inserted_at[i] = ++insert_order;
    T.log("thread %d inserts task %d", SC.cur->id, i);
    insert_task_thread_pool(pool, &tasks[i].desc);
}
static int body(int i, void *arg) {
    Task &t = tasks[i];
    T.log("thread %d runs task %d", SC.cur->id, i);
    if(++t.runs > 1) fatal("task %d runs %d times", i, t.runs);
    if(!SC.cur->worker) fatal("task %d runs on the thread that inserted it", i);
    task_started[i] = 1;
    runner[i] = SC.cur->id;
    started_at[i] = ++start_order;
    most_running = std::max(most_running, ++running);
    for(auto &m : SC.mx) if(m.second.owner == SC.cur) fatal("task %d runs while its thread holds the lock of the pool", i);
    for(int k = 0; k < t.steps; k++) yield();
    for(int c : t.children) insert(c);
    if(t.may_wait && t.wait >= 0 && !task_started[t.wait]) {
        STAT("pool:task_waits_for_task");
        SC.cur->st = ON_TASK; SC.cur->obj = (void *) (intptr_t) t.wait;
        switch_away(false);
        SC.cur->st = READY;
    }
    running--;
    R->resps++;
    return 0;
}
template<int I> static int start_fn(void *a) { return body(I, a); }
template<int... I> static void fill_fns(std::integer_sequence<int, I...>) { int (*f[])(void *) = {start_fn<I>...}; for(int i = 0; i < 64; i++) { memset(&tasks[i].desc, 0, sizeof tasks[i].desc); tasks[i].desc.start_function = f[i]; } }
struct Prod { vector<int> list; int pause; };
static void *producer(void *p) {
    Prod *d = (Prod *) p;
    for(int i : d->list) { insert(i); for(int k = 0; k < d->pause; k++) yield(); }
    return nullptr;
}
static void quiet() { SC.cur->st = ON_QUIET; switch_away(false); SC.cur->st = READY; }

static void gen_pool(Plan &p, Rng &r, bool thorough) {
    int n = r.pct(40) ? 1 : r.pct(70) ? (int) r.range(2, 4) : (int) r.range(5, 12);
    p.add("pool").set("n", n).set("preempt", r.pct(20) ? 0 : r.pct(50) ? r.range(1, 50) : r.range(50, 500)).set("spur", r.pct(50) ? 0 : r.range(1, 100)).set("pct", r.pct(70) ? 0 : r.range(1, 100));
    int np = (int) r.range(1, 4), nt = (int) r.range(1, r.pct(70) ? 8 : 40), rounds = r.pct(40) ? 2 : 1;
    for(int i = 0; i < np; i++) p.add("prod").set("id", i).set("pause", r.pct(50) ? 0 : r.range(1, 20));
    if(r.pct(15)) p.add("refuse").set("n", r.range(1, n));
    for(int i = 0; i < nt; i++) {
        Item &t = p.add("task").set("id", i).set("steps", r.pct(40) ? 0 : r.range(1, 30));
        if(i && r.pct(25)) t.set("parent", r.range(0, i - 1));
        else t.set("prod", r.range(0, np - 1)).set("round", r.range(1, rounds));
        if(n > 1 && r.pct(20)) t.set("wait", r.range(0, nt - 1));
    }
}
static void run_pool(const Plan &p) {
    W = new World();
    S26 = new Sched();
    SC.rng = Rng(mix2(p.seed, 26));
    const Item *c = p.find("pool");
    static Item none("pool");
    if(!c) c = &none;
    int n = (int) std::max((i64) 1, c->num("n", 1));
    SC.preempt = (unsigned) c->num("preempt", 0); SC.spurious = (unsigned) c->num("spur", 0); SC.pct = (unsigned) c->num("pct", 0);
    fill_fns(std::make_integer_sequence<int, 64>());
    for(auto &i : p.items) {
        if(i.kind == "refuse") SC.fail_at.insert((int) i.num("n", 1));
        if(i.kind == "task") { int id = (int) i.num("id"); if(id < 0 || id > 63) continue; tasks[id].used = true; tasks[id].steps = (int) i.num("steps", 0); tasks[id].wait = (int) i.num("wait", -1); tasks[id].round = (int) i.num("round", 1); }
    }
    std::map<int, Prod> prods;
    std::map<std::pair<int, int>, vector<int>> direct;
    for(auto &i : p.items) if(i.kind == "prod") prods[(int) i.num("id")].pause = (int) i.num("pause", 0);
    vector<int> order;
    for(auto &i : p.items) if(i.kind == "task") {
        int id = (int) i.num("id"), par = (int) i.num("parent", -1);
        if(id < 0 || id > 63) continue;
        order.push_back(id);
        if(par >= 0 && par < id && tasks[par].used) tasks[par].children.push_back(id);
        else direct[{prods.count((int) i.num("prod", 0)) ? (int) i.num("prod", 0) : -1, std::max(1, tasks[id].round)}].push_back(id);
    }
    Th *main = new Th();
    sem_init(&main->go, 0, 0);
    main->pri = (int) SC.rng.below(1000);
    SC.ths.push_back(main);
    SC.cur = main;
    heap_track = true;
    SC.on = true;
    create_thread_pool(&pool, (size_t) n, 1, (size_t) n * 2);
    int workers = SC.created;
    if(SC.fail_at.empty() && workers != n) violation("a pool of %d threads has %d", n, workers);
    // at most workers - 1 tasks wait for others, and only for ones that come
    // for sure: not for themselves, not for waiting ones nor for those behind
    // them, in this round or an earlier one
    int waits = 0;
    std::function<int(int)> round_of = [&](int id) { for(auto &t : order) for(int ch : tasks[t].children) if(ch == id) return round_of(t); return std::max(1, tasks[id].round); };
    for(int id : order) {
        int w = tasks[id].wait;
        if(w < 0 || w > 63 || !tasks[w].used || w == id || waits >= workers - 1 || round_of(w) > round_of(id)) continue;
        tasks[id].may_wait = true;
        // the chain of insertion of the awaited task must not pass a waiting task's end: children are
        // inserted before a task waits, so only a direct cycle of waits matters
        bool bad = false;
        for(int x = w, k = 0; x >= 0 && k < 64; k++) { if(x == id) bad = true; x = tasks[x].may_wait ? tasks[x].wait : -1; }
        if(bad) { tasks[id].may_wait = false; continue; }
        waits++;
    }
    HeapStat before{};
    for(int round = 1; round <= 2; round++) {
        bool any = false;
        for(auto &d : direct) {
            if(d.first.second != round || d.second.empty()) continue;
            any = true;
            if(d.first.first < 0) { Prod *x = new Prod{d.second, 0}; producer(x); continue; }
            Prod *x = new Prod{d.second, prods[d.first.first].pause};
            spawn(producer, x, false);
        }
        if(round == 1) { if(workers) quiet(); before = heap_stat(); }
        if(!any && round > 1) break;
        if(!workers) break;
        quiet();
        for(int id : order) {
            if(round_of(id) != round && round_of(id) > round) continue;
            if(!tasks[id].runs) fatal("task %d was inserted and never runs although every thread is idle (lost wakeup or lost task)", id);
            if(tasks[id].runs != 1) fatal("task %d runs %d times", id, tasks[id].runs);
        }
    }
    if(workers) {
        R->nontrivial = 1;
        if(running) violation("%d tasks have not returned", running);
        if(most_running > workers) violation("%d tasks ran at once on %d threads", most_running, workers);
        // one thread and one source: first in, first out
        if(workers == 1) for(int a : order) for(int b : order) if(tasks[a].by == tasks[b].by && inserted_at[a] < inserted_at[b] && started_at[a] > started_at[b]) { violation("task %d was inserted before task %d by the same thread and started after it", a, b); goto out; }
out:
        HeapStat now = heap_stat();
        if(now.live_bytes > before.live_bytes) violation("the pool holds %llu bytes after the first tasks and %llu after more of them", (unsigned long long) before.live_bytes, (unsigned long long) now.live_bytes);
        std::set<int> used;
        for(int id : order) used.insert(runner[id]);
        if(used.size() > 1) STAT("pool:several_threads_used");
    }
    STATN("pool:context_switches", SC.switches);
    R->reqs = order.size();
    SC.on = false;
    finish_run();
}
static RegScenario h26({"H26", "the thread pool runs every task exactly once", gen_pool, run_pool});
}
