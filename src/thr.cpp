// Concurrency: real threads, one running at a time, preempted at instrumented memory accesses chosen by
// the schedule in the Spec. A thread's transcript must equal the one it produces alone.
#include "world.hpp"
#include "engine.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>

// ---- the scheduler -----------------------------------------------------------------------------
extern "C" { extern char __data_start, _end; }
namespace sched {
const int MAXT = 4;
const uint32_t TAB = 1u << 22;
uint8_t rest[TAB], globals[TAB];       // who touched what: exact for the simulated heap and small data segments, hashed elsewhere
uint8_t* heap_shadow = nullptr;
thread_local int me = -1;              // simulated thread this OS thread is
bool active = false;
int alive_mask = 0, nt = 0; volatile int cur = 0;
sem_t sem[MAXT];
uint64_t any = 0, hot = 0, slice = 0, switches = 0, blocked = 0;     // events so far
uint64_t next_any = ~0ull, next_hot = ~0ull; size_t pa = 0, ph = 0;
struct Pre { uint64_t at; int to; };
std::vector<Pre> by_any, by_hot;
Hash trace;
uint64_t counts[MAXT];
void arm_any() { next_any = pa < by_any.size() ? by_any[pa].at : ~0ull; }
void arm_hot() { next_hot = ph < by_hot.size() ? by_hot[ph].at : ~0ull; }
void go(int to) { int self = me; cur = to; ++switches; slice = 0; sem_post(&sem[to]); while (sem_wait(&sem[self])) {} }
int other(int want) { for (int q = 0; q < nt; ++q) { int t = (want + q) % nt; if (t != me && (alive_mask >> t & 1)) return t; } return -1; }
void preempt(int want, uint64_t what) { int t = other(want); if (t < 0) return; trace.u64(what); trace.u64(t); go(t); }
void yield() { ++blocked; if (me >= 0 && active) preempt(me + 1, 3); }
struct Range { uintptr_t a, b; bool in(uintptr_t x) const { return x >= a && x < b; } };
uintptr_t glo, ghi; Range skip[2]; Range stacks[MAXT];
void regions() { glo = (uintptr_t)&__data_start; ghi = (uintptr_t)&_end; auto r = [](const void* p, size_t n) { return Range{(uintptr_t)p, (uintptr_t)p + n}; };
    skip[0] = r(&fault::st, sizeof fault::st); skip[1] = r(&alloc::st, sizeof alloc::st); }
thread_local bool inside = false;
void fire_hot() { int to = by_hot[ph].to; while (ph < by_hot.size() && by_hot[ph].at <= hot) ++ph; arm_hot(); preempt(to, hot * 2 + 1); }
void fire_any() { int to = by_any[pa].to; while (pa < by_any.size() && by_any[pa].at <= any) ++pa; arm_any(); preempt(to, any * 2); }
// An access by the running thread, to anything but its own stack.
inline void event(uintptr_t a, bool w) {
    if (me < 0 || inside) return;
    if (stacks[me].in(a)) return;
    ++counts[me];
    if (!active) return;
    ++any; ++slice;
    uint8_t& s = a - alloc::HEAP < alloc::HEAP_SIZE ? heap_shadow[(a - alloc::HEAP) >> 3] : a >= glo && a < ghi ? globals[(a - glo) >> 3 & (TAB - 1)] : rest[(uint32_t)((a >> 3) * 2654435761u) >> 10];
    uint8_t bit = 1 << me;
    s |= bit; if (w) s |= bit << 4;
    bool shared = (s & 15 & ~bit) && (s >> 4);
    if (!shared && a >= glo && a < ghi) shared = !skip[0].in(a) && !skip[1].in(a);
    bool h = shared && ++hot >= next_hot;
    if (!h && any < next_any && slice < 1000000) return;
    inside = true;
    if (h) fire_hot(); else if (any >= next_any) fire_any(); else preempt(me + 1, 5);     // a thread spinning on another's lock must not run forever
    inside = false;
}
}
extern "C" {
#define CB(n, T) void __sanitizer_cov_load##n(T* a) { sched::event((uintptr_t)a, false); } void __sanitizer_cov_store##n(T* a) { sched::event((uintptr_t)a, true); }
CB(1, uint8_t) CB(2, uint16_t) CB(4, uint32_t) CB(8, uint64_t) CB(16, __int128)
void __sanitizer_cov_trace_pc_guard(uint32_t*) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
// blocking primitives: a simulated thread never blocks the process, it lets another one run
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (sched::me < 0) return __real_pthread_mutex_lock(m); for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) { sched::event((uintptr_t)m, true); return r; } sched::yield(); } }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (sched::me < 0) return __real_pthread_rwlock_rdlock(m); for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; sched::yield(); } }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (sched::me < 0) return __real_pthread_rwlock_wrlock(m); for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; sched::yield(); } }
int __wrap_sched_yield() { sched::yield(); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { volatile int* p = (volatile int*)o; for (;;) { if (*p == 2) return 0; if (*p == 0) { *p = 1; f(); *p = 2; return 0; } sched::yield(); } }
int __wrap___cxa_guard_acquire(uint8_t* g) { for (;;) { if (g[0]) return 0; if (!g[1]) { g[1] = 1; sched::event((uintptr_t)g, true); return 1; } sched::yield(); } }
void __wrap___cxa_guard_release(uint8_t* g) { g[0] = 1; g[1] = 0; }
void __wrap___cxa_guard_abort(uint8_t* g) { g[1] = 0; }
}

// ---- what the threads do ----------------------------------------------------------------------------
namespace {
enum TOp { T_SET, T_FW, T_BW, T_FBW, T_RESET, T_REBUILD, T_COPY, T_BIND, T_PROTO, T_BPROTO, T_PRE_HOT, T_PRE_ANY, T_OPS };
const char* tnames[] = {"set own values", "forward", "backward", "autodiff", "reset", "build anew", "copy and continue with the copy", "ad::bind and continue with it", "copy a shared unbound prototype and evaluate", "copy a shared bound prototype and evaluate", "preempt at shared access", "preempt at access"};

struct Buf { int kind, r, c; std::vector<Num> raw; Num* p; Buf(int k, int r_, int c_) : kind(k), r(r_), c(c_), raw(r_ * c_ + 16) { p = (Num*)(((uintptr_t)raw.data() + 63) / 64 * 64); } Buf(const Buf&) = delete; int n() const { return r * c; } };
struct Leaves {      // views over (possibly shared) values and own adjoints
    FB fb; std::vector<std::unique_ptr<LS>> s; std::vector<std::unique_ptr<LV>> v; std::vector<std::unique_ptr<LM>> m;
    void leaf(const LeafSpec& l, Num* val, Num* adj, int r, int c) {
        auto put = [&](auto& w, auto* p) { if (w.size() <= (size_t)l.idx) w.resize(l.idx + 1); w[l.idx] = p; };
        if (l.kind == SCL) { s.emplace_back(new LS(val, adj)); put(fb.S, s.back().get()); }
        else if (l.kind == VEC) { v.emplace_back(new LV(val, adj, (size_t)r)); put(fb.V, v.back().get()); }
        else { m.emplace_back(new LM(val, adj, (size_t)r, (size_t)c)); put(fb.M, m.back().get()); }
    }
};
struct Step { int kind; uint64_t r; };
struct Out { uint64_t n; struct { uint64_t h; double x; } s[64]; uint64_t count; int done; };

struct Run {
    const Spec& s; Stats& st;
    std::map<std::string, std::unique_ptr<Buf>> vals;        // shared, read-only during the run
    std::map<std::string, std::unique_ptr<ConstSlot>> consts;
    struct Thread {
        int id; Run* run; const TaskRec* rec; Prog* p; Leaves L; std::vector<std::unique_ptr<Buf>> own, adj; std::vector<std::pair<Buf*, std::string>> mine; std::vector<Step> steps; Out* out;
        std::unique_ptr<Inst> in; std::vector<Num> bv, ba; bool fresh = false; bool started = false;
    };
    std::vector<std::unique_ptr<Thread>> th;
    struct Proto { std::unique_ptr<Inst> raw, bound; Leaves L; std::vector<std::unique_ptr<Buf>> adj; int prog; };
    std::vector<std::unique_ptr<Proto>> protos;
    Run(const Spec& sp, Stats& x) : s(sp), st(x) {}

    Num* shared_val(const std::string& key, const LeafSpec& l, int r, int c, int n) {
        auto& b = vals[key]; if (!b) { b.reset(new Buf(l.kind, r, c)); Rng g(s.seed ^ hash_str(key.c_str())); sample(g, l.dom, l.kind, r, c, n, b->p); } return b->p;
    }
    void consts_for(FB& f, Prog* p, const TaskRec& r) {
        int li = 0;
        for (auto& l : p->spec) { ++li; if (l.cls == 'l') continue; int R = dim(l.rows, r.n, r.k), C = dim(l.cols, r.n, r.k);
            std::string key = std::string(p->name) + std::to_string(li) + "." + std::to_string(r.n) + "." + std::to_string(r.k);
            auto& c = consts[key]; if (!c) { c.reset(new ConstSlot{l.kind, R, C, std::vector<Num>(R * C)}); Rng g(s.seed ^ hash_str(key.c_str())); sample(g, l.dom, l.kind, R, C, r.n, c->data.data()); }
            auto put = [&](std::vector<ConstSlot*>& v) { if (v.size() <= (size_t)l.idx) v.resize(l.idx + 1); v[l.idx] = c.get(); };
            if (l.cls == 'c') put(l.kind == SCL ? f.cS : l.kind == VEC ? f.cV : f.cM); else put(l.kind == VEC ? f.kV : f.kM); }
        f.n = r.n; f.k = r.k; for (int i = 0; i <= std::max(r.n + r.k, 3); ++i) { std::vector<int> v; for (int j = 0; j < i; ++j) v.push_back(j); f.idx.push_back(v); }
    }
    void setup() {
        for (size_t i = 0; i < s.tasks.size(); ++i) {
            std::unique_ptr<Thread> t(new Thread()); t->id = (int)i; t->run = this; t->rec = &s.tasks[i]; t->out = nullptr;
            if (s.tasks[i].prog >= 0) {
                t->p = &progs()[s.tasks[i].prog]; const TaskRec& r = s.tasks[i]; int li = 0;
                std::map<std::string, std::pair<Num*, Num*>> seen;
                for (auto& l : t->p->spec) { ++li; if (l.cls != 'l') continue; int R = dim(l.rows, r.n, r.k), C = dim(l.cols, r.n, r.k); Rng g(mix64(r.r + 31 * li));
                    Num* v; bool priv = l.ph() || l.target || g.chance(0.4);
                    t->adj.emplace_back(new Buf(l.kind, R, C));
                    if (priv) { t->own.emplace_back(new Buf(l.kind, R, C)); Buf* b = t->own.back().get(); v = b->p; if (!l.ph()) { Rng q(mix64(r.r + li)); sample(q, l.dom, l.kind, R, C, r.n, v); t->mine.push_back({b, l.dom}); } }
                    else v = shared_val(std::string("g") + std::to_string(l.kind) + ":" + std::to_string(R) + "," + std::to_string(C) + ":" + l.dom + std::to_string(r.n) + "." + std::to_string(g.below(2)), l, R, C, r.n);
                    t->L.leaf(l, v, t->adj.back()->p, R, C); }
                consts_for(t->L.fb, t->p, r);
                for (auto& o : s.ops) if (o.a == (int)i && o.kind < T_PRE_HOT && t->steps.size() < 60) t->steps.push_back({o.kind, o.r});
            }
            th.push_back(std::move(t));
        }
        for (size_t i = 0; i < s.tasks.size(); ++i) if (s.tasks[i].prog >= 0) { Prog* p = &progs()[s.tasks[i].prog]; if (p->has("ph") || p->has("opassign")) continue;
            std::unique_ptr<Proto> q(new Proto()); q->prog = s.tasks[i].prog; const TaskRec& r = s.tasks[i];
            for (auto& l : p->spec) if (l.cls == 'l') { int R = dim(l.rows, r.n, r.k), C = dim(l.cols, r.n, r.k); q->adj.emplace_back(new Buf(l.kind, R, C)); q->L.leaf(l, shared_val(std::string("p") + std::to_string(i) + "." + std::to_string(l.idx) + "." + std::to_string(l.kind), l, R, C, r.n), q->adj.back()->p, R, C); }
            consts_for(q->L.fb, p, r); q->raw.reset(p->make(q->L.fb)); if (r.r & 1) q->bound.reset(q->raw->to_bound()); protos.push_back(std::move(q)); }
    }
    // executed by the simulated thread
    static void emit(Thread& t, const Num* v, int n) { Out& o = *t.out; if (o.n >= 64) return; Hash h; for (int i = 0; i < n; ++i) h.bits(D(v[i])); o.s[o.n].h = h.h; o.s[o.n].x = n ? D(v[0]) : 0; ++o.n; }
    static void bind_raw(Inst& in, std::vector<Num>& bv, std::vector<Num>& ba) { if (in.bound) return; size_t need[2]; in.need(need); bv.assign(need[0] + 16, Num(-1.25)); ba.assign(need[1] + 16, Num(-1.25)); Num *a, *b;
        auto al = [](std::vector<Num>& x) { return (Num*)(((uintptr_t)x.data() + 63) / 64 * 64); }; in.bind(al(bv), al(ba), &a, &b); }
    static void script(Thread& t) {
        t.in.reset(t.p->make(t.L.fb)); if (t.rec->mode == 2) t.in.reset(t.in->to_bound()); bind_raw(*t.in, t.bv, t.ba);
        int n = t.in->rows * t.in->cols; std::vector<Num> out(std::max(n, 1));
        auto targets_reset = [&] { size_t q = 0; for (auto& l : t.p->spec) if (l.cls == 'l') { Buf& a = *t.adj[q++]; if (l.ph() || l.target) std::fill(a.p, a.p + a.n(), Num(0.0)); } };
        auto grads = [&] { std::vector<Num> g; for (auto& a : t.adj) g.insert(g.end(), a->p, a->p + a->n()); emit(t, g.data(), (int)g.size()); };
        auto seed = [&](uint64_t r) { Rng g(r); std::vector<Num> sd(std::max(n, 1)); for (auto& x : sd) x = g.range(-2, 2); return sd; };
        for (auto& s : t.steps) {
            Rng g(s.r);
            switch (s.kind) {
            case T_SET: if (!t.mine.empty()) { auto& m = t.mine[g.below((uint32_t)t.mine.size())]; if (g.chance(0.1)) sample_bad(g, m.second, m.first->kind, m.first->r, m.first->c, t.rec->n, m.first->p, false); else sample(g, m.second, m.first->kind, m.first->r, m.first->c, t.rec->n, m.first->p); t.fresh = false; } break;
            case T_FW: t.in->fwd(out.data()); emit(t, out.data(), n); t.fresh = true; break;
            case T_BW: if (t.fresh) { targets_reset(); auto sd = seed(s.r); t.in->bwd(sd.data()); grads(); if (t.p->has("opassign")) t.fresh = false; } break;
            case T_FBW: { targets_reset(); auto sd = seed(s.r); if (t.p->has("opassign")) { t.in->fwd(out.data()); emit(t, out.data(), n); t.in->bwd(sd.data()); t.fresh = false; } else { t.in->both(sd.data(), out.data()); emit(t, out.data(), n); t.fresh = true; } grads(); break; }
            case T_RESET: for (auto& a : t.adj) std::fill(a->p, a->p + a->n(), Num(0.0)); break;
            case T_REBUILD: t.in.reset(t.p->make(t.L.fb)); if (s.r & 1) t.in.reset(t.in->to_bound()); bind_raw(*t.in, t.bv, t.ba); t.fresh = false; break;
            case T_COPY: { std::unique_ptr<Inst> c(t.in->copy()); bind_raw(*c, t.bv, t.ba); t.in = std::move(c); t.fresh = false; break; }
            case T_BIND: { std::unique_ptr<Inst> c(t.in->to_bound()); t.in = std::move(c); t.fresh = false; break; }
            case T_PROTO: case T_BPROTO: { auto& ps = t.run->protos; if (ps.empty()) break; Proto& q = *ps[g.below((uint32_t)ps.size())]; Inst* src = s.kind == T_BPROTO && q.bound ? q.bound.get() : q.raw.get();
                std::unique_ptr<Inst> c(s.r & 2 ? src->copy() : src->to_bound()); std::vector<Num> v, a; bind_raw(*c, v, a); int m = c->rows * c->cols; std::vector<Num> o(std::max(m, 1)); c->fwd(o.data()); emit(t, o.data(), m); c->fwd(o.data()); emit(t, o.data(), m); break; }
            }
        }
        t.in.reset();
    }
    static void guarded_script(Thread& t) { try { script(t); } catch (const std::exception& e) { double x = -12345; Num y(x); emit(t, &y, 1); } }
    static void* main_of(void* p) {
        Thread& t = *(Thread*)p;
        while (sem_wait(&sched::sem[t.id])) {}
        sched::me = t.id; alloc::st.in_scope = true; guarded_script(t);
        sched::me = -1; sched::alive_mask &= ~(1 << t.id); t.out->count = sched::counts[t.id]; t.out->done = 1;
        for (int q = 1; q < sched::nt; ++q) { int o = (t.id + q) % sched::nt; if (sched::alive_mask >> o & 1) { sched::cur = o; sched::slice = 0; sem_post(&sched::sem[o]); break; } }
        return nullptr;
    }
    void concurrent(const std::vector<Thread*>& who, Out* outs) {
        sched::nt = (int)th.size(); sched::alive_mask = 0; memset(sched::counts, 0, sizeof sched::counts);
        for (int i = 0; i < sched::nt; ++i) sem_init(&sched::sem[i], 0, 0);
        std::vector<pthread_t> id(who.size());
        for (size_t i = 0; i < who.size(); ++i) { who[i]->out = &outs[who[i]->id]; sched::alive_mask |= 1 << who[i]->id; }
        const size_t SS = 1 << 20; sched::heap_shadow = (uint8_t*)mmap(nullptr, alloc::HEAP_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (sched::heap_shadow == MAP_FAILED) _exit(2);
        char* stk = (char*)mmap((void*)(alloc::HEAP - (1ull << 32)), SS * (sched::MAXT + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0); if (stk == MAP_FAILED) _exit(2);
        auto attr = [&](int id) { pthread_attr_t a; pthread_attr_init(&a); char* lo = stk + SS * id; pthread_attr_setstack(&a, lo, SS); sched::stacks[id] = {(uintptr_t)lo, (uintptr_t)lo + SS}; return a; };
        for (size_t i = 0; i < who.size(); ++i) { pthread_attr_t at = attr(who[i]->id); if (pthread_create(&id[i], &at, main_of, who[i])) { perror("pthread_create"); _exit(2); } }
        sched::regions(); sched::active = who.size() > 1; sched::arm_any(); sched::arm_hot();
        sched::cur = who[0]->id; sem_post(&sched::sem[who[0]->id]);
        for (auto& x : id) pthread_join(x, nullptr);
        sched::active = false;
    }
};
}

void engine_init() { prog_index(""); }
const char* engine_build() { return "threads"; }
std::string prog_name(int i) { return i < 0 ? "-" : progs()[i].name; }
int prog_find(const std::string& n) { return prog_index(n); }
void engine_list() { for (auto& p : progs()) printf("%s | %s | %s\n", p.name, p.leaves, p.tags); }
bool engine_relevant(const std::string&, const std::string& c) { return c != "harness" && c != "solo"; }
bool engine_attributed(const Spec&, const Result&, std::function<Result(const Spec&)>) { return true; }
std::string op_text(const Spec&, const OpRec& o) {
    char b[160];
    if (o.kind == T_PRE_HOT) snprintf(b, sizeof b, "at access #%llu to memory other threads use: switch to thread %d", (unsigned long long)o.r, o.b);
    else if (o.kind == T_PRE_ANY) snprintf(b, sizeof b, "after %.4f%% of all accesses: switch to thread %d", o.r / 1e4, o.b);
    else snprintf(b, sizeof b, "thread %d: %s", o.a, tnames[o.kind]);
    return b;
}
std::string task_text(const Spec& s, int i) { const TaskRec& t = s.tasks[i]; if (t.prog < 0) return "unused"; return std::string("thread: ") + progs()[t.prog].name + " [" + progs()[t.prog].leaves + "] n=" + std::to_string(t.n) + " k=" + std::to_string(t.k); }

Spec make_spec(const std::string& profile, uint64_t seed) {
    static std::vector<int> cand;
    if (cand.empty()) { prog_index(""); for (size_t i = 0; i < progs().size(); ++i) cand.push_back((int)i); Rng sh(4711); for (size_t i = cand.size(); i > 1; --i) std::swap(cand[i - 1], cand[sh.below((uint32_t)i)]); }
    Spec s; s.profile = profile; s.seed = seed; Rng g(mix64(seed) ^ hash_str("C04"));
    int nt = g.chance(0.6) ? 2 : 3 + (int)g.below(2); bool same = g.chance(0.75);
    for (int i = 0; i < nt; ++i) { TaskRec t; t.prog = i == 0 ? cand[seed % cand.size()] : same && g.chance(0.85) ? s.tasks[0].prog : cand[g.below((uint32_t)cand.size())];
        t.n = 1 + g.below(3); t.k = 1 + g.below(3); if (i && g.chance(0.7)) { t.n = s.tasks[0].n; t.k = s.tasks[0].k; } if (g.chance(0.03)) t.n = 5; t.mode = g.chance(0.6) ? 2 : 0; t.r = g.next(); s.tasks.push_back(t); }
    for (int i = 0; i < nt; ++i) { int n = 3 + (int)g.below(7);
        for (int q = 0; q < n; ++q) { OpRec o; o.a = i; double x = g.unit();
            if (x < 0.45) { o.kind = T_SET; o.r = g.next(); if (g.chance(0.6)) s.ops.push_back(o); o.r = g.next(); if (g.chance(0.3)) { o.kind = T_FBW; s.ops.push_back(o); } else { o.kind = T_FW; s.ops.push_back(o); o.kind = T_BW; s.ops.push_back(o); } continue; }
            o.r = g.next(); o.kind = x < 0.55 ? T_FW : x < 0.62 ? T_BW : x < 0.68 ? T_RESET : x < 0.77 ? T_REBUILD : x < 0.83 ? T_COPY : x < 0.87 ? T_BIND : x < 0.95 ? T_PROTO : T_BPROTO; s.ops.push_back(o); } }
    double gap = g.chance(0.3) ? 1 : g.chance(0.5) ? 4 : 20 + g.below(60); uint64_t at = 0; int nh = 10 + g.below(110);
    for (int i = 0; i < nh; ++i) { at += 1 + (uint64_t)(g.unit() * 2 * gap); s.ops.push_back({T_PRE_HOT, 0, (int)g.below((uint32_t)nt), at}); }
    int na = g.chance(0.4) ? 1 + g.below(4) : 10 + g.below(60); std::vector<uint64_t> f; for (int i = 0; i < na; ++i) f.push_back(g.below(1000000)); std::sort(f.begin(), f.end());
    for (auto x : f) s.ops.push_back({T_PRE_ANY, 0, (int)g.below((uint32_t)nt), x});
    s.env.fill = g.chance(0.5) ? 0 : 0x7ff4dead7ff4deadull;
    return s;
}
Result exec_spec(const Spec& s, Stats& st, bool log) {
    Result res; alloc::st.fill = s.env.fill; alloc::disarm(); fault::disarm();
    const int N = (int)s.tasks.size(); if (N > sched::MAXT) { res.ok = false; res.cls = "harness"; res.msg = "too many threads"; return res; }
    Out* solo = (Out*)mmap(nullptr, sizeof(Out) * 2 * sched::MAXT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); Out* conc = solo + sched::MAXT;
    Run* R = new Run(s, st); R->setup(); std::vector<Run::Thread*> who; for (auto& t : R->th) if (t->rec->prog >= 0) who.push_back(t.get());
    if (who.empty()) return res;
    uint64_t total = 0;
    for (auto* t : who) {      // alone, in a process where nothing else has run
        pid_t p = fork(); if (p == 0) { R->concurrent({t}, solo); _exit(0); } int status; while (waitpid(p, &status, 0) < 0) {}
        if (!solo[t->id].done) { res.ok = false; res.cls = "solo"; res.msg = "a thread fails when it runs alone"; return res; }
        total += solo[t->id].count;
    }
    for (auto& o : s.ops) { if (o.kind == T_PRE_HOT) sched::by_hot.push_back({o.r, o.b % N}); else if (o.kind == T_PRE_ANY) sched::by_any.push_back({(uint64_t)((double)o.r / 1e6 * total) + 1, o.b % N}); }
    auto lt = [](const sched::Pre& a, const sched::Pre& b) { return a.at < b.at; }; std::stable_sort(sched::by_hot.begin(), sched::by_hot.end(), lt); std::stable_sort(sched::by_any.begin(), sched::by_any.end(), lt);
    R->concurrent(who, conc);
    st.inc("preempt.switches", (long)sched::switches); st.inc("preempt.blocked", (long)sched::blocked); st.inc("steps", (long)sched::any); st.inc("probe.shared-accesses", (long)sched::hot); st.states.insert(sched::trace.h);
    Hash h;
    for (auto* t : who) { Out &a = solo[t->id], &b = conc[t->id]; ++res.judged; for (size_t i = 0; i < b.n; ++i) h.u64(b.s[i].h); st.inc("op.thread");  res.judged += b.n;
        if (!res.ok) continue;
        for (size_t i = 0; i < std::max(a.n, b.n); ++i) if (i >= a.n || i >= b.n || a.s[i].h != b.s[i].h) {
            char m[400]; snprintf(m, sizeof m, "thread %d (%s): output %zu starts with %.17g, alone it starts with %.17g (%llu switches)", t->id, t->p->name, i, i < b.n ? b.s[i].x : -1.0, i < a.n ? a.s[i].x : -1.0, (unsigned long long)sched::switches);
            res.ok = false; res.cls = "interference"; res.msg = m; res.at = (int)i; break; } }
    res.hash = h.h ^ sched::trace.h;
    if (log) for (auto* t : who) for (size_t i = 0; i < conc[t->id].n; ++i) { char m[200]; snprintf(m, sizeof m, "thread %d output %zu: %.17g (alone %.17g)", t->id, i, conc[t->id].s[i].x, solo[t->id].s[i].x); res.log.push_back(m); }
    return res;
}
