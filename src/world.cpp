// The simulated world: variables, storage arenas, bound expressions (tasks and their copies), and a
// sequence of steps decided by one seed.  Every step is followed by oracles.
#include "world.hpp"
#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <cfloat>
#include <cstdarg>
#include <cstdio>
#include <sys/mman.h>
#include <unistd.h>

const char* op_names[] = {"set", "set-element", "set-bad", "set-all", "forward", "backward", "autodiff", "reset", "reset-all", "rebind", "scribble", "recreate",
    "stream-view", "mutate-const-source", "copy-expr", "move-expr", "churn-expr", "drop-copy", "noise", "assign-var", "alloc/user-fault forward", "alloc/user-fault backward",
    "fault build", "fault bind", "fault copy-var", "fault copy-expr", "destroy-zombies", "add-copy", "assign-expr", "revisit-earlier-value", "set-related-value", "many-passes"};

// ---- storage -----------------------------------------------------------------------------------
namespace {
const size_t REGION_PAGES = 8, PAGE = 4096, REGIONS = 160;
struct GuardPool {      // pages flush against PROT_NONE pages on both sides
    char* base = nullptr; std::vector<char> used;
    void init() {
        if (base) return;
        size_t one = (REGION_PAGES + 1) * PAGE;
        base = (char*)mmap(nullptr, one * REGIONS + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) { perror("mmap"); _exit(2); }
        for (size_t i = 0; i <= REGIONS; ++i) mprotect(base + i * one, PAGE, PROT_NONE);
        used.assign(REGIONS, 0);
    }
    int take() { for (size_t i = 0; i < REGIONS; ++i) if (!used[i]) { used[i] = 1; return (int)i; } return -1; }
    Num* lo(int i) { return (Num*)(base + i * (REGION_PAGES + 1) * PAGE + PAGE); }
    Num* hi(int i) { return (Num*)(base + (i + 1) * (REGION_PAGES + 1) * PAGE); }
    void release(int i) { used[i] = 0; }
} pool;

struct Block {          // one piece of caller-supplied storage: n slots plus watched surroundings
    Num* p = nullptr; size_t n = 0;
    int region = -1; bool flush_hi = true;
    bool arena = false;
    std::vector<Num> shadow;       // expected contents (when its owner is not running)
    std::vector<Num> margin;       // expected contents next to it
    size_t off = 0;                // alignment class (p mod 64, in slots)
};
const size_t MARGIN = 24;

struct Arena { std::vector<Num> buf; size_t used = 0; Num* base = nullptr; };

struct Fill { uint64_t pat; };
Num pat_num(uint64_t p) { double d; std::memcpy(&d, &p, 8); return Num(d); }

struct Slot {
    std::string key, dom; int kind, r, c, n; bool priv; bool target;
    std::unique_ptr<SlotObj> o;
    std::vector<Num> val, adj;                  // bit-exact expectation
    std::vector<long double> led, mag;          // ledger
    bool taint = false; bool bad = false; long stamp = 0;
    std::vector<std::pair<std::vector<Num>, bool>> hist;   // values it held before, most recent last
    int size() const { return r * c; }
};
struct Rep {
    std::unique_ptr<Inst> in; int mode = 0;      // 0 guarded raw, 1 shared arena, 2 owning
    Block bv, ba; bool bound = false;
    bool fresh = false; int bcount = 0;          // forward valid for backward; backwards since
    std::vector<std::vector<Num>> pre;           // leaf values the last forward started from
    std::vector<Num> out; bool outok = false;    // last returned value
    std::vector<char> untouched;                 // per leaf: not read in the last pass
    bool have_env = false, have_jac = false; ref::Env env; ref::Ten jac; bool regime_bad = false;
    long passes = 0, grew = 0, level = 0, top = 0; long fallocs = 10, ballocs = 6, fuser = 40, buser = 40;
};
struct Task {
    int id; const TaskRec* rec; Prog* p; bool alive = false;
    std::vector<int> leaf;                       // slot per 'l' spec, -1 otherwise
    FB fb; RB rb; ref::E re;
    std::vector<std::unique_ptr<ConstSlot>> consts;   // originals of by-value constants, one per 'c' spec (mutable by the world)
    std::vector<std::unique_ptr<ConstSlot>> snap;     // what they were when the expression was built
    std::vector<ConstSlot*> views;
    std::vector<std::unique_ptr<Rep>> reps;
    std::vector<int> shared, phs, targets;       // distinct slots by role
    bool opassign = false; int lastrel = -1;
    long ballocs_build = 8, user_build = 3;
};

struct World {
    const Spec& s; Stats& st; Result res; bool logging;
    std::map<std::string, int> slot_of; std::vector<Slot> slots;
    std::map<std::string, std::unique_ptr<ConstSlot>> views; std::map<std::string, std::vector<Num>> view_shadow;
    std::vector<Task> tasks; std::vector<std::unique_ptr<Inst>> zombies;
    Arena av, aa; Hash h; int step = -1; bool wild; bool poison, fresh_check, cross = false;
    uint64_t ctx = 0;
    std::vector<std::pair<Block, int>> old_blocks;   // storage a rebound expression has left: must stay untouched
    std::vector<int> iv;
    World(const Spec& sp, Stats& stt, bool lg) : s(sp), st(stt), logging(lg) {}

    [[noreturn]] void fail(const std::string& cls, const std::string& msg) { throw Violation{cls, msg}; }
    template <class... A> static std::string fmt(const char* f, A... a) { char b[600]; snprintf(b, sizeof b, f, a...); return b; }

    // ---- construction -------------------------------------------------------------------
    int slot(const std::string& key, const std::string& dom, int kind, int r, int c, int n, bool priv, bool target) {
        auto it = slot_of.find(key); if (it != slot_of.end()) return it->second;
        Slot x; x.key = key; x.dom = dom; x.kind = kind; x.r = r; x.c = c; x.n = n; x.priv = priv; x.target = target;
        { alloc::Scope sc; x.o.reset(new SlotObj(kind, r, c)); }
        for (int i = 0; i < x.size(); ++i) if (D(x.o->val()[i]) != 0 || D(x.o->adj()[i]) != 0) fail("var-init", "a new variable is not zero");
        Rng g(s.seed ^ hash_str(key.c_str()));
        sample(g, dom, kind, r, c, n, x.o->val());
        sync(x); x.led.assign(x.size(), 0); x.mag.assign(x.size(), 0);
        slots.push_back(std::move(x)); slot_of[key] = (int)slots.size() - 1; return (int)slots.size() - 1;
    }
    void sync(Slot& x) { x.val.assign(x.o->val(), x.o->val() + x.size()); x.adj.assign(x.o->adj(), x.o->adj() + x.size()); }
    ConstSlot* view(const std::string& key, const LeafSpec& l, int r, int c, int n) {
        auto& p = views[key];
        if (!p) { p.reset(new ConstSlot{l.kind, r, c, std::vector<Num>(r * c)}); Rng g(s.seed ^ hash_str(key.c_str())); sample(g, l.dom, l.kind, r, c, n, p->data.data()); view_shadow[key] = p->data; }
        return p.get();
    }
    void set_ptr(Task& t, const LeafSpec& l, int slotid) {
        FB& f = t.fb; RB& b = t.rb; size_t i = l.idx; Slot& x = slots[slotid];
        auto grow = [&](auto& v) { if (v.size() <= i) v.resize(i + 1); };
        ref::View w{slotid, 0, l.kind, x.r, x.c};
        if (l.kind == SCL) { grow(f.S); f.S[i] = x.o->s.get(); grow(b.S); b.S[i] = w; }
        else if (l.kind == VEC) { grow(f.V); f.V[i] = x.o->v.get(); grow(b.V); b.V[i] = w; }
        else { grow(f.M); f.M[i] = x.o->m.get(); grow(b.M); b.M[i] = w; }
    }
    void build_consts(Task& t) {    // point both backends at the constants; snapshot them
        t.snap.clear(); t.fb.cS.clear(); t.fb.cV.clear(); t.fb.cM.clear(); t.fb.kV.clear(); t.fb.kM.clear();
        size_t ci = 0, ki = 0;
        auto put = [&](std::vector<ConstSlot*>& v, size_t i, ConstSlot* c) { if (v.size() <= i) v.resize(i + 1); v[i] = c; };
        for (auto& l : t.p->spec) {
            if (l.cls == 'c') { ConstSlot* c = t.consts[ci++].get(); t.snap.emplace_back(new ConstSlot(*c)); put(l.kind == SCL ? t.fb.cS : l.kind == VEC ? t.fb.cV : t.fb.cM, l.idx, c); }
            if (l.cls == 'k') put(l.kind == VEC ? t.fb.kV : t.fb.kM, l.idx, t.views[ki++]);
        }
        t.rb.cS = t.fb.cS; t.rb.cV = t.fb.cV; t.rb.cM = t.fb.cM; t.rb.kV = t.fb.kV; t.rb.kM = t.fb.kM;
        t.rb.n = t.fb.n; t.rb.k = t.fb.k;
        t.re = t.p->refmake(t.rb);
    }
    void make_task(int id) {
        Task& t = tasks[id]; const TaskRec& r = s.tasks[id]; t.id = id; t.rec = &r; t.p = &progs()[r.prog]; t.alive = true;
        t.fb.n = r.n; t.fb.k = r.k; t.fb.idx.clear();
        for (int i = 0; i <= std::max(r.n + r.k, 3); ++i) { std::vector<int> v; for (int j = 0; j < i; ++j) v.push_back(j); t.fb.idx.push_back(v); }
        t.opassign = t.p->has("opassign");
        int li = 0; long share = s.k("share", 2);
        for (auto& l : t.p->spec) {
            int R = dim(l.rows, r.n, r.k), C = dim(l.cols, r.n, r.k); Rng g(mix64(r.r + 77 * ++li));
            if (l.cls == 'l') {
                bool priv = l.ph() || l.target || g.chance(0.25); int ix = g.below(share);
                std::string key = priv ? fmt("t%d.%d:%s", id, li, l.dom.c_str()) : fmt("g%d:%d,%d:%s:%d:%d", l.kind, R, C, l.dom.c_str(), l.dom == "dof" ? r.n : 0, ix);
                int sl = slot(key, l.ph() ? "" : l.dom, l.kind, R, C, r.n, l.ph() || l.target, l.target);
                t.leaf.push_back(sl); set_ptr(t, l, sl);
                auto& role = l.ph() ? t.phs : l.target ? t.targets : t.shared;
                if (std::find(role.begin(), role.end(), sl) == role.end()) role.push_back(sl);
            } else if (l.cls == 'c') {
                std::unique_ptr<ConstSlot> c(new ConstSlot{l.kind, R, C, std::vector<Num>(R * C)});
                if (g.chance(s.k("pbadconst", 0) * 0.01)) sample_bad(g, l.dom, l.kind, R, C, r.n, c->data.data(), false); else sample(g, l.dom, l.kind, R, C, r.n, c->data.data());
                t.consts.push_back(std::move(c));
            } else {
                std::string key = t.p->has("stat") ? fmt("kt%d.%d", id, li) : fmt("k%d:%d,%d:%s:%d", l.kind, R, C, l.dom.c_str(), (int)g.below(2));
                t.views.push_back(view(key, l, R, C, r.n));
            }
        }
        build_consts(t);
    }
    Inst* build(Task& t) { alloc::Scope sc; long n0 = alloc::st.n; fault::arm(-1, 0); Inst* p = t.p->make(t.fb); t.user_build = fault::st.n; fault::disarm(); t.ballocs_build = alloc::st.n - n0; return p; }

    // ---- storage --------------------------------------------------------------------------
    void fill_block(Block& b, uint64_t pat) { for (size_t i = 0; i < b.n; ++i) b.p[i] = pat_num(pat); }
    Block take(size_t n, int mode, Arena& a, uint64_t r) {
        Block b; b.n = n;
        if (mode == 0 && n < REGION_PAGES * PAGE / sizeof(Num) - 2 * MARGIN) {
            b.region = pool.take();
            if (b.region >= 0) {
                b.flush_hi = r & 1;
                size_t shift = (r >> 1) % 2 && n ? (r >> 2) % 8 : 0;   // not always flush, not always aligned
                if (b.flush_hi) b.p = pool.hi(b.region) - n - (shift > 4 ? 0 : shift); else b.p = pool.lo(b.region) + (shift > 4 ? 0 : shift);
            }
        }
        if (b.region < 0) {
            if (a.used + n + 256 > a.buf.size()) { // never moves: storage in use
                if (s.k("huge")) { st.inc("stopped.too-large"); throw Stop(); }
                fail("harness", "arena exhausted");
            }
            b.arena = true; b.p = a.base + a.used; a.used += n;
            if (s.k("gaps", 0)) a.used += (r >> 5) % 3;
        }
        b.off = ((uintptr_t)b.p / sizeof(Num)) % 8;
        fill_block(b, s.env.fill ^ (r & 2 ? 0 : 0x1));
        set_margin(b); keep(b);
        return b;
    }
    void margins(Block& b, std::vector<std::pair<Num*, size_t>>& out) {
        if (b.region < 0) return;
        Num* lo = pool.lo(b.region); Num* hi = pool.hi(b.region);
        size_t l = std::min<size_t>(MARGIN, b.p - lo), h2 = std::min<size_t>(MARGIN, hi - (b.p + b.n));
        if (l) out.push_back({b.p - l, l});
        if (h2) out.push_back({b.p + b.n, h2});
    }
    void set_margin(Block& b) { std::vector<std::pair<Num*, size_t>> m; margins(b, m); b.margin.clear(); for (auto& q : m) for (size_t i = 0; i < q.second; ++i) { q.first[i] = Num(0.1357 + i); b.margin.push_back(q.first[i]); } }
    bool margin_ok(Block& b) { std::vector<std::pair<Num*, size_t>> m; margins(b, m); size_t j = 0; for (auto& q : m) for (size_t i = 0; i < q.second; ++i, ++j) if (!same_bits(q.first[i], b.margin[j])) return false; return true; }
    void keep(Block& b) { b.shadow.assign(b.p, b.p + b.n); }
    bool block_ok(const Block& b) { for (size_t i = 0; i < b.n; ++i) if (std::memcmp(&b.p[i], &b.shadow[i], sizeof(Num))) return false; return true; }
    void give(Block& b) { if (b.region >= 0) pool.release(b.region); b = Block(); }

    void bind_rep(Task& t, Rep& r, uint64_t rr) {
        if (r.mode == 2) { r.bound = true; return; }
        size_t need[2]; { alloc::Scope sc; r.in->need(need); }
        if (s.k("huge") && (need[0] > 20000 || need[1] > 20000)) { st.inc("stopped.too-large"); throw Stop(); }
        if (need[0] > 200000 || need[1] > 200000) fail("cache-size", fmt("%s asks for %zu/%zu slots", t.p->name, need[0], need[1]));
        Block nv = take(need[0], r.mode, av, rr), na = take(need[1], r.mode, aa, mix64(rr));
        Num *ve, *ae;
        { alloc::Scope sc; r.in->bind(nv.p, na.p, &ve, &ae); }
        if (ve - nv.p != (long)need[0] || ae - na.p != (long)need[1])
            fail("cache-size", fmt("%s advertises %zu/%zu slots but binds %ld/%ld", t.p->name, need[0], need[1], (long)(ve - nv.p), (long)(ae - na.p)));
        if (r.bound) {   // the storage it leaves is overwritten and must never be touched again
            fill_block(r.bv, 0x40c81cd6e631f8a1ull); fill_block(r.ba, 0x40c81cd6e631f8a1ull); keep(r.bv); keep(r.ba);
            if (r.bv.arena || old_blocks.size() < 40) { old_blocks.push_back({r.bv, 0}); old_blocks.push_back({r.ba, 0}); } else { give(r.bv); give(r.ba); }
        }
        r.bv = nv; r.ba = na; r.bound = true; r.fresh = false; r.outok = false;
    }
    void add_rep(Task& t, Inst* in, int mode, uint64_t rr) {
        t.reps.emplace_back(new Rep()); Rep& r = *t.reps.back(); r.in.reset(in); r.mode = mode; r.pre.resize(t.leaf.size());
        bind_rep(t, r, rr);
    }
    void start_task(Task& t, uint64_t rr) {
        Inst* in = build(t); int mode = t.rec->mode;
        if (mode == 2) { alloc::Scope sc; std::unique_ptr<Inst> raw(in); Inst* b = raw->to_bound(); in = b; }
        add_rep(t, in, mode, rr);
    }
    void drop_rep(Task& t, size_t i) {
        { alloc::Scope sc; t.reps[i]->in.reset(); }
        Rep& r = *t.reps[i]; if (r.mode != 2) { // storage stays watched when it lies in the arena
            if (r.bv.arena) old_blocks.push_back({r.bv, 0}); else give(r.bv);
            if (r.ba.arena) old_blocks.push_back({r.ba, 0}); else give(r.ba); }
        t.reps.erase(t.reps.begin() + i);
    }

    // ---- oracles: frame ------------------------------------------------------------------
    static bool in(const std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
    std::string who(int i) { return slots[i].key; }
    void frame(const char* what, const std::vector<int>& vals, const std::vector<int>& adjs, Rep* active, const std::vector<int>& round = {}) {
        for (size_t i = 0; i < slots.size(); ++i) {
            Slot& x = slots[i]; bool va = in(vals, i), aa_ = in(adjs, i); const Num* v = x.o->val(); const Num* a = x.o->adj();
            for (int j = 0; j < x.size(); ++j) {
                if (!same_bits(v[j], x.val[j])) { if (!va && !(in(round, (int)i) && near_same(v[j], x.val[j]))) fail("foreign-value", fmt("%s changed the value of %s[%d]: %.17g -> %.17g", what, x.key.c_str(), j, D(x.val[j]), D(v[j]))); x.val[j] = v[j]; }
                if (!same_bits(a[j], x.adj[j])) { if (!aa_) fail("foreign-adjoint", fmt("%s changed the adjoint of %s[%d]: %.17g -> %.17g", what, x.key.c_str(), j, D(x.adj[j]), D(a[j]))); x.adj[j] = a[j]; }
            }
        }
        for (auto& t : tasks) for (auto& rp : t.reps) if (rp->bound && rp->mode != 2) {
            if (!margin_ok(rp->bv) || !margin_ok(rp->ba)) fail("storage-overrun", fmt("%s: storage next to that of task %d was written", what, t.id));
            if (rp.get() == active) { keep(rp->bv); keep(rp->ba); }
            else if (!block_ok(rp->bv) || !block_ok(rp->ba)) fail("foreign-storage", fmt("%s wrote into the storage of task %d", what, t.id));
        }
        for (auto& b : old_blocks) if (!block_ok(b.first)) fail("stale-storage", fmt("%s wrote into storage no expression is bound to", what));
        for (auto& kv : views) { auto& sh = view_shadow[kv.first]; for (size_t i = 0; i < sh.size(); ++i) if (!same_bits(kv.second->data[i], sh[i])) fail("view-written", fmt("%s modified a constant buffer", what)); }
        if (alloc::st.corrupt) fail("heap-overrun", fmt("%s wrote outside a heap block", what));
        if ((__builtin_ia32_stmxcsr() & 0xffc0) != 0x1f80) fail("environment", fmt("%s changed the floating-point control word", what));
    }
    void invalidate_slot(int sl) { for (auto& t : tasks) if (t.alive && in(t.leaf, sl)) for (auto& r : t.reps) r->fresh = false; }
    long stamps = 0;
    void remember(Slot& x, bool was_bad) { x.hist.push_back({x.val, was_bad}); if (x.hist.size() > 5) x.hist.erase(x.hist.begin()); x.stamp = ++stamps; }
    void write_slot(int sl, const std::vector<Num>& v) { Slot& x = slots[sl]; for (int i = 0; i < x.size(); ++i) x.o->val()[i] = v[i]; x.val = v; invalidate_slot(sl); }
    void reset_slot(int sl) { Slot& x = slots[sl]; x.o->reset_adj(); for (int i = 0; i < x.size(); ++i) { if (D(x.o->adj()[i]) != 0) fail("reset", "reset_adj left a non-zero adjoint in " + x.key); x.led[i] = 0; x.mag[i] = 0; } x.adj.assign(x.o->adj(), x.o->adj() + x.size()); x.taint = false; }

    // ---- reference --------------------------------------------------------------------------
    void ref_env(Task& t, const std::vector<std::vector<Num>>& pre, ref::Env& e, bool grad) {
        e = ref::Env(); e.slots.resize(slots.size()); int N = 0; size_t li = 0;
        std::vector<char> done(slots.size(), 0);
        for (size_t q = 0; q < t.leaf.size(); ++q) { int sl = t.leaf[q]; Slot& x = slots[sl]; ref::SlotState& z = e.slots[sl];
            if (done[sl]) continue; done[sl] = 1; z.kind = x.kind; z.r = x.r; z.c = x.c; z.base = N; z.v.resize(x.size()); for (int i = 0; i < x.size(); ++i) z.v[i] = D(pre[q][i]); N += x.size(); }
        (void)li; e.N = grad ? N : 0;
        for (auto& z : e.slots) if (!z.v.empty()) { z.g.assign(z.v.size() * e.N, 0); if (grad) for (size_t i = 0; i < z.v.size(); ++i) z.g[i * e.N + z.base + i] = 1; if (!grad) z.base = 0; }
        e.touched.assign(slots.size(), 0);
    }
    static bool judged(const ref::Env& e) { return !e.vague && !e.near_branch && !e.nonfinite && e.maxmag < 1e6L; }
    static bool close(double a, long double b, long double scale) { if (std::isinf((double)b) || std::isinf(a)) return a == (double)b; return std::fabs(a - (double)b) <= 1e-9 * (1 + (double)scale); }
    static bool near_same(Num x, Num y, double scale = 0) { if (same_bits(x, y)) return true; double a = D(x), b = D(y); if (a != a || b != b) return a != a && b != b; if (std::isinf(a) || std::isinf(b)) return a == b;
        return std::fabs(a - b) <= 1e-9 * (1 + scale + std::max(std::fabs(a), std::fabs(b))); }

    // ---- passes ------------------------------------------------------------------------------
    void note(const char* f, ...) { if (!logging) return; char b[500]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); res.log.push_back(fmt("%3d %s", step, b)); }
    static std::string nums(const Num* v, int n) { std::string o; for (int i = 0; i < n && i < 6; ++i) o += fmt("%s%.9g", i ? "," : "", D(v[i])); if (n > 6) o += ",..."; return o; }

    struct Fault { bool on = false; int kind = 0; long at = -1, every = 0; };   // kind 0 alloc, 1 user
    bool fault_fired(const Fault& f) { return f.on && (f.kind == 0 ? alloc::st.fired > 0 : fault::st.fired > 0); }
    void arm(const Fault& f, int id) { if (!f.on) { alloc::arm(-1, 0); if (count_user()) fault::arm(-1, id); return; } if (f.kind == 0) alloc::arm(f.at, f.every); else { alloc::arm(-1, 0); fault::arm(f.at, id); } }
    bool count_user() { return s.k("userfault", 0) != 0; }
    void disarm(const Fault& f) { alloc::disarm(); (void)f; fault::disarm(); }
    // runs g in library scope under a fault; returns true if it completed, false if the injected failure surfaced
    template <class G> bool guarded(Fault f, const char* what, G g) {
        if (s.k("nofault", 0)) f = Fault();
        int id = 1000 + step; bool done = false; std::string odd;
        arm(f, id);
        try { alloc::Scope sc; g(); done = true; }
        catch (const std::bad_alloc&) { if (!(f.on && f.kind == 0 && alloc::st.fired)) odd = "std::bad_alloc without an allocation failure"; }
        catch (const UserError& e) { if (!(f.on && f.kind == 1 && fault::st.fired)) odd = "user error without an injected one"; else if (e.id != id) odd = "a different user error"; }
        catch (const std::exception& e) { odd = std::string("unexpected exception ") + e.what(); }
        bool fired = fault_fired(f);
        disarm(f);
        if (!odd.empty()) fail("exception", fmt("%s: %s", what, odd.c_str()));
        if (done && fired) fail("swallowed", fmt("%s completed although %s failed inside it", what, f.kind ? "a user operation" : "an allocation"));
        if (!done) { st.inc(f.kind ? std::string("fault.user:") + what : std::string("fault.alloc:") + what); }
        return done;
    }

    void poison_on(Task& t, Rep& r, std::vector<std::pair<int, std::vector<Num>>>& saved) {
        if (!poison || r.untouched.empty()) return;
        for (size_t q = 0; q < t.leaf.size(); ++q) if (r.untouched[q]) { Slot& x = slots[t.leaf[q]]; if (in(t.targets, t.leaf[q]) || in(t.phs, t.leaf[q])) continue;
            bool dup = false; for (auto& z : saved) dup |= z.first == t.leaf[q]; if (dup) continue;
            saved.push_back({t.leaf[q], x.val}); for (int i = 0; i < x.size(); ++i) x.o->val()[i] = poison_value(); st.inc("probe.poisoned-untaken-branch"); }
    }
    static Num poison_value();
    void poison_off(std::vector<std::pair<int, std::vector<Num>>>& saved) { for (auto& z : saved) { Slot& x = slots[z.first]; for (int i = 0; i < x.size(); ++i) x.o->val()[i] = z.second[i]; } saved.clear(); }

    void account(Rep& r, long live0, const char* what, Task& t) {   // steady state: passes must not keep acquiring memory
        ++r.passes; long d = alloc::st.live_bytes - live0; r.level += d;
        if (r.level > r.top) { r.top = r.level; if (r.passes > 4 && d > 0 && ++r.grew > 3) fail("memory-growth", fmt("%s of task %d (%s) keeps acquiring memory (+%ld bytes in pass %ld)", what, t.id, t.p->name, d, r.passes)); }
    }
    // A difference that disturbances of a few dozen roundings explain is the conditioning of the formula, not an error.
    template <class Pick> bool shaky(Task& t, const Rep& r, bool grad, long double diff, Pick pick) {
        ref::Env e; ref_env(t, r.pre, e, grad); ref::Ten v = t.re.p->eval(e); long double base = pick(e, v), dev = 0;
        for (uint64_t k = 1; k <= 4; ++k) { ref_env(t, r.pre, e, grad); e.jitter = mix64(k) | 1; v = t.re.p->eval(e); dev = std::max(dev, std::fabs((long double)pick(e, v) - base)); }
        if (!(std::fabs(diff) <= 10 * dev)) return false;
        st.inc("unjudged.ill-conditioned"); return true;
    }
    long coarse_left = 30000;     // effort allowed per run
    // Small results are held to their own magnitude where the formula is computed the way it is written
    // (densities may be computed in other ways, with other cancellations).
    template <class Pick> bool coarse(Task& t, const Rep& r, bool grad, double a, long double b, Pick pick, long double floor = 1e-280L) {
        long double diff = std::fabs(a - b); if (!(diff > 1e-3L * std::fabs(b)) || diff < floor || !std::isfinite((double)b)) return false;
        if (t.p->has("stat") || coarse_left <= 0) return false;
        ref::Env e; ref_env(t, r.pre, e, grad); coarse_left -= 7L * (1 + e.N) * std::max(4, r.in->rows * r.in->cols); ref::Ten v = t.re.p->eval(e); long double base = pick(e, v), dev = 0;
        for (uint64_t k = 1; k <= 6; ++k) { ref_env(t, r.pre, e, grad); e.jitter = mix64(k) | 1; v = t.re.p->eval(e); dev = std::max(dev, std::fabs((long double)pick(e, v) - base)); }
        st.inc("check.small-difference"); return diff > 1000 * dev;
    }
    void seed_of(uint64_t rr, int n, std::vector<Num>& out) {
        Rng g(rr); double common[] = {1, 1, 1, -1, 2, 0.5, 0, -3, 1.7}; out.resize(n);
        if (n == 1 || g.chance(0.2)) { Num x = common[g.below(9)]; for (auto& o : out) o = x; }
        else for (auto& o : out) o = g.chance(0.15) ? Num(0.0) : Num(g.range(-2, 2));
        bool one = true; for (auto& o : out) one &= D(o) == 1; if (!one) st.inc("probe.seed-not-one");
    }

    // mode: 1 forward, 2 backward, 3 autodiff
    void pass(Task& t, Rep& r, int mode, uint64_t rr, const Fault& f) {
        Inst& in_ = *r.in; int n = in_.rows * in_.cols; bool fwd = mode & 1, bwd = mode & 2;
        in_.how = cross || mix64(rr + 41) & 4 ? (int)(mix64(rr + 41) & 3) : 0; if (in_.how) st.inc("probe.other-entry-point");
        const char* what = mode == 1 ? "forward" : mode == 2 ? "backward" : "autodiff";
        if (n > 4096) { if (s.k("huge")) { st.inc("stopped.too-large"); throw Stop(); } fail("shape", "absurd result size"); }
        std::vector<int> writes = t.phs; writes.insert(writes.end(), t.targets.begin(), t.targets.end());
        std::vector<Num> seed;
        if (bwd) {   // as documented, placeholders (and compound-assignment targets) start a backward pass with zero adjoints
            for (int i : writes) reset_slot(i);
            seed_of(rr, n, seed);
        }
        ref::Env e1; ref::Ten v1;
        if (fwd) {
            for (size_t q = 0; q < t.leaf.size(); ++q) r.pre[q] = slots[t.leaf[q]].val;
            ref_env(t, r.pre, e1, false); v1 = t.re.p->eval(e1);
            r.untouched.assign(t.leaf.size(), 0);
            if (!e1.near_branch && !e1.vague) for (size_t q = 0; q < t.leaf.size(); ++q) r.untouched[q] = !e1.touched[t.leaf[q]];
            r.fresh = false; r.have_jac = false; r.bcount = 0;
        }
        std::vector<Num> out(std::max(n, 1), Num(-7.25));
        std::vector<std::pair<int, std::vector<Num>>> saved; poison_on(t, r, saved);
        // adjoints of reset slots are part of the expectation now
        long live0 = alloc::st.live_bytes, n0 = alloc::st.total;
        bool done = guarded(f, what, [&] { if (mode == 1) in_.fwd(out.data()); else if (mode == 2) in_.bwd(seed.data()); else in_.both(seed.data(), out.data()); });
        if (!f.on) { (mode == 2 ? r.ballocs : r.fallocs) = alloc::st.total - n0; if (count_user() && mode < 3) (mode == 2 ? r.buser : r.fuser) = fault::st.n; }
        poison_off(saved);
        ctx = mix64(ctx ^ (t.rec->prog * 64 + mode * 4 + (f.on && !done)));
        if (!done) {
            account(r, live0, what, t);
            note("task %d (%s) %s: injected failure surfaced", t.id, t.p->name, what);
            std::vector<int> adjs; if (bwd) adjs = t.leaf;
            bool fwd_only = mode == 1;
            frame(what, writes, adjs, &r);
            if (!fwd_only) for (int i : t.leaf) slots[i].taint = true;
            for (size_t q = 0; q < t.leaf.size(); ++q) if (in(t.targets, t.leaf[q])) write_slot(t.leaf[q], r.pre[q]);
            for (int i : writes) reset_slot(i);
            r.fresh = false; r.outok = false; h.u64(99);
            return;
        }
        account(r, live0, what, t);
        std::vector<int> vals; if (fwd || !t.targets.empty()) vals = fwd ? writes : t.targets;
        if (!fwd && r.regime_bad) vals.insert(vals.end(), t.phs.begin(), t.phs.end());
        frame(what, vals, bwd ? t.leaf : std::vector<int>(), &r, t.phs);   // a backward pass may re-round a placeholder it recomputes
        if (fwd) {
            for (int i = 0; i < n; ++i) h.bits(D(out[i]));
            r.out = out; r.outok = true;
            bool j = judged(e1);
            note("task %d (%s) forward -> %s   [ref %s%s]", t.id, t.p->name, nums(out.data(), n).c_str(), j ? fmt("%.9Lg", v1.size() ? v1.v[0] : 0.0L).c_str() : "not judged", e1.oos ? ", out of support" : "");
            if (e1.oos) st.inc("probe.out-of-support"); if (e1.nonfinite) st.inc("probe.nonfinite"); if (e1.near_branch) st.inc("probe.near-branch");
            if (e1.branches) st.inc("probe.branch-evaluated", e1.branches);
            r.regime_bad = !j || e1.oos;
            st.states.insert(mix64(ctx * 31 + e1.oos * 2 + e1.nonfinite));
            if (j) {
                ++res.judged; st.inc("judged.forward");
                if (v1.size() != n) fail("shape", fmt("%s has %d values, reference %d", t.p->name, n, v1.size()));
                bool rolled = mode == 3 && t.opassign && in_.kind != SCL;
                for (int i = 0; i < n && !rolled; ++i) if ((!close(D(out[i]), v1.v[i], e1.maxmag) && !shaky(t, r, false, D(out[i]) - v1.v[i], [i](ref::Env&, ref::Ten& v) { return v.v[i]; })) || coarse(t, r, false, D(out[i]), v1.v[i], [i](ref::Env&, ref::Ten& v) { return v.v[i]; })) mismatch(t, r, mode, seed, out), fail("value", fmt("task %d (%s) forward returned %.17g for element %d, the formula is %.17Lg at the current values", t.id, t.p->name, D(out[i]), i, v1.v[i]));
                if (mode == 1) for (int i : writes) { Slot& x = slots[i]; for (int q = 0; q < x.size(); ++q) if (!close(D(x.val[q]), e1.slots[i].v[q], e1.maxmag) && e1.slots[i].v[q] == e1.slots[i].v[q] && !shaky(t, r, false, D(x.val[q]) - e1.slots[i].v[q], [i, q](ref::Env& e, ref::Ten&) { return e.slots[i].v[q]; }))
                    fail("placeholder", fmt("task %d (%s) left %.17g in %s[%d], sequential evaluation leaves %.17Lg", t.id, t.p->name, D(x.val[q]), x.key.c_str(), q, e1.slots[i].v[q])); }
                else for (int i : t.phs) { Slot& x = slots[i]; for (int q = 0; q < x.size(); ++q) if (!close(D(x.val[q]), e1.slots[i].v[q], e1.maxmag) && e1.slots[i].v[q] == e1.slots[i].v[q] && !shaky(t, r, false, D(x.val[q]) - e1.slots[i].v[q], [i, q](ref::Env& e, ref::Ten&) { return e.slots[i].v[q]; }))
                    fail("placeholder", fmt("task %d (%s) left %.17g in %s[%d], sequential evaluation leaves %.17Lg", t.id, t.p->name, D(x.val[q]), x.key.c_str(), q, e1.slots[i].v[q])); }
            } else st.inc("unjudged.forward");
            for (auto& o : t.reps) if (o.get() != &r && t.opassign) o->fresh = false;
            r.fresh = true;
        }
        if (bwd) {
            if (!r.have_jac) { ref_env(t, r.pre, r.env, true); r.jac = t.re.p->eval(r.env); r.have_jac = true; }
            ref::Env& e = r.env; ++r.bcount;
            bool j = judged(e) && !e.adj_vague && r.jac.size() == n;
            for (size_t q = 0; q < t.leaf.size(); ++q) if (in(t.targets, t.leaf[q])) { Slot& x = slots[t.leaf[q]]; for (int i = 0; i < x.size(); ++i) if (!same_bits(x.val[i], r.pre[q][i]))
                fail("rollback", fmt("task %d (%s): after the backward pass %s[%d] is %.17g, before the forward pass it was %.17g", t.id, t.p->name, x.key.c_str(), i, D(x.val[i]), D(r.pre[q][i]))); }
            if (t.opassign) { r.fresh = false; }
            std::vector<char> seen(slots.size(), 0); long double topseed = 0; for (auto& z : seed) topseed = std::max(topseed, (long double)std::fabs(D(z)));
            bool nowrite = e.nowrite && t.p->has("detroot");
            if (nowrite) st.inc("probe.failed-factorisation-backward");
            if (e.oos && j) st.inc("probe.backward-out-of-support");
            (j || nowrite) ? (++res.judged, st.inc("judged.backward")) : st.inc("unjudged.backward");
            for (int sl : t.leaf) { if (seen[sl]) continue; seen[sl] = 1; Slot& x = slots[sl];
                bool alone = j && !nowrite; for (auto& l : x.led) alone &= l == 0; for (auto& l : x.mag) alone &= l == 0;      // nothing since the last reset
                if (nowrite) continue_nowrite(t, x, sl);
                else if (!j) x.taint = true;
                else for (int i = 0; i < x.size(); ++i) {
                    long double d = 0, m = 0; bool zero = true;
                    for (int o = 0; o < n; ++o) { long double g = r.jac.gr(o)[e.slots[sl].base + i]; if (g != 0) zero = false; d += g * D(seed[o]); m += std::fabs(g * D(seed[o])); }
                    x.led[i] += d; x.mag[i] += m + (zero ? 0 : e.maxmag * std::fabs(D(seed[n > 1 ? i % n : 0])));
                }
                if (!x.taint && alone) for (int i = 0; i < x.size(); ++i) if (coarse(t, r, true, D(x.adj[i]), x.led[i], [&, i](ref::Env& e2, ref::Ten& v) { long double d = 0; for (int o = 0; o < n; ++o) d += v.gr(o)[e2.slots[sl].base + i] * D(seed[o]); return d; }, 1e-14L * topseed * (1 + e.maxmag)))
                    mismatch(t, r, mode, seed, out), fail("adjoint", fmt("task %d (%s) %s: adjoint of %s[%d] is %.17g, the ledger says %.17Lg", t.id, t.p->name, what, x.key.c_str(), i, D(x.adj[i]), x.led[i]));
                if (!x.taint) for (int i = 0; i < x.size(); ++i) if (!close(D(x.adj[i]), x.led[i], x.mag[i])) {
                    if (j && shaky(t, r, true, D(x.adj[i]) - x.led[i], [&, i](ref::Env& e2, ref::Ten& v) { long double d = 0; for (int o = 0; o < n; ++o) d += v.gr(o)[e2.slots[sl].base + i] * D(seed[o]); return d; })) { x.taint = true; break; }
                    mismatch(t, r, mode, seed, out), fail("adjoint", fmt("task %d (%s) %s: adjoint of %s[%d] is %.17g, the ledger says %.17Lg", t.id, t.p->name, what, x.key.c_str(), i, D(x.adj[i]), x.led[i])); }
                for (int i = 0; i < x.size(); ++i) h.bits(D(x.adj[i]));
            }
            note("task %d (%s) backward seed %s: %s", t.id, t.p->name, nums(seed.data(), n).c_str(), j ? "ledger agrees" : nowrite ? "no adjoint written" : "not judged");
        }
        for (auto& o : t.reps) if (o.get() != &r && o->outok && !t.p->has("ph") && !t.opassign) {      // the value the other copies returned is still theirs
            std::vector<Num> pk(o->out.size()); { alloc::Scope sc; o->in->peek(pk.data()); }
            for (size_t i = 0; i < o->out.size() && (int)i < n; ++i) if (!near_same(pk[i], o->out[i])) fail("copy-interference", fmt("evaluating one copy of %s changed the value held by another: %.17g -> %.17g", t.p->name, D(o->out[i]), D(pk[i])));
        }
        if (fresh_check && !(bwd && r.have_jac && r.env.maxmag >= 1e6L) && (cross || r.regime_bad || (mix64(rr) & 3) == 0)) differential(t, r, mode, seed, out);
    }
    // Hundreds of passes at unchanged inputs: every one must do what the first one did.
    void many(Task& t, Rep& r, uint64_t rr, int count) {
        Inst& in_ = *r.in; int n = in_.rows * in_.cols; in_.how = 0; if (n > 4096) return;
        bool back = t.opassign || (rr & 4); std::vector<int> writes = t.phs; writes.insert(writes.end(), t.targets.begin(), t.targets.end());
        for (int i : writes) reset_slot(i);
        std::vector<Num> seed; seed_of(mix64(rr), n, seed); std::vector<std::vector<Num>> first; std::vector<Num> out(std::max(n, 1)), out0; std::vector<int> ls;
        for (int sl : t.leaf) if (!in(ls, sl)) ls.push_back(sl);
        long bytes = 0; bool lin = false; std::vector<Num> seed0 = seed;
        { std::vector<std::vector<Num>> now; for (int sl : t.leaf) now.push_back(slots[sl].val); ref::Env e; ref_env(t, now, e, false); t.re.p->eval(e); lin = judged(e); }
        for (int i = 0; i < count; ++i) {
            // powers of two: every backward pass is linear in its seed, without any rounding
            int pw = 0; if (lin && back && i && mix64(rr + 5 * (uint64_t)i) % 4 == 0) { static const int P[] = {-60, -25, -150, 40, 100, -1, 7, -90}; pw = P[mix64(rr + 9 * (uint64_t)i) % 8]; st.inc("probe.scaled-seed"); }
            for (size_t j = 0; j < seed.size(); ++j) seed[j] = Num(std::ldexp(D(seed0[j]), pw));
            for (int sl : ls) { Slot& x = slots[sl]; for (int j = 0; j < x.size(); ++j) x.o->adj()[j] = Num(0.0); }
            guarded(Fault(), "repeated pass", [&] { in_.fwd(out.data()); if (back) in_.bwd(seed.data()); });
            if (i == 0) { out0 = out; for (int sl : ls) first.emplace_back(slots[sl].o->adj(), slots[sl].o->adj() + slots[sl].size()); }
            if (i == 8) bytes = alloc::st.live_bytes;
            for (int j = 0; j < n; ++j) if (!near_same(out[j], out0[j])) fail("repeat-value", fmt("task %d (%s) pass %d over unchanged inputs returns %.17g, the first returned %.17g", t.id, t.p->name, i + 1, D(out[j]), D(out0[j])));
            for (size_t q = 0; q < ls.size() && pw; ++q) { Slot& x = slots[ls[q]]; double top = 0; for (int j = 0; j < x.size(); ++j) top = std::max(top, std::fabs(std::ldexp(D(first[q][j]), pw)));
                if (std::isfinite(top)) for (int j = 0; j < x.size(); ++j) { double want = std::ldexp(D(first[q][j]), pw), got = D(x.o->adj()[j]); if (want == want && !(std::fabs(got - want) <= 1e-9 * top + 1e-280))
                    fail("seed-linearity", fmt("task %d (%s): seeds 2^%d times as large add %.17g to %s[%d], expected %.17g", t.id, t.p->name, pw, got, x.key.c_str(), j, want)); } }
            for (size_t q = 0; q < ls.size() && !pw; ++q) { Slot& x = slots[ls[q]]; for (int j = 0; j < x.size(); ++j) if (!near_same(x.o->adj()[j], first[q][j])) fail("repeat-adjoint", fmt("task %d (%s) pass %d over unchanged inputs adds %.17g to %s[%d], the first added %.17g", t.id, t.p->name, i + 1, D(x.o->adj()[j]), x.key.c_str(), j, D(first[q][j]))); }
        }
        if (count > 8 && alloc::st.live_bytes > bytes) fail("memory-growth", fmt("%d passes of task %d (%s) acquire %ld bytes", count - 8, t.id, t.p->name, (long)(alloc::st.live_bytes - bytes)));
        for (int sl : ls) { Slot& x = slots[sl]; for (int j = 0; j < x.size(); ++j) x.o->adj()[j] = x.adj[j]; }
        frame("repeated passes", writes, {}, &r); h.u64(count); st.inc("probe.many-passes", count);
        for (auto& o : t.reps) if (t.opassign) o->fresh = false;
        r.fresh = false; r.outok = false; r.passes += count; note("task %d (%s): %d unjudged passes", t.id, t.p->name, count);
    }
    // a twin over differently placed storage may round differently, and a formula may magnify that
    template <class Pick> bool excused(Task& t, const Rep& r, bool flip, bool grad, long double diff, Pick pick) {
        ref::Env e; ref_env(t, r.pre, e, false); t.re.p->eval(e);
        if (!judged(e)) { if (flip) st.inc("unjudged.twin"); return flip; }
        return shaky(t, r, grad, diff, pick);
    }
    uint64_t rr_twin = 0;
    std::vector<std::vector<Num>> adj_before;
    void continue_nowrite(Task& t, Slot& x, int sl) {
        for (int i = 0; i < x.size(); ++i) if (!same_bits(x.adj[i], nowrite_before[sl][i])) fail("failed-factorisation-write", fmt("task %d (%s): backward pass after a failed factorisation changed the adjoint of %s[%d]: %.17g -> %.17g", t.id, t.p->name, x.key.c_str(), i, D(nowrite_before[sl][i]), D(x.adj[i])));
    }
    std::map<int, std::vector<Num>> nowrite_before;

    // A result differs from the formula.  Where only history matters (knob formula=0) it counts if a
    // fresh expression disagrees too; otherwise the run ends without a verdict.
    struct Stop {};
    void mismatch(Task& t, Rep& r, int mode, const std::vector<Num>& seed, const std::vector<Num>& out) {
        if (s.k("formula", 1)) return;
        differential(t, r, mode, seed, out); st.inc("stopped.formula-differs"); throw Stop();
    }
    // Build the same expression afresh over copies of the same variables and compare.
    void differential(Task& t, Rep& r, int mode, const std::vector<Num>& seed, const std::vector<Num>& out) {
        long live0 = alloc::st.live; struct Refill { uint64_t o = alloc::st.fill; Refill() { alloc::st.fill = 0; } ~Refill() { alloc::st.fill = o; } };
        {
            Refill zeroed; st.inc("check.fresh-rebuild");
            std::vector<std::unique_ptr<SlotObj>> cp(slots.size()); FB fb; fb.n = t.fb.n; fb.k = t.fb.k; fb.idx = t.fb.idx;
            size_t li = 0, ci = 0, ki = 0;
            auto put = [&](auto& v, size_t i, auto* c) { if (v.size() <= i) v.resize(i + 1); v[i] = c; };
            for (auto& l : t.p->spec) {
                if (l.cls == 'l') { int sl = t.leaf[li]; if (!cp[sl]) { alloc::Scope sc; cp[sl] = slots[sl].o->copy(); for (int i = 0; i < slots[sl].size(); ++i) { cp[sl]->val()[i] = r.pre[li][i]; } cp[sl]->reset_adj(); }
                    if (l.kind == SCL) put(fb.S, l.idx, cp[sl]->s.get()); else if (l.kind == VEC) put(fb.V, l.idx, cp[sl]->v.get()); else put(fb.M, l.idx, cp[sl]->m.get()); ++li; }
                else if (l.cls == 'c') { put(l.kind == SCL ? fb.cS : l.kind == VEC ? fb.cV : fb.cM, l.idx, t.snap[ci].get()); ++ci; }
                else { put(l.kind == VEC ? fb.kV : fb.kM, l.idx, t.views[ki]); ++ki; }
            }
            std::unique_ptr<Inst> in; std::vector<Num> bv, ba; Num *ve, *ae;
            { alloc::Scope sc; in.reset(t.p->make(fb)); }
            bool flip = cross && (mix64(rr_twin += 3) & 1); if ((r.mode == 2) != flip) { alloc::Scope sc; std::unique_ptr<Inst> raw = std::move(in); in.reset(raw->to_bound()); }
            else {
                size_t need[2]; { alloc::Scope sc; in->need(need); }
                bv.assign(need[0] + 16, Num(0.0)); ba.assign(need[1] + 16, Num(0.0));
                auto at = [](std::vector<Num>& b, size_t off) { size_t cur = ((uintptr_t)b.data() / sizeof(Num)) % 8; return b.data() + (off + 8 - cur) % 8; };
                alloc::Scope sc; in->bind(at(bv, r.bv.off), at(ba, r.ba.off), &ve, &ae);
            }
            int n = in->rows * in->cols; std::vector<Num> o2(std::max(n, 1), Num(-7.25));
            { alloc::Scope sc; in->fwd(o2.data()); }
            if ((mode & 1) && !(mode == 3 && t.opassign && r.in->kind != SCL)) for (int i = 0; i < n; ++i) if (!near_same(o2[i], out[i]) && !excused(t, r, flip, false, D(o2[i]) - D(out[i]), [i](ref::Env&, ref::Ten& v) { return v.v[i]; })) fail("history-value", fmt("task %d (%s) returned %.17g for element %d; freshly built over the same values it returns %.17g", t.id, t.p->name, D(out[i]), i, D(o2[i])));
            if (mode & 2) {
                { alloc::Scope sc; in->bwd(seed.data()); }
                for (int sl : t.leaf) { Slot& x = slots[sl]; auto it = nowrite_before.find(sl); if (it == nowrite_before.end()) continue;
                    for (int i = 0; i < x.size(); ++i) { Num want = cp[sl]->adj()[i], base = it->second[i]; double b = D(base), w = D(want); if (!std::isfinite(b)) continue;
                        double got = D(x.adj[i]); double exp = b + w;
                        if (!near_same(Num(exp), Num(got), std::fabs(b) + std::fabs(w)) && !excused(t, r, flip, true, got - exp, [&, i](ref::Env& e2, ref::Ten& v) { long double d = 0; for (int o = 0; o < n; ++o) d += v.gr(o)[e2.slots[sl].base + i] * D(seed[o]); return d; })) fail("history-adjoint", fmt("task %d (%s): backward pass added %.17g to %s[%d]; freshly built over the same values it adds %.17g", t.id, t.p->name, got - b, x.key.c_str(), i, w)); } }
            }
            { alloc::Scope sc; in.reset(); for (auto& c : cp) c.reset(); }
        }
        if (alloc::st.live != live0) fail("leak", fmt("building, evaluating and destroying %s leaves %ld heap blocks behind", t.p->name, alloc::st.live - live0));
        frame("evaluating a fresh copy", {}, {}, nullptr);
    }

    // ---- steps ---------------------------------------------------------------------------------
    void save_adj(Task& t) { nowrite_before.clear(); for (int sl : t.leaf) nowrite_before[sl] = slots[sl].adj; for (int sl : t.phs) nowrite_before[sl].assign(slots[sl].size(), Num(0.0)); for (int sl : t.targets) nowrite_before[sl].assign(slots[sl].size(), Num(0.0)); }
    Rep* rep(Task& t, uint64_t r) { return t.reps.empty() ? nullptr : t.reps[(r >> 40) % t.reps.size()].get(); }
    int pick_slot(Task& t, uint64_t r, bool any = false) { (void)any; if (t.shared.empty() && t.targets.empty()) return -1; std::vector<int> c = t.shared; c.insert(c.end(), t.targets.begin(), t.targets.end()); return c[(r >> 20) % c.size()]; }
    void invalidate(Task& t) { for (auto& r : t.reps) r->fresh = false; }
    bool alloc_fault_mode() { return s.k("userfault", 0) == 0; }
    Fault fault_at(uint64_t r, long span) { Fault f; f.on = true; f.kind = alloc_fault_mode() ? 0 : 1; if (span < 1) span = 1; Rng g(r); f.at = g.below((uint32_t)std::min<long>(span + 1, 100000)); if (f.kind == 0 && g.chance(0.25)) f.every = 1 + g.below(3); return f; }

    void noise(uint64_t r) {
        // unrelated expressions and allocations
        Rng g(r); alloc::Scope sc;
        VV a((size_t)(1 + g.below(9))), b((size_t)a.size()); for (size_t i = 0; i < a.size(); ++i) { a.data()[i] = g.range(-1, 1); b.data()[i] = g.range(0.5, 2); }
        VS x(Num(g.range(-1, 1)));
        auto e = ad::bind(ad::sum(ad::sin(a) * b) * x + ad::norm(a) / x);
        ad::autodiff(e);
        VM m((size_t)3, (size_t)3); for (int i = 0; i < 9; ++i) m.data()[i] = g.range(-1, 1) + (i % 4 == 0 ? 3 : 0);
        auto q = ad::bind(ad::det(m) * x); ad::autodiff(q);
        std::vector<std::vector<Num>> junk; for (int i = 0; i < 6; ++i) { junk.emplace_back(1 + g.below(60)); for (auto& z : junk.back()) z = g.range(-100, 100); }
    }
    // state of the C library and the floating-point unit that nothing may depend on
    static void perturb(uint64_t v) { errno = v & 1 ? EDOM : v & 2 ? ERANGE : 0; if (v & 4) feraiseexcept(FE_ALL_EXCEPT); else if (v & 8) feclearexcept(FE_ALL_EXCEPT); if (v & 16) srand((unsigned)(v >> 32)); if (v & 32) (void)rand(); }
    static void __attribute__((noinline)) stack_noise(uint64_t v) { volatile uint64_t b[512]; for (int i = 0; i < 512; ++i) b[i] = v + i * 0x9E3779B97F4A7C15ull; }

    void run_op(const OpRec& o) {
        if (o.a < 0 || o.a >= (int)tasks.size() || !tasks[o.a].alive) return;
        Task& t = tasks[o.a]; Rng g(o.r); st.inc(std::string("op.") + op_names[o.kind]);
        if (s.env.noise) { perturb(mix64(s.env.noise * 13 + step)); stack_noise(mix64(s.env.noise + step)); if (mix64(s.env.noise * 131 + step) % 3 == 0) noise(mix64(s.env.noise * 977 + step)); }
        switch (o.kind) {
        case SET: case SETELEM: case SETBAD: {
            int sl = pick_slot(t, o.r); if (sl < 0) return; Slot& x = slots[sl]; std::vector<Num> v(x.size()); remember(x, x.bad);
            if (o.kind == SETBAD) { sample_bad(g, x.dom, x.kind, x.r, x.c, x.n, v.data(), wild); x.bad = true; st.inc("episode.bad-input"); }
            else { sample(g, x.dom, x.kind, x.r, x.c, x.n, v.data()); if (o.kind == SETELEM && !x.bad && x.dom != "spd" && x.size() > 1) { std::vector<Num> w = x.val; int e = g.below(x.size()); w[e] = v[e]; v = w; } else x.bad = false; }
            write_slot(sl, v); note("task %d: %s %s = %s", t.id, op_names[o.kind], x.key.c_str(), nums(v.data(), x.size()).c_str()); break; }
        case SETALL:
            for (int sl : t.leaf) if (!in(t.phs, sl)) { Slot& x = slots[sl]; std::vector<Num> v(x.size()); Rng gg(mix64(o.r + sl)); Rng gk(o.r ^ hash_str(x.key.c_str())); remember(x, x.bad); sample(gk, x.dom, x.kind, x.r, x.c, x.n, v.data()); x.bad = false; write_slot(sl, v); (void)gg; }
            note("task %d: set all variables to valid values", t.id); break;
        case REVISIT: {     // exactly a value it held before: of one variable, or of all of them
            int last = -1; for (int sl : t.leaf) if (!in(t.phs, sl) && !slots[sl].hist.empty() && (last < 0 || slots[sl].stamp > slots[last].stamp)) last = sl;
            if (last < 0) return;
            size_t back = g.chance(0.7) ? 1 : 1 + g.below(4); int only = g.chance(0.6) ? last : g.chance(0.5) ? pick_slot(t, o.r) : -1;
            std::vector<char> seen(slots.size(), 0);
            for (int sl : t.leaf) { Slot& x = slots[sl]; if (seen[sl] || in(t.phs, sl) || (only >= 0 && sl != only) || x.hist.empty()) continue; seen[sl] = 1;
                auto hv = x.hist[x.hist.size() - std::min(back, x.hist.size())]; bool was = x.bad; remember(x, was); x.bad = hv.second; write_slot(sl, hv.first); }
            note("task %d: %s back at an earlier value", t.id, only < 0 ? "all variables" : slots[only].key.c_str()); break; }
        case SETREL: {      // a value closely related to the current one
            int sl = (o.b & 16) && t.lastrel >= 0 ? t.lastrel : pick_slot(t, o.r); if (sl < 0 || sl >= (int)slots.size()) return; Slot& x = slots[sl]; if (x.size() == 0) return; t.lastrel = sl;
            if (x.bad) { if (x.dom == "spd" || x.dom == "gen" || !std::all_of(x.val.begin(), x.val.end(), [](const Num& z) { return std::isfinite(D(z)) && std::fabs(D(z)) < 1e6; })) return; }
            std::vector<Num> v = x.val; bool spd = x.dom == "spd"; int how = o.b & 15 ? (o.b & 15) : (int)g.below(7); int a = g.below(x.size()), b = g.below(x.size());
            if (x.bad && how != 5) how = g.chance(0.6) ? 1 : 6;
            if (how == 5) { // on, just below or just above another variable, element by element
                std::vector<int> c; for (int z : t.leaf) if (z != sl && !in(t.phs, z) && slots[z].kind == x.kind && slots[z].r == x.r && slots[z].c == x.c && slots[z].dom != "spd" && slots[z].dom != "gen") c.push_back(z);
                if (c.empty() || spd || x.dom == "gen" || x.dom == "bin" || x.dom == "dof") how = 1;
                else { Slot& y = slots[c[g.below((uint32_t)c.size())]]; int side = g.below(4); if (!std::all_of(y.val.begin(), y.val.end(), [](const Num& z) { return std::isfinite(D(z)) && std::fabs(D(z)) < 1e6; })) return;
                    for (int i = 0; i < x.size(); ++i) { double gap = g.range(0.01, 0.2); v[i] = D(y.val[i]) + (side == 0 ? gap : side == 1 ? -gap : side == 2 ? (g.chance(0.5) ? gap : -gap) : 0); }
                    remember(x, x.bad); x.bad = true; write_slot(sl, v); note("task %d: %s moved next to %s: %s", t.id, x.key.c_str(), y.key.c_str(), nums(v.data(), x.size()).c_str()); break; } }
            if (how == 6) { // same sum, different elements
                if (spd || x.dom == "gen" || x.dom == "bin" || x.size() < 2 || a == b) how = 1; else { double d = g.range(-0.1, 0.1); v[a] = D(v[a]) + d; v[b] = D(v[b]) - d; } }
            if (x.dom == "bin") how = how == 0 || how == 2 ? 1 : how;
            if (how == 0) { double rel = g.chance(0.5) ? 3e-7 : 1e-4; if (spd) { int i = g.below(x.r); v[i + i * x.r] = D(v[i + i * x.r]) * (1 + rel); } else if (g.chance(0.5)) v[a] = D(v[a]) * (1 + rel); else for (auto& z : v) z = D(z) * (1 - rel); }
            else if (how == 1 || how == 3) {
                if (spd || (x.dom == "gen" && x.r > 1)) { int i = g.below(x.r), j = g.below(x.r); for (int q = 0; q < x.c; ++q) std::swap(v[i + q * x.r], v[j + q * x.r]); if (spd) for (int q = 0; q < x.r; ++q) std::swap(v[q + i * x.r], v[q + j * x.r]); }
                else if (g.chance(0.5)) std::swap(v[a], v[b]); else v[a] = v[b]; }
            else if (how == 6) {}
            else if (how == 2) { if (x.dom == "real" || x.dom == "gen" || x.dom == "sym1" || x.dom == "angle" || x.dom == "mid" || x.dom == "nz" || x.dom == "zmix") for (auto& z : v) z = -D(z); else if (spd) for (auto& z : v) z = D(z) * 1.25; }
            else for (size_t i = 0; i < slots.size(); ++i) if ((int)i != sl && slots[i].kind == x.kind && slots[i].r == x.r && slots[i].c == x.c && slots[i].dom == x.dom && !slots[i].bad) { v = slots[i].val; break; }
            remember(x, x.bad); write_slot(sl, v); note("task %d: %s moved to a related value %s", t.id, x.key.c_str(), nums(v.data(), x.size()).c_str()); break; }
        case FW: case XFW: { Rep* r = rep(t, o.r); if (!r) return; Fault f; if (o.kind == XFW) f = fault_at(mix64(o.r), alloc_fault_mode() ? r->fallocs : r->fuser); save_adj(t); pass(t, *r, 1, o.r, f); break; }
        case BW: case XBW: { Rep* r = rep(t, o.r); if (!r || !r->fresh || (t.opassign && r->bcount)) return; Fault f; if (o.kind == XBW) f = fault_at(mix64(o.r), alloc_fault_mode() ? r->ballocs : r->buser); save_adj(t); pass(t, *r, 2, o.r, f); break; }
        case FBW: { Rep* r = rep(t, o.r); if (!r) return; Fault f; if (o.b) f = fault_at(mix64(o.r), alloc_fault_mode() ? r->fallocs + r->ballocs : r->fuser + r->buser); save_adj(t);
            // for arrays autodiff returns a view; a compound assignment at the root is rolled back under it (its value is then not judged)
            if (t.opassign && r->in->kind != SCL && mix64(o.r + 77) % 4 == 0) { pass(t, *r, 1, o.r, f); if (!r->fresh) break; save_adj(t); pass(t, *r, 2, o.r, Fault()); }
            else pass(t, *r, 3, o.r, f);
            break; }
        case MANY: { Rep* r = rep(t, o.r); if (!r) return; many(t, *r, o.r, o.b); break; }
        case RESET: { int sl = pick_slot(t, o.r); if (sl < 0) return; reset_slot(sl); note("reset adjoint of %s", slots[sl].key.c_str()); break; }
        case RESETALL: for (size_t i = 0; i < slots.size(); ++i) reset_slot(i); note("reset all adjoints"); break;
        case REBIND: { Rep* r = rep(t, o.r); if (!r || r->mode == 2) return; bind_rep(t, *r, mix64(o.r)); note("task %d: bound to other storage", t.id); frame("binding", {}, {}, r); break; }
        case SCRIBBLE: { Rep* r = rep(t, o.r); if (!r || r->mode == 2) return; fill_block(r->bv, mix64(o.r) | 1); fill_block(r->ba, mix64(o.r + 1) | 1); keep(r->bv); keep(r->ba); r->fresh = false; r->outok = false; note("task %d: storage overwritten with garbage", t.id); break; }
        case RECREATE: {
            while (!t.reps.empty()) drop_rep(t, (o.r >> 7) % t.reps.size());
            build_consts(t); start_task(t, mix64(o.r + 3)); note("task %d: destroyed and rebuilt", t.id); frame("rebuilding", {}, {}, nullptr); break; }
        case KVSET: {
            if (t.views.empty() || t.p->has("stat")) return; size_t i = (o.r >> 9) % t.views.size(); ConstSlot* c = t.views[i];
            size_t q = 0; std::string dom = "real"; for (auto& l : t.p->spec) if (l.cls == 'k' && q++ == i) dom = l.dom;
            sample(g, dom, c->kind, c->r, c->c, c->r, c->data.data()); if (wild && !c->data.empty() && g.chance(0.1)) c->data[g.below((uint32_t)c->data.size())] = __builtin_nan("");
            for (auto& kv : views) if (kv.second.get() == c) view_shadow[kv.first] = c->data;
            for (auto& u : tasks) if (in_views(u, c)) invalidate(u);
            note("task %d: new data streamed through the viewed buffer", t.id); break; }
        case CSET: { if (t.consts.empty()) return; auto& c = *t.consts[(o.r >> 9) % t.consts.size()]; for (auto& x : c.data) x = g.range(-50, 50); note("task %d: the object a constant was made from is overwritten", t.id); break; }
        case CLONE: case XCLONE: case ADDREP: {
            Rep* r = rep(t, o.r); if (!r || t.reps.size() >= 4) return; Inst* p = nullptr; long live0 = alloc::st.live; Fault f; if (o.kind == XCLONE) f = fault_at(mix64(o.r), alloc_fault_mode() ? 6 : s.k("uspan", 40));
            bool own = r->mode == 2; int mode = r->mode;
            bool done = guarded(f, "copying an expression", [&] { p = own || !(o.r & 1) || o.kind != XCLONE ? r->in->copy() : r->in->to_bound(); });
            if (!done) { if (alloc::st.live != live0) fail("leak", fmt("a failed copy of %s leaks %ld blocks", t.p->name, alloc::st.live - live0)); frame("failed copy", {}, {}, nullptr); note("task %d: copy failed", t.id); break; }
            if (p->bound) mode = 2;
            add_rep(t, p, mode, mix64(o.r + 5)); note("task %d: expression copied", t.id); frame("copying an expression", {}, {}, nullptr); break; }
        case MOVE: { Rep* r = rep(t, o.r); if (!r) return; Inst* p; { alloc::Scope sc; p = r->in->move(); } zombies.push_back(std::move(r->in)); r->in.reset(p); if (o.r & 2) { alloc::Scope sc; zombies.clear(); } note("task %d: expression moved", t.id); frame("moving an expression", {}, {}, nullptr); break; }
        case CHURN: { Rep* r = rep(t, o.r); if (!r || r->mode != 2) return; Inst* p; { alloc::Scope sc; p = r->in->churn((int)(o.r >> 3 & 63)); } { alloc::Scope sc; r->in.reset(p); } r->fresh = false; r->outok = false; note("task %d: expression passed through containers and returns", t.id); frame("moving an expression", {}, {}, nullptr); break; }
        case ASSIGN: {      // between bound expressions of one type, possibly over other variables and sizes
            Rep* r = rep(t, o.r); if (!r || r->mode != 2) return;
            std::vector<std::pair<Task*, size_t>> c; for (auto& u : tasks) if (u.p == t.p) for (size_t i = 0; i < u.reps.size(); ++i) if (u.reps[i]->mode == 2) c.push_back({&u, i});
            Task& u = *c[(o.r >> 10) % c.size()].first; size_t qi = c[(o.r >> 10) % c.size()].second; Rep* q = u.reps[qi].get(); int how = (int)(o.r >> 4 & 3) % 3; if (q == r) how = 0;
            if (how < 2 && &u != &t && (t.reps.size() < 2 || u.reps.size() >= 4)) how = 2;
            if (how == 1 && t.reps.size() < 2) how = 2;
            long live0 = alloc::st.live; Fault f; if (o.b) f = fault_at(mix64(o.r), alloc_fault_mode() ? 6 : s.k("uspan", 40));
            bool done = guarded(f, "assigning an expression", [&] { r->in->assign(*q->in, how); });
            if (!done) { if (alloc::st.live != live0) fail("leak", fmt("a failed assignment of %s leaks %ld blocks", t.p->name, alloc::st.live - live0)); frame("failed assignment", {}, {}, nullptr); note("task %d: assignment failed", t.id); break; }
            size_t ri = 0; while (t.reps[ri].get() != r) ++ri;
            if (how == 2) std::swap(r->in, q->in);
            else if (how == 1) { std::swap(r->in, q->in); zombies.push_back(std::move(r->in)); t.reps.erase(t.reps.begin() + ri); if (o.r & 2) { alloc::Scope sc; zombies.clear(); } }
            else if (&u != &t) { std::unique_ptr<Inst> p = std::move(r->in); t.reps.erase(t.reps.begin() + ri); add_rep(u, p.release(), 2, mix64(o.r + 7)); }
            else { r->fresh = false; r->outok = false; }
            note("task %d: expression %s one of task %d", t.id, how == 2 ? "swapped with" : how ? "move-assigned from" : "copy-assigned from", u.id); frame("assigning an expression", {}, {}, nullptr); break; }
        case DROPREP: { if (t.reps.size() < 2) return; drop_rep(t, (o.r >> 40) % t.reps.size()); note("task %d: one copy destroyed", t.id); frame("destroying an expression", {}, {}, nullptr); break; }
        case ZOMBIE: { alloc::Scope sc; zombies.clear(); break; }
        case NOISE: { long l0 = alloc::st.live; noise(o.r); if (alloc::st.live != l0) fail("leak", "unrelated expressions leak"); frame("an unrelated expression", {}, {}, nullptr); break; }
        case VASSIGN: {   // assign a whole variable from another of the same shape: value and adjoint
            int sl = pick_slot(t, o.r); if (sl < 0) return; Slot& x = slots[sl]; SlotObj tmp(x.kind, x.r, x.c); sample(g, x.dom, x.kind, x.r, x.c, x.n, tmp.val());
            for (int i = 0; i < x.size(); ++i) tmp.adj()[i] = g.range(-1, 1);
            { alloc::Scope sc; if (x.kind == SCL) *x.o->s = *tmp.s; else if (x.kind == VEC) *x.o->v = *tmp.v; else *x.o->m = *tmp.m; }
            for (int i = 0; i < x.size(); ++i) { if (!same_bits(x.o->val()[i], tmp.val()[i]) || !same_bits(x.o->adj()[i], tmp.adj()[i])) fail("assign", "assigning a variable did not copy its value and adjoint"); x.led[i] = D(tmp.adj()[i]); x.mag[i] = std::fabs(x.led[i]); }
            sync(x); x.taint = false; x.bad = false; invalidate_slot(sl); note("variable %s assigned from another", x.key.c_str()); break; }
        case XBUILD: case XBIND: {
            long live0 = alloc::st.live; std::unique_ptr<Inst> p;
            Fault f = fault_at(mix64(o.r), alloc_fault_mode() ? t.ballocs_build + (o.kind == XBIND ? 2 : 0) : t.user_build);
            bool done = guarded(f, "building an expression", [&] { p.reset(t.p->make(t.fb)); if (o.kind == XBIND) { Inst* b = p->to_bound(); p.reset(b); } });
            { alloc::Scope sc; p.reset(); }
            if (alloc::st.live != live0) fail("leak", fmt("%s construction of %s leaks %ld blocks", done ? "a discarded" : "a failed", t.p->name, alloc::st.live - live0));
            frame("building an expression", {}, {}, nullptr); note("task %d: %s", t.id, done ? "temporary expression built" : "construction failed, nothing changed"); break; }
        case XCOPYVAR: {
            int sl = pick_slot(t, o.r); if (sl < 0) return; Slot& x = slots[sl]; long live0 = alloc::st.live; std::unique_ptr<SlotObj> c; Fault f = fault_at(mix64(o.r), 3);
            bool done = guarded(f, "copying a variable", [&] { c = x.o->copy(); });
            if (done) for (int i = 0; i < x.size(); ++i) if (!same_bits(c->val()[i], x.val[i]) || !same_bits(c->adj()[i], x.adj[i])) fail("copy", "a copied variable differs from its source");
            if (done) for (int i = 0; i < x.size(); ++i) { c->val()[i] = Num(5.5); c->adj()[i] = Num(-5.5); }
            frame("writing to a copy of a variable", {}, {}, nullptr);
            { alloc::Scope sc; c.reset(); }
            if (alloc::st.live != live0) fail("leak", fmt("copying a variable leaks %ld blocks", alloc::st.live - live0));
            frame("copying a variable", {}, {}, nullptr); break; }
        }
    }
    bool in_views(Task& u, ConstSlot* c) { return std::find(u.views.begin(), u.views.end(), c) != u.views.end(); }

    Result run() {
        pool.init(); std::fill(pool.used.begin(), pool.used.end(), 0);
        alloc::st.fill = s.env.fill; alloc::st.corrupt = 0; alloc::disarm(); fault::disarm();
        wild = s.k("wild", 1); poison = s.k("poison", 1); fresh_check = s.k("fresh", 1); cross = s.k("cross", 0);
        long live0 = alloc::st.live;
        try {
            for (Arena* a : {&av, &aa}) { a->buf.assign(60000 + 64, pat_num(s.env.fill)); size_t cur = ((uintptr_t)a->buf.data() / sizeof(Num)) % 8; a->base = a->buf.data() + (8 - cur) % 8 + 8 * s.env.pad; a->used = s.k("shift", 0); }
            tasks.resize(s.tasks.size());
            for (size_t i = 0; i < s.tasks.size(); ++i) if (s.tasks[i].prog >= 0) make_task((int)i);
            for (size_t i = 0; i < s.tasks.size(); ++i) if (tasks[i].alive) start_task(tasks[i], mix64(s.tasks[i].r + 9));
            frame("building expressions", {}, {}, nullptr);
            for (size_t i = 0; i < s.ops.size(); ++i) { step = (int)i; run_op(s.ops[i]); st.inc("steps"); if (s.ops[i].kind == FW || s.ops[i].kind == BW || s.ops[i].kind == FBW) marks.push_back(h.h); }
            step = (int)s.ops.size();
            { alloc::Scope sc; zombies.clear(); }
            Rng g(s.seed ^ 0xdead);
            for (;;) { std::vector<int> left; for (auto& t : tasks) if (!t.reps.empty()) left.push_back(t.id); if (left.empty()) break; Task& t = tasks[left[g.below((uint32_t)left.size())]]; drop_rep(t, g.below((uint32_t)t.reps.size())); if (g.chance(0.2)) frame("destroying an expression", {}, {}, nullptr); }
            frame("destroying the expressions", {}, {}, nullptr);
            { alloc::Scope sc; while (!slots.empty()) { size_t i = g.below((uint32_t)slots.size()); std::swap(slots[i], slots.back()); slots.pop_back(); } }
            for (auto& b : old_blocks) give(b.first);
            if (alloc::st.live != live0) fail("leak", fmt("%ld heap blocks are left after everything was destroyed", alloc::st.live - live0));
            if (alloc::st.corrupt) fail("heap-overrun", "a heap block was damaged");
        } catch (const Stop&) {
        } catch (const Violation& v) { res.ok = false; res.cls = v.cls; res.msg = v.msg; res.at = step; }
        res.hash = h.h; return res;
    }
    std::vector<uint64_t> marks;
};
#ifdef NUM_SIM
Num World::poison_value() { fault::bomb = true; return bomb_value(); }
#else
Num World::poison_value() { return __builtin_nan(""); }
#endif
} // namespace

Result world_exec(const Spec& s, Stats& st, bool log) {
    if (s.profile == "C14") {
        // the same history in several environments
        static const uint64_t fills[] = {0x7ff4dead7ff4deadull, 0x0000000000000000ull, 0x3ff8000000000000ull, 0xc05a8ba3d70a3d71ull, 0x7fefffffffffffffull};
        Result first; std::vector<uint64_t> m0; Rng g(s.seed ^ 0xe17);
        for (int i = 0; i < 4; ++i) {
            Spec t = s; t.profile = "C14w"; t.env.fill = fills[(i + g.below(2)) % 5]; t.env.pad = i ? (int)g.below(5) : 0; t.env.noise = i >= 2 ? i * 7 + (int)g.below(100) : 0;
            World* w = new World(t, st, log && i == 0); Result r = w->run(); std::vector<uint64_t> m = w->marks; delete w;
            st.inc("env.executions");
            if (i == 0) { first = r; m0 = m; if (!r.ok && (r.cls == "harness" || r.cls == "exception")) return r; continue; }
            size_t q = 0; while (q < m.size() && q < m0.size() && m[q] == m0[q]) ++q;
            if (q < std::max(m.size(), m0.size())) { first.ok = false; first.cls = "environment"; first.msg = World::fmt("pass %zu gives different bits when only the environment (heap contents, addresses, unrelated activity) differs", q); first.at = (int)q; return first; }
        }
        first.ok = true; first.cls.clear(); first.msg.clear();
        return first;
    }
    World* w = new World(s, st, log); Result r = w->run(); delete w; return r;
}
