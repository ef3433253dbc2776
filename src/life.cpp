// Lifetimes of variables: a history of constructions, copies, moves, assignments, container operations,
// sub-views and expressions over them, with allocation failures, against a value-semantics model.
#include "engine.hpp"
#include "alloc.hpp"
#include <fastad>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <tuple>

namespace {
using VS = ad::Var<double, ad::scl>; using VV = ad::Var<double, ad::vec>; using VM = ad::Var<double, ad::mat>;
using WS = ad::VarView<double, ad::scl>; using WV = ad::VarView<double, ad::vec>; using WM = ad::VarView<double, ad::mat>;
enum Op { NEW, COPY, MOVE, ASSIGN, MASSIGN, CHAIN, SWAP, DESTROY, WRITE, WRITEADJ, RESETADJ, FILLS, VIEW, VIEWWRITE, VIEWRESET, VIEWDROP,
          EXPR, EVAL, EXDROP, PUSH, PULL, BOXOP, BOXCOPY, AGGREGATE, BYVALUE, NOPS };
const char* names[] = {"construct", "copy-construct", "move-construct", "copy-assign", "move-assign", "chained-assign", "swap", "destroy", "write-values", "write-adjoints", "reset-adjoint",
    "fill", "take-subview", "write-through-subview", "reset-subview-adjoint", "drop-subview", "build-expression", "evaluate-expression", "drop-expression", "put-into-container", "take-from-container",
    "rearrange-container", "copy-container", "copy-aggregate", "pass-by-value"};
const int NS = 8, NB = 2, NV = 8, NE = 5;

struct M { int kind = 0, r = 1, c = 1; std::vector<double> val, adj; int size() const { return r * c; } };
bool bits(double a, double b) { if (a != a && b != b) return true; return std::memcmp(&a, &b, 8) == 0; }
template <class V> struct KindOf; template <> struct KindOf<VS> { static const int v = 0; }; template <> struct KindOf<VV> { static const int v = 1; }; template <> struct KindOf<VM> { static const int v = 2; };
template <class V> V fresh(int r, int c) { if constexpr (KindOf<V>::v == 0) return V(); else if constexpr (KindOf<V>::v == 1) return V((size_t)r); else return V((size_t)r, (size_t)c); }

struct Life {
    const Spec& s; Stats& st; bool logging; Result res; Hash h; int step = -1;
    struct alignas(64) Cell { unsigned char b[192]; };
    std::vector<Cell> slab = std::vector<Cell>(NS);
    struct Slot { int state = 0; uint64_t gen = 0; M m; } slot[NS];
    struct View { bool on = false; int sl = 0; uint64_t gen = 0; int off = 0, len = 0, kind = 0; WS s; WV v{nullptr, nullptr, 0}; WM m{nullptr, nullptr, 0, 0}; } view[NV];
    template <class V> struct Box { std::vector<V> v; std::vector<M> m; int r = 1, c = 1; uint64_t gen = 0; };
    Box<VS> bs[NB]; Box<VV> bv[NB]; Box<VM> bm[NB];
    struct Ex { bool on = false; int type = 0; int a = -1, b = -1, box = -1; uint64_t ga = 0, gb = 0, gbox = 0; std::function<double(double)> run; } ex[NE];

    Life(const Spec& sp, Stats& x, bool l) : s(sp), st(x), logging(l) { static_assert(sizeof(VM) <= sizeof(Cell) && sizeof(VV) <= sizeof(Cell), ""); }
    [[noreturn]] void fail(const char* c, const std::string& m) { throw Violation{c, m}; }
    template <class... A> static std::string fmt(const char* f, A... a) { char b[400]; snprintf(b, sizeof b, f, a...); return b; }
    void note(const std::string& m) { if (logging) res.log.push_back(fmt("%3d ", step) + m); }

    template <class F> auto with(int i, F f) { void* p = &slab[i]; switch (slot[i].m.kind) { case 0: return f(*(VS*)p); case 1: return f(*(VV*)p); default: return f(*(VM*)p); } }
    bool live(int i) { return slot[i].state == 1; }
    bool same_shape(int i, int j) { return slot[i].m.kind == slot[j].m.kind && slot[i].m.r == slot[j].m.r && slot[i].m.c == slot[j].m.c; }
    void bump(int i) { ++slot[i].gen; }

    // ---- oracle ------------------------------------------------------------------------------
    struct Span { const double* p; size_t n; std::string who; };
    template <class V> void match(const V& cv, const M& m, const std::string& who, std::vector<Span>& sp) {
        V& v = const_cast<V&>(cv);
        if ((int)v.rows() != m.r || (int)v.cols() != m.c || (int)v.size() != m.size()) fail("shape", who + fmt(" reports %zux%zu", (size_t)v.rows(), (size_t)v.cols()));
        for (int i = 0; i < m.size(); ++i) {
            double x = v.data()[i], a = v.data_adj()[i];
            if (!bits(x, m.val[i])) fail("value", who + fmt("[%d] holds %.17g, should hold %.17g", i, x, m.val[i]));
            if (!bits(a, m.adj[i])) fail("adjoint", who + fmt("[%d] has adjoint %.17g, should have %.17g", i, a, m.adj[i]));
            int r = i % m.r, c = i / m.r;
            if (!bits(v.get(r, c), m.val[i]) || !bits(cv.get(r, c), m.val[i]) || !bits(v.get_adj(r, c), m.adj[i]) || !bits(cv.get_adj(r, c), m.adj[i])) fail("value", who + fmt("[%d] reads differently through get", i));
            h.bits(x); h.bits(a);
        }
        if (m.size()) { sp.push_back({v.data(), (size_t)m.size(), who}); sp.push_back({v.data_adj(), (size_t)m.size(), who + " (adjoint)"}); }
    }
    template <class V> void match_box(Box<V>& b, int i, std::vector<Span>& sp) {
        if (b.v.size() != b.m.size()) fail("container", "container sizes differ");
        for (size_t j = 0; j < b.v.size(); ++j) match(b.v[j], b.m[j], fmt("element %zu of container %d/%d", j, KindOf<V>::v, i), sp);
    }
    bool view_ok(const View& w) { return w.on && live(w.sl) && slot[w.sl].gen == w.gen; }
    void check() {
        std::vector<Span> sp;
        for (int i = 0; i < NS; ++i) if (live(i)) with(i, [&](auto& v) { match(v, slot[i].m, fmt("variable %d", i), sp); });
        for (int i = 0; i < NB; ++i) { match_box(bs[i], i, sp); match_box(bv[i], i, sp); match_box(bm[i], i, sp); }
        std::sort(sp.begin(), sp.end(), [](const Span& a, const Span& b) { return a.p < b.p; });
        for (size_t i = 1; i < sp.size(); ++i) if (sp[i - 1].p + sp[i - 1].n > sp[i].p) fail("shared-storage", sp[i - 1].who + " and " + sp[i].who + " share storage");
        for (int i = 0; i < NV; ++i) if (view_ok(view[i])) {
            View& w = view[i]; const M& m = slot[w.sl].m; size_t n = w.kind == 0 ? w.s.size() : w.kind == 1 ? w.v.size() : w.m.size();
            if ((int)n != w.len) fail("subview", fmt("sub-view %d has %zu elements instead of %d", i, n, w.len));
            double* p = w.kind == 0 ? w.s.data() : w.kind == 1 ? w.v.data() : w.m.data(); double* a = w.kind == 0 ? w.s.data_adj() : w.kind == 1 ? w.v.data_adj() : w.m.data_adj();
            double *vp = nullptr, *va = nullptr; with(w.sl, [&](auto& v) { vp = v.data(); va = v.data_adj(); });
            for (int j = 0; j < w.len; ++j) if (!bits(p[j], m.val[w.off + j]) || !bits(a[j], m.adj[w.off + j])) fail("subview", fmt("sub-view %d element %d reads %.17g/%.17g, the variable holds %.17g/%.17g", i, j, p[j], a[j], m.val[w.off + j], m.adj[w.off + j]));
            if (w.len && (p != vp + w.off || a != va + w.off)) fail("subview", fmt("sub-view %d does not alias its variable", i));
        }
        if (alloc::st.corrupt) fail("heap-overrun", "a heap block was damaged or freed twice");
        ++res.judged;
    }

    // ---- helpers -------------------------------------------------------------------------------
    void destroy(int i) { alloc::Scope sc; with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; v.~V(); }); memset(&slab[i], 0xA5, sizeof(Cell)); slot[i].state = 0; bump(i); }
    template <class V, class A> bool make(int i, A a) { alloc::Scope sc; new (&slab[i]) V(a()); return true; }
    double rnd(Rng& g) { return g.chance(0.1) ? (g.chance(0.5) ? 0.0 : g.chance(0.5) ? -0.0 : HUGE_VAL) : g.range(-3, 3); }
    // f under a possibly injected allocation failure; true if it completed
    template <class F> bool guarded(Rng& g, int span, const char* what, F f, bool keeps = true) {
        bool inj = !s.k("nofault", 0) && g.chance(s.k("pfault", 25) * 0.01); long live0 = alloc::st.live;
        alloc::arm(inj ? (long)g.below(span) : -1, 0); bool done = false; std::string odd;
        try { alloc::Scope sc; f(); done = true; } catch (const std::bad_alloc&) { if (!alloc::st.fired) odd = "std::bad_alloc without an allocation failure"; } catch (const std::exception& e) { odd = e.what(); }
        bool fired = alloc::st.fired; alloc::disarm();
        if (!odd.empty()) fail("exception", std::string(what) + ": " + odd);
        if (done && fired) fail("swallowed", std::string(what) + " completed although an allocation failed inside it");
        if (!done) { st.inc(std::string("fault.alloc:") + what); if (keeps && alloc::st.live != live0) fail("leak", fmt("a failed %s leaks %ld blocks", what, alloc::st.live - live0)); note(std::string("   allocation failed in ") + what); }
        return done;
    }
    int pick(uint64_t r) { return (int)(r % NS); }
    M blank(int k, int r, int c) { M m; m.kind = k; m.r = r; m.c = c; m.val.assign(r * c, 0); m.adj.assign(r * c, 0); return m; }

    template <class V> Box<V>& box(int i) { if constexpr (KindOf<V>::v == 0) return bs[i]; else if constexpr (KindOf<V>::v == 1) return bv[i]; else return bm[i]; }

    template <class V> void box_op(Rng& g, Box<V>& b) {
        size_t n = b.v.size();
        switch (g.below(8)) {
        case 0: if (n) { size_t i = g.below(n); { alloc::Scope sc; b.v.erase(b.v.begin() + i); } b.m.erase(b.m.begin() + i); ++b.gen; } break;
        case 1: { alloc::Scope sc; std::reverse(b.v.begin(), b.v.end()); } std::reverse(b.m.begin(), b.m.end()); ++b.gen; break;
        case 2: if (n > 1) { size_t i = 1 + g.below(n - 1); { alloc::Scope sc; std::rotate(b.v.begin(), b.v.begin() + i, b.v.end()); } std::rotate(b.m.begin(), b.m.begin() + i, b.m.end()); ++b.gen; } break;
        case 3: if (b.r * b.c) { auto key = [](double x) { return x == x ? x : 0.0; };
            { alloc::Scope sc; std::stable_sort(b.v.begin(), b.v.end(), [&](const V& x, const V& y) { return key(x.data()[0]) < key(y.data()[0]); }); }
            std::stable_sort(b.m.begin(), b.m.end(), [&](const M& x, const M& y) { return key(x.val[0]) < key(y.val[0]); }); ++b.gen; } break;
        case 4: if (n > 1) { size_t i = g.below(n), j = g.below(n); if (i != j) { { alloc::Scope sc; std::swap(b.v[i], b.v[j]); } std::swap(b.m[i], b.m[j]); ++b.gen; } } break;
        case 5: { size_t want = n + g.below(6); guarded(g, 6, "container growth", [&] { b.v.reserve(want); }); ++b.gen; break; }
        case 6: if (n > 1) { size_t i = g.below(n), j = g.below(n); b.v[i] = b.v[j]; b.m[i] = b.m[j]; } break;     // copy-assign: expressions keep seeing it
        default: { alloc::Scope sc; b.v.shrink_to_fit(); } ++b.gen; break;
        }
    }
    // ---- steps ------------------------------------------------------------------------------------
    void run_op(const OpRec& o) {
        Rng g(o.r); int i = pick(o.a), j = pick(o.b), k = (int)(o.r >> 40) % NS; st.inc(std::string("op.") + names[o.kind]);
        switch (o.kind) {
        case NEW: { if (slot[i].state) return; int kind = g.chance(0.6) ? (int)s.k("kind") : (int)g.below(3), r = kind ? (g.chance(0.03) ? 0 : 1 + g.below(4)) : 1, c = kind == 2 ? 1 + g.below(3) : 1; if (r && g.chance(0.6) && kind) { r = 2; c = kind == 2 ? 2 : 1; }
            double init = kind == 0 && g.chance(0.4) ? rnd(g) : 0; bool has = kind == 0 && init != 0;
            slot[i].m = blank(kind, r, c); if (has) slot[i].m.val[0] = init;
            bool ok = guarded(g, 3, "variable construction", [&] { if (kind == 0) { if (has) new (&slab[i]) VS(init); else new (&slab[i]) VS(); } else if (kind == 1) new (&slab[i]) VV((size_t)r); else new (&slab[i]) VM((size_t)r, (size_t)c); });
            if (ok) { slot[i].state = 1; bump(i); } note(fmt("variable %d: new %s %dx%d", i, kind == 0 ? "scalar" : kind == 1 ? "vector" : "matrix", r, c)); break; }
        case COPY: { if (!live(i) || slot[j].state) return; bool ok = with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; return guarded(g, 3, "variable copy", [&] { new (&slab[j]) V(v); }); });
            if (ok) { slot[j].m = slot[i].m; slot[j].state = 1; bump(j); } note(fmt("variable %d: copy of %d", j, i)); break; }
        case MOVE: { if (!live(i) || slot[j].state) return; bool ok = with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; return guarded(g, 3, "variable move", [&] { new (&slab[j]) V(std::move(v)); }); });
            if (ok) { slot[j].m = slot[i].m; slot[j].state = 1; bump(j); slot[i].state = 2; bump(i); } note(fmt("variable %d: moved from %d", j, i)); break; }
        case ASSIGN: { if (!slot[i].state || !live(j) || !same_shape(i, j)) return; bool was = live(i);
            bool ok = with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; return guarded(g, 3, "variable assignment", [&] { V& back = (v = *(V*)(void*)&slab[j]); if (&back != &v) fail("assign", "assignment does not return its target"); }, was); });
            if (ok) { slot[i].m = slot[j].m; slot[i].state = 1; if (!was) bump(i); } note(fmt("variable %d = %d", i, j)); break; }
        case MASSIGN: { if (!slot[i].state || !live(j) || !same_shape(i, j)) return; bool ok;
            if (o.r >> 50 & 1) ok = with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; return guarded(g, 3, "assignment from a temporary", [&] { v = V(*(V*)(void*)&slab[j]); }); });
            else { ok = with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; return guarded(g, 3, "move assignment", [&] { V& src = *(V*)(void*)&slab[j]; v = std::move(src); }, false); }); if (ok && i != j) { slot[j].state = 2; bump(j); } }
            if (ok) { if (i != j || (o.r >> 50 & 1)) { slot[i].m = slot[j].m; bump(i); } slot[i].state = 1; } note(fmt("variable %d = move(%d)", i, j)); break; }
        case CHAIN: { if (!live(i) || !live(j) || !live(k) || !same_shape(i, j) || !same_shape(j, k)) return; bool left = o.r >> 51 & 1;
            with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; alloc::Scope sc; V& b = *(V*)(void*)&slab[j]; V& c = *(V*)(void*)&slab[k]; if (left) (v = b) = c; else v = b = c; });
            if (left) { slot[i].m = slot[j].m; slot[i].m = slot[k].m; } else { slot[j].m = slot[k].m; slot[i].m = slot[j].m; } note(fmt("chained assignment of %d, %d, %d", i, j, k)); break; }
        case SWAP: { if (!live(i) || !live(j) || i == j || !same_shape(i, j)) return; with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; alloc::Scope sc; std::swap(v, *(V*)(void*)&slab[j]); }); std::swap(slot[i].m, slot[j].m); bump(i); bump(j); note(fmt("swap %d, %d", i, j)); break; }
        case DESTROY: if (!slot[i].state) return; destroy(i); note(fmt("variable %d destroyed", i)); break;
        case WRITE: case WRITEADJ: { if (!live(i) || !slot[i].m.size()) return; M& m = slot[i].m; int q = g.below(m.size()), how = g.below(3); bool all = g.chance(0.5), adj = o.kind == WRITEADJ;
            for (int e = all ? 0 : q; e < (all ? m.size() : q + 1); ++e) { double x = rnd(g); (adj ? m.adj : m.val)[e] = x;
                with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; if (how == 0) (adj ? v.data_adj() : v.data())[e] = x; else if (how == 1) (adj ? v.get_adj(e % m.r, e / m.r) : v.get(e % m.r, e / m.r)) = x;
                    else if constexpr (KindOf<V>::v == 0) (adj ? v.get_adj() : v.get()) = x; else (adj ? v.get_adj() : v.get())(e % m.r, e / m.r) = x; }); }
            note(fmt("variable %d: %s written", i, adj ? "adjoint" : "value")); break; }
        case RESETADJ: if (!live(i)) return; with(i, [&](auto& v) { v.reset_adj(); }); std::fill(slot[i].m.adj.begin(), slot[i].m.adj.end(), 0.0); note(fmt("variable %d: adjoint reset", i)); break;
        case FILLS: { if (!live(i)) return; M& m = slot[i].m; int f = g.below(4); with(i, [&](auto& v) { if (f == 0) v.zero(); else if (f == 1) v.ones(); else if (f == 2) v.zero_adj(); else v.ones_adj(); });
            auto& w = f < 2 ? m.val : m.adj; std::fill(w.begin(), w.end(), f & 1 ? 1.0 : 0.0); note(fmt("variable %d: filled", i)); break; }
        case VIEW: { View& w = view[o.b % NV]; if (!live(i)) return; M& m = slot[i].m; w.on = true; w.sl = i; w.gen = slot[i].gen;
            if (m.kind == 0) { w.kind = 0; w.off = 0; w.len = 1; w.s = WS(*(VS*)(void*)&slab[i]); }
            else if (m.kind == 2) { w.kind = 2; w.off = 0; w.len = m.size(); new (&w.m) WM(*(VM*)(void*)&slab[i]); }
            else { VV& v = *(VV*)(void*)&slab[i]; int n = m.size();
                switch (g.below(5)) {
                case 0: if (!n) { w.on = false; return; } w.kind = 0; w.off = g.below(n); w.len = 1; w.s = o.r >> 60 & 1 ? v[w.off] : v(w.off); break;
                case 1: w.kind = 1; w.len = g.below(n + 1); w.off = 0; new (&w.v) WV(v.head(w.len)); break;
                case 2: w.kind = 1; w.len = g.below(n + 1); w.off = n - w.len; new (&w.v) WV(v.tail(w.len)); break;
                case 3: { int a = g.below(n + 1), b = g.below(a + 1); w.kind = 1; w.len = b; w.off = n - a; new (&w.v) WV(v.tail(a).head(b)); break; }
                default: { int a = g.below(n + 1); if (!a) { w.on = false; return; } int b = g.below(a); w.kind = 0; w.len = 1; w.off = b; w.s = v.head(a)(b); break; }
                } }
            note(fmt("sub-view %d of variable %d: [%d, %d)", (int)(o.b % NV), i, w.off, w.off + w.len)); break; }
        case VIEWWRITE: { View& w = view[o.b % NV]; if (!view_ok(w) || !w.len) return; M& m = slot[w.sl].m; int e = g.below(w.len); double x = rnd(g), y = rnd(g); m.val[w.off + e] = x; m.adj[w.off + e] = y;
            if (w.kind == 0) { w.s.get() = x; w.s.get_adj() = y; } else if (w.kind == 1) { w.v.get()(e) = x; w.v.get_adj()(e) = y; } else { w.m.data()[e] = x; w.m.data_adj()[e] = y; } note(fmt("written through sub-view %d", (int)(o.b % NV))); break; }
        case VIEWRESET: { View& w = view[o.b % NV]; if (!view_ok(w)) return; M& m = slot[w.sl].m; if (w.kind == 0) w.s.reset_adj(); else if (w.kind == 1) w.v.reset_adj(); else w.m.reset_adj(); for (int e = 0; e < w.len; ++e) m.adj[w.off + e] = 0; note(fmt("adjoint reset through sub-view %d", (int)(o.b % NV))); break; }
        case VIEWDROP: view[o.b % NV].on = false; break;
        case EXPR: { Ex& e = ex[o.b % NE]; { alloc::Scope sc; e.run = nullptr; } e.on = false; if (!live(i)) return; M& m = slot[i].m; if (!m.size()) return; e.a = i; e.ga = slot[i].gen; e.b = -1; e.box = -1;
            alloc::Scope sc; int t = g.below(5);
            if (t == 4 && !bs[i % NB].v.empty()) { e.type = 4; e.a = -1; e.box = i % NB; e.gbox = bs[e.box].gen; auto x = ad::sum(bs[e.box].v.begin(), bs[e.box].v.end(), [](const VS& y) { return y * y; }); auto b = std::make_shared<decltype(ad::bind(x))>(ad::bind(x)); e.run = [b](double sd) { return (double)ad::autodiff(*b, sd); }; e.on = true; }
            else if (t >= 2 && live(k) && k != i && same_shape(i, k)) { e.type = t; e.b = k; e.gb = slot[k].gen;
                with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; V& y = *(V*)(void*)&slab[k];
                    if (t == 2) { auto x = ad::sum(v * y); auto b = std::make_shared<decltype(ad::bind(x))>(ad::bind(x)); e.run = [b](double sd) { return (double)ad::autodiff(*b, sd); }; }
                    else { auto x = (v = y * y, ad::sum(v)); auto b = std::make_shared<decltype(ad::bind(x))>(ad::bind(x)); e.run = [b](double sd) { return (double)ad::autodiff(*b, sd); }; e.type = 3; } }); e.on = true; }
            else { e.type = 1; with(i, [&](auto& v) { auto x = ad::sum(v * v); auto b = std::make_shared<decltype(ad::bind(x))>(ad::bind(x)); e.run = [b](double sd) { return (double)ad::autodiff(*b, sd); }; }); e.on = true; }
            note(fmt("expression %d built over variable %d", (int)(o.b % NE), i)); break; }
        case EVAL: { auto fits = [&](Ex& e) { return e.on && !(e.a >= 0 && (!live(e.a) || slot[e.a].gen != e.ga)) && !(e.b >= 0 && (!live(e.b) || slot[e.b].gen != e.gb)) && !(e.box >= 0 && bs[e.box].gen != e.gbox); };
            int at = o.b % NE; for (int q = 0; q < NE && !fits(ex[at]); ++q) at = (at + 1) % NE; Ex& e = ex[at]; if (!fits(e)) return;
            double sd = g.chance(0.4) ? 1 : g.range(-2, 2), want = 0, mag = 0; std::vector<double*> where; std::vector<double> add;
            auto put = [&](double& a, double d) { where.push_back(&a); add.push_back(d); };
            if (e.type == 4) for (auto& m : bs[e.box].m) { want += m.val[0] * m.val[0]; put(m.adj[0], 2 * m.val[0] * sd); }
            else { M& A = slot[e.a].m; M* B = e.b >= 0 ? &slot[e.b].m : nullptr;
                if (e.type == 3) { with(e.a, [&](auto& v) { v.reset_adj(); }); std::fill(A.adj.begin(), A.adj.end(), 0.0); }
                for (int q = 0; q < A.size(); ++q) { if (e.type == 1) { want += A.val[q] * A.val[q]; put(A.adj[q], 2 * A.val[q] * sd); } else if (e.type == 2) { want += A.val[q] * B->val[q]; put(A.adj[q], B->val[q] * sd); put(B->adj[q], A.val[q] * sd); }
                    else { double y = B->val[q]; A.val[q] = y * y; want += y * y; put(A.adj[q], sd); put(B->adj[q], 2 * y * sd); } mag += std::fabs(A.val[q]); } }
            double got; { alloc::Scope sc; got = e.run(sd); }
            auto near = [](double a, double b) { return (a != a && b != b) || a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); };
            if (std::isfinite(want) && std::fabs(got - want) > 1e-9 * (1 + std::fabs(want) + mag)) fail("stale-expression", fmt("expression %d returned %.17g, its variables now give %.17g", at, got, want));
            for (size_t q = 0; q < where.size(); ++q) *where[q] += add[q];
            // sums may round differently: take over the actual bits where they are close
            auto sync = [&](auto& v, M& m) { for (int q = 0; q < m.size(); ++q) { if (near(v.data()[q], m.val[q])) m.val[q] = v.data()[q]; if (near(v.data_adj()[q], m.adj[q])) m.adj[q] = v.data_adj()[q]; } };
            if (e.type == 4) for (size_t q = 0; q < bs[e.box].v.size(); ++q) sync(bs[e.box].v[q], bs[e.box].m[q]); else { with(e.a, [&](auto& v) { sync(v, slot[e.a].m); }); if (e.b >= 0) with(e.b, [&](auto& v) { sync(v, slot[e.b].m); }); }
            st.inc("probe.expression-evaluated"); note(fmt("expression %d evaluated: %.9g", at, got)); break; }
        case EXDROP: { Ex& e = ex[o.b % NE]; alloc::Scope sc; e.run = nullptr; e.on = false; break; }
        case PUSH: { if (!live(i)) return; int bi = o.b % NB; with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; Box<V>& b = box<V>(bi); M& m = slot[i].m;
            if (b.v.empty()) { b.r = m.r; b.c = m.c; } else if (b.r != m.r || b.c != m.c) return; if (b.v.size() >= 9) { { alloc::Scope sc; b.v.clear(); } b.m.clear(); ++b.gen; return; }
            bool ok; int how = g.below(4); size_t n = b.v.size(), at = n;
            if (how == 0) { { alloc::Scope sc; b.v.push_back(std::move(v)); } ok = true; { slot[i].state = 2; bump(i); } }
            else if (how == 1 && n) { at = g.below(n); { alloc::Scope sc; b.v.insert(b.v.begin() + at, v); } ok = true; }
            else if (how == 2 && n) { size_t src = g.below(n); ok = guarded(g, 8, "copy within a container", [&] { b.v.push_back(b.v[src]); }); if (ok) b.m.push_back(M(b.m[src])); ++b.gen; return; }
            else ok = guarded(g, 8, "copy into a container", [&] { b.v.push_back(v); });
            if (ok) b.m.insert(b.m.begin() + at, m); ++b.gen; }); note(fmt("variable %d put into container", i)); break; }
        case PULL: { if (!live(i)) return; int bi = o.b % NB; with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; Box<V>& b = box<V>(bi); if (b.v.empty()) return; size_t q = g.below(b.v.size()); M& m = slot[i].m; if (m.r != b.r || m.c != b.c) return;
            if (g.chance(0.5)) { { alloc::Scope sc; v = b.v[q]; } m = b.m[q]; } else { { alloc::Scope sc; b.v[q] = v; } b.m[q] = m; } }); note(fmt("variable %d exchanged with a container element", i)); break; }
        case BOXOP: { int bi = o.b % NB; switch (o.a % 3) { case 0: box_op(g, bs[bi]); break; case 1: box_op(g, bv[bi]); break; default: box_op(g, bm[bi]); } note("container rearranged"); break; }
        case BOXCOPY: { auto go = [&](auto& src, auto& dst) { using B = std::decay_t<decltype(src.v)>;
                int how = g.below(4);
                if (how == 0) { bool ok = guarded(g, 8, "container copy", [&] { B c(src.v); dst.v.swap(c); }); if (ok) { dst.m = src.m; dst.r = src.r; dst.c = src.c; } ++dst.gen; }
                else if (how == 1 && (dst.v.empty() || src.v.empty() || (dst.r == src.r && dst.c == src.c))) { { alloc::Scope sc; dst.v = src.v; } dst.m = src.m; dst.r = src.r; dst.c = src.c; ++dst.gen; }
                else if (how == 2) { { alloc::Scope sc; dst.v = std::move(src.v); src.v.clear(); } dst.m = src.m; src.m.clear(); dst.r = src.r; dst.c = src.c; ++dst.gen; ++src.gen; }
                else { alloc::Scope sc; std::list<typename B::value_type> l(src.v.begin(), src.v.end()); B c(std::make_move_iterator(l.begin()), std::make_move_iterator(l.end())); dst.v.swap(c); alloc::NoScope ns; dst.m = src.m; dst.r = src.r; dst.c = src.c; ++dst.gen; } };
            int x = o.b % NB, y = 1 - x; switch (o.a % 3) { case 0: go(bs[x], bs[y]); break; case 1: go(bv[x], bv[y]); break; default: go(bm[x], bm[y]); } note("container copied"); break; }
        case AGGREGATE: { if (!live(i)) return; with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; M m = slot[i].m; alloc::Scope sc;
            struct Params { V a; VS b; V c; }; Params p{v, VS(2.5), v}; Params q = p; std::vector<Span> sp;
            if (m.size()) p.a.data()[0] = 77; q.b.data()[0] = -1; Params r = std::move(q); M pm = m; if (m.size()) pm.val[0] = 77; p.c.reset_adj(); M pc = m; std::fill(pc.adj.begin(), pc.adj.end(), 0.0);
            M b1 = blank(0, 1, 1), b2 = blank(0, 1, 1); b1.val[0] = 2.5; b2.val[0] = -1;
            match(p.a, pm, "aggregate", sp); match(p.b, b1, "aggregate", sp); match(p.c, pc, "aggregate", sp); match(r.a, m, "copied aggregate", sp); match(r.b, b2, "copied aggregate", sp); match(r.c, m, "copied aggregate", sp);
            p = r; match(p.a, m, "assigned aggregate", sp); match(p.b, b2, "assigned aggregate", sp); match(r.c, m, "source of an aggregate", sp);
            std::optional<V> opt(p.a); opt = p.c; std::tuple<V, VS> t(*opt, p.b); std::map<int, V> mp; mp.emplace(3, std::get<0>(t)); mp.emplace(1, *opt); opt.reset(); if (m.size()) std::get<0>(t).data()[0] = 55;
            match(mp.at(3), m, "map element", sp); match(mp.at(1), m, "map element", sp); match(p.a, m, "aggregate", sp);
            // nothing of it may survive in v
            if (m.size()) { p.a.data_adj()[0] = 9; r.a.data()[0] = 9; mp.at(1).data()[0] = 9; } }); note(fmt("variable %d copied through aggregates", i)); break; }
        case BYVALUE: { if (!live(i) || slot[j].state) return; bool ok = with(i, [&](auto& v) { using V = std::decay_t<decltype(v)>; auto f = [](V x, double d) { if (x.size()) { x.data()[0] = d; x.data_adj()[0] = -d; } return x; }; return guarded(g, 5, "pass by value", [&] { new (&slab[j]) V(f(v, 4.25)); }); });
            if (ok) { slot[j].m = slot[i].m; if (slot[j].m.size()) { slot[j].m.val[0] = 4.25; slot[j].m.adj[0] = -4.25; } slot[j].state = 1; bump(j); } note(fmt("variable %d: returned from a function given %d", j, i)); break; }
        }
    }
    Result run() {
        alloc::st.fill = s.env.fill; alloc::st.corrupt = 0; alloc::disarm(); long live0 = alloc::st.live; uint64_t ctx = 0;
        try {
            for (size_t q = 0; q < s.ops.size(); ++q) { step = (int)q; run_op(s.ops[q]); st.inc("steps"); check(); ctx = mix64(ctx ^ s.ops[q].kind); uint64_t sh = 0; for (int i = 0; i < NS; ++i) sh = mix64(sh ^ (slot[i].state * 4 + slot[i].m.kind)); if (q % 4 == 3) st.states.insert(mix64(ctx ^ sh)); }
            step = (int)s.ops.size();
            { alloc::Scope sc; for (auto& e : ex) e.run = nullptr; }
            Rng g(s.seed ^ 0xd1e); for (int q = 0; q < NS; ++q) { int i = (q * 3 + s.seed) % NS; if (slot[i].state) { destroy(i); check(); } }
            { alloc::Scope sc; for (int i = 0; i < NB; ++i) { bs[i] = Box<VS>(); bv[i] = Box<VV>(); bm[i] = Box<VM>(); } }
            if (alloc::st.live != live0) fail("leak", fmt("%ld heap blocks are left after every variable was destroyed", alloc::st.live - live0));
            if (alloc::st.corrupt) fail("heap-overrun", "a heap block was damaged or freed twice");
        } catch (const Violation& v) { res.ok = false; res.cls = v.cls; res.msg = v.msg; res.at = step; }
        res.hash = h.h; return res;
    }
};
}
namespace fault { struct State; }
void engine_init() {}
const char* engine_build() { return "variables"; }
std::string prog_name(int) { return "-"; }
int prog_find(const std::string&) { return -1; }
void engine_list() { for (auto n : names) puts(n); }
bool engine_relevant(const std::string&, const std::string& c) { return c != "harness"; }
bool engine_attributed(const Spec&, const Result&, std::function<Result(const Spec&)>) { return true; }
std::string op_text(const Spec&, const OpRec& o) { return names[o.kind]; }
std::string task_text(const Spec&, int) { return ""; }
Spec make_spec(const std::string& profile, uint64_t seed) {
    Spec s; s.profile = profile; s.seed = seed; Rng g(mix64(seed) ^ hash_str("C09"));
    static const uint64_t fills[] = {0x7ff4dead7ff4deadull, 0, 0x3ff8000000000000ull, 0xc05a8ba3d70a3d71ull};
    s.env.fill = fills[g.below(4)]; s.knob["kind"] = g.below(3); s.knob["pfault"] = g.chance(0.3) ? 0 : 10 + g.below(40);
    double w[NOPS]; double base[NOPS] = {5, 4, 2, 5, 2, 2, 1.5, 2.5, 4, 3, 1.5, 1, 3, 2, 1, .3, 2, 4, .3, 3, 2, 3, 1, .7, 1.5}; double tot = 0;
    for (int i = 0; i < NOPS; ++i) { w[i] = base[i] * (i && g.chance(0.25) ? (g.chance(0.5) ? 0 : 3) : 1); tot += w[i]; }
    int n = 40 + g.below(120);
    for (int i = 0; i < 4; ++i) s.ops.push_back({NEW, (int)g.below(1000), (int)g.below(1000), g.next()});
    while ((int)s.ops.size() < n) { double x = g.unit() * tot; int k = 0; while (k < NOPS - 1 && x >= w[k]) x -= w[k++]; s.ops.push_back({k, (int)g.below(1000), (int)g.below(1000), g.next()}); }
    return s;
}
Result exec_spec(const Spec& s, Stats& st, bool log) { Life* l = new Life(s, st, log); Result r = l->run(); if (r.ok) delete l; return r; }
