#pragma once
// A "program" is one expression written once, generically; it is instantiated for the library
// (public API only) and for the reference.
#include "num.hpp"
#include "alloc.hpp"
#include "ref.hpp"
#include <fastad>
#include <fastad_bits/reverse/core/det.hpp>
#include <fastad_bits/reverse/core/log_det.hpp>
#include <cstring>
#include <list>
#include <memory>
#include <string>
#include <vector>

enum Kind { SCL = 0, VEC = 1, MAT = 2 };
using NVec = Eigen::Matrix<Num, Eigen::Dynamic, 1>;
using NMat = Eigen::Matrix<Num, Eigen::Dynamic, Eigen::Dynamic>;
using VS = ad::Var<Num, ad::scl>;
using VV = ad::Var<Num, ad::vec>;
using VM = ad::Var<Num, ad::mat>;

#ifdef SIM_THREADS      // several threads view the same values with adjoints of their own
using LS = ad::VarView<Num, ad::scl>; using LV = ad::VarView<Num, ad::vec>; using LM = ad::VarView<Num, ad::mat>;
#else
using LS = VS; using LV = VV; using LM = VM;
#endif

// One variable of the simulated world.
struct SlotObj {
    int kind, r, c;
    std::unique_ptr<VS> s; std::unique_ptr<VV> v; std::unique_ptr<VM> m;
    SlotObj(int k, int r_, int c_) : kind(k), r(r_), c(c_) {
        if (k == SCL) s.reset(new VS()); else if (k == VEC) v.reset(new VV((size_t)r)); else m.reset(new VM((size_t)r, (size_t)c));
    }
    int size() const { return r * c; }
    Num* val() { return kind == SCL ? s->data() : kind == VEC ? v->data() : m->data(); }
    Num* adj() { return kind == SCL ? s->data_adj() : kind == VEC ? v->data_adj() : m->data_adj(); }
    void reset_adj() { if (kind == SCL) s->reset_adj(); else if (kind == VEC) v->reset_adj(); else m->reset_adj(); }
    std::unique_ptr<SlotObj> copy() const {   // through the library's copy constructors
        std::unique_ptr<SlotObj> o(new SlotObj(*this, 0)); return o;
    }
private:
    SlotObj(const SlotObj& x, int) : kind(x.kind), r(x.r), c(x.c) {
        if (kind == SCL) s.reset(new VS(*x.s)); else if (kind == VEC) v.reset(new VV(*x.v)); else m.reset(new VM(*x.m));
    }
};

// A constant or the buffer behind a constant view.
struct ConstSlot { int kind, r, c; std::vector<Num> data; };

struct LeafSpec {          // parsed from "s0:pos v1[k]:real p:.. "
    char cls;              // 'l' leaf, 'c' constant, 'k' constant view
    int kind, idx, rows, cols;   // rows/cols: 0 = n, 1 = k, 2 = 1, 3 = n+k
    std::string dom;       // domain name ("ph" = placeholder)
    bool ph() const { return dom == "ph"; }
    bool target;           // compound-assignment target ('!')
};

// ---- library backend ------------------------------------------------------------------
struct FB {
    static constexpr bool is_ref = false;
    int n = 1, k = 1;
    std::vector<LS*> S; std::vector<LV*> V; std::vector<LM*> M;
    std::vector<ConstSlot*> cS, cV, cM, kV, kM;
    std::vector<std::vector<int>> idx;    // idx[i] = {0..i-1}
    LS& s(int i) { return *S[i]; }
    LV& v(int i) { return *V[i]; }
    LM& m(int i) { return *M[i]; }
    auto cs(int i) {
#ifdef NUM_SIM
        return ad::core::Constant<Num, ad::scl>(cS[i]->data[0]);
#else
        return ad::constant(cS[i]->data[0]);
#endif
    }
    auto cv(int i) { Eigen::Map<NVec> x(cV[i]->data.data(), cV[i]->r); return ad::constant(x); }
    auto cm(int i) { Eigen::Map<NMat> x(cM[i]->data.data(), cM[i]->r, cM[i]->c); return ad::constant(x); }
    auto kv(int i) { return ad::constant_view((const Num*)kV[i]->data.data(), kV[i]->r); }
    auto km(int i) { return ad::constant_view((const Num*)kM[i]->data.data(), kM[i]->r, kM[i]->c); }
    template <class F> auto sum_n(int c, F f) { return ad::sum(idx[c].begin(), idx[c].end(), [&](int i) { fault::point(); return f(i); }); }
    template <class F> auto prod_n(int c, F f) { return ad::prod(idx[c].begin(), idx[c].end(), [&](int i) { fault::point(); return f(i); }); }
    template <class F> auto each_n(int c, F f) { return ad::for_each(idx[c].begin(), idx[c].end(), [&](int i) { fault::point(); return f(i); }); }
    // other iterator kinds: lists, reversed ranges, pointers
    std::list<int> ls(int c) { return std::list<int>(idx[c].begin(), idx[c].end()); }
    template <class F> auto sum_list(int c, F f) { auto l = ls(c); return ad::sum(l.begin(), l.end(), [&](int i) { fault::point(); return f(i); }); }
    template <class F> auto prod_list(int c, F f) { auto l = ls(c); return ad::prod(l.cbegin(), l.cend(), [&](int i) { fault::point(); return f(i); }); }
    template <class F> auto each_list(int c, F f) { auto l = ls(c); return ad::for_each(l.begin(), l.end(), [&](int i) { fault::point(); return f(i); }); }
    template <class F> auto sum_rev(int c, F f) { return ad::sum(idx[c].rbegin(), idx[c].rend(), [&](int i) { fault::point(); return f(i); }); }
    template <class F> auto prod_rev(int c, F f) { return ad::prod(idx[c].rbegin(), idx[c].rend(), [&](int i) { fault::point(); return f(i); }); }
    template <class F> auto each_rev(int c, F f) { return ad::for_each(idx[c].rbegin(), idx[c].rend(), [&](int i) { fault::point(); return f(i); }); }
    template <int e, class X> auto pow(const X& x) { return ad::pow<e>(x); }
    template <int p, class X> auto det(const X& x) {
        if constexpr (p == 0) return ad::det<ad::DetFullPivLU>(x);
        else if constexpr (p == 1) return ad::det<ad::DetLDLT>(x);
        else return ad::det<ad::DetLLT>(x);
    }
    template <int p, class X> auto log_det(const X& x) {
        if constexpr (p == 0) return ad::log_det<ad::LogDetFullPivLU>(x);
        else if constexpr (p == 1) return ad::log_det<ad::LogDetLDLT>(x);
        else return ad::log_det<ad::LogDetLLT>(x);
    }
};

// ---- reference backend -------------------------------------------------------------------
struct RB {
    static constexpr bool is_ref = true;
    int n = 1, k = 1;
    std::vector<ref::View> S, V, M;
    std::vector<ConstSlot*> cS, cV, cM, kV, kM;
    ref::RVar s(int i) { return ref::RVar(S[i]); }
    ref::RVar v(int i) { return ref::RVar(V[i]); }
    ref::RVar m(int i) { return ref::RVar(M[i]); }
    static ref::E snap(const ConstSlot* c) {
        std::vector<Num> d = c->data; int k = c->kind, r = c->r, cc = c->c;
        return ref::mk([=](ref::Env& e) { ref::Ten t(k, r, cc, e.N); for (int i = 0; i < t.size(); ++i) t.v[i] = D(d[i]); e.see(t); return t; });
    }
    static ref::E live(const ConstSlot* c) {
        return ref::mk([c](ref::Env& e) { ref::Ten t(c->kind, c->r, c->c, e.N); for (int i = 0; i < t.size(); ++i) t.v[i] = D(c->data[i]); e.see(t); return t; });
    }
    ref::E cs(int i) { return snap(cS[i]); }
    ref::E cv(int i) { return snap(cV[i]); }
    ref::E cm(int i) { return snap(cM[i]); }
    ref::E kv(int i) { return live(kV[i]); }
    ref::E km(int i) { return live(kM[i]); }
    template <class F> std::vector<ref::E> list(int c, F f) { std::vector<ref::E> o; for (int i = 0; i < c; ++i) o.push_back(ref::E(f(i))); return o; }
    template <class F> ref::E sum_n(int c, F f) { return ref::sum_list(list(c, f)); }
    template <class F> ref::E prod_n(int c, F f) { return ref::prod_list(list(c, f)); }
    template <class F> ref::E each_n(int c, F f) { return ref::seq(list(c, f)); }
    template <class F> std::vector<ref::E> tsil(int c, F f) { std::vector<ref::E> o; for (int i = c; i-- > 0;) o.push_back(ref::E(f(i))); return o; }
    template <class F> ref::E sum_list(int c, F f) { return sum_n(c, f); }
    template <class F> ref::E prod_list(int c, F f) { return prod_n(c, f); }
    template <class F> ref::E each_list(int c, F f) { return each_n(c, f); }
    template <class F> ref::E sum_rev(int c, F f) { return ref::sum_list(tsil(c, f)); }
    template <class F> ref::E prod_rev(int c, F f) { return ref::prod_list(tsil(c, f)); }
    template <class F> ref::E each_rev(int c, F f) { return ref::seq(tsil(c, f)); }
    template <int e> ref::E pow(const ref::E& x) { return ref::pow_n(x, e); }
    template <int p> ref::E det(const ref::E& x) { return ref::det_any(x, p, false); }
    template <int p> ref::E log_det(const ref::E& x) { return ref::det_any(x, p, true); }
};

// ---- type-erased instances --------------------------------------------------------------
struct Inst {
    int kind = SCL, rows = 1, cols = 1;
    bool bound = false;              // owns its storage (ad::bind)
    int how = 0;                     // which of the equivalent entry points to call
    virtual ~Inst() {}
    virtual void need(size_t out[2]) = 0;                 // advertised cache size
    virtual void bind(Num* val, Num* adj, Num** vend, Num** aend) = 0;
    virtual void fwd(Num* out) = 0;                       // ad::evaluate
    virtual void bwd(const Num* seed) = 0;                // ad::evaluate_adj
    virtual void peek(Num* out) = 0;                      // the value last returned, as the expression still holds it
    virtual void both(const Num* seed, Num* out) = 0;     // ad::autodiff
    virtual Inst* copy() = 0;                             // copy construction
    virtual Inst* move() = 0;                             // move construction (source becomes moved-from)
    virtual Inst* to_bound() = 0;                         // ad::bind of a copy
    virtual Inst* churn(int how) = 0;                     // through containers / returns; bound only
    virtual void assign(Inst&, int) {}                    // 0 copy-assign from another of the same type, 1 move-assign, 2 swap; bound only
};

namespace detail {
template <class R> void put(const R& r, Num* out) {
    if constexpr (std::is_same_v<std::decay_t<R>, Num> || std::is_arithmetic_v<std::decay_t<R>>) *out = Num(r);
    else for (Eigen::Index j = 0; j < r.cols(); ++j) for (Eigen::Index i = 0; i < r.rows(); ++i) *out++ = r(i, j);
}
template <class E> struct shape_kind { static constexpr int v = std::is_same_v<typename E::shape_t, ad::scl> ? SCL : std::is_same_v<typename E::shape_t, ad::vec> ? VEC : MAT; };
using SeedV = Eigen::Array<Num, Eigen::Dynamic, 1>;
using SeedM = Eigen::Array<Num, Eigen::Dynamic, Eigen::Dynamic>;
// every public way to run a pass; `how` chooses among the equivalent ones
template <class X, class Y> void forward(X& x, Y& e, int how, Num* out) {
    if (how == 1) put(ad::evaluate(std::move(x)), out); else if (how == 2) put(ad::evaluate(e), out); else put(ad::evaluate(x), out);
}
template <class E> void beval(E& e, const Num* seed, int r, int c, int how = 0) {
    if constexpr (shape_kind<E>::v == SCL) { if (how == 3 && D(*seed) == 1) ad::evaluate_adj(e); else if (how == 2) e.beval(*seed); else if (how == 1) ad::evaluate_adj(std::move(e), *seed); else ad::evaluate_adj(e, *seed); }
    else if constexpr (shape_kind<E>::v == VEC) { Eigen::Map<const SeedV> s(seed, r); if (how == 1) ad::evaluate_adj(std::move(e), s); else if (how == 2) { SeedV t = s; ad::evaluate_adj(e, t); } else if (how == 3) ad::evaluate_adj(e, s * Num(1)); else ad::evaluate_adj(e, s); }
    else { Eigen::Map<const SeedM> s(seed, r, c); if (how == 1) ad::evaluate_adj(std::move(e), s); else if (how == 2) { SeedM t = s; ad::evaluate_adj(e, t); } else if (how == 3) ad::evaluate_adj(e, s * Num(1)); else ad::evaluate_adj(e, s); }
}
template <class B, class E> void beval_bound(B& b, E& e, const Num* seed, int r, int c, int how) {
    if constexpr (shape_kind<E>::v == SCL) { if (how == 3 && D(*seed) == 1) ad::evaluate_adj(b); else if (how == 2) beval(e, seed, r, c, how); else ad::evaluate_adj(b, *seed); }
    else if (how != 1) beval(e, seed, r, c, how);
    else if constexpr (shape_kind<E>::v == VEC) { Eigen::Map<const SeedV> s(seed, r); ad::evaluate_adj(std::move(b), s); }
    else { Eigen::Map<const SeedM> s(seed, r, c); ad::evaluate_adj(std::move(b), s); }
}
template <class X, class E> void autodiff(X& x, E*, const Num* seed, int r, int c, int how, Num* out) {
    if constexpr (shape_kind<E>::v == SCL) { if (how == 3 && D(*seed) == 1) put(ad::autodiff(x), out); else if (how == 2 && D(*seed) == 1) put(ad::autodiff(std::move(x)), out); else if (how == 1) put(ad::autodiff(std::move(x), *seed), out); else put(ad::autodiff(x, *seed), out); }
    else if constexpr (shape_kind<E>::v == VEC) { Eigen::Map<const SeedV> s(seed, r); if (how == 1) put(ad::autodiff(std::move(x), s), out); else if (how == 2) { SeedV t = s; put(ad::autodiff(x, t), out); } else put(ad::autodiff(x, s), out); }
    else { Eigen::Map<const SeedM> s(seed, r, c); if (how == 1) put(ad::autodiff(std::move(x), s), out); else if (how == 2) { SeedM t = s; put(ad::autodiff(x, t), out); } else put(ad::autodiff(x, s), out); }
}
}

template <class E> struct BoundInst : Inst {
    using B = decltype(ad::bind(std::declval<const E&>()));
    B b;
    void shape() { kind = detail::shape_kind<E>::v; rows = (int)b.get().rows(); cols = (int)b.get().cols(); bound = true; }
    explicit BoundInst(const E& e) : b(ad::bind(e)) { shape(); }
    struct CopyTag {}; struct MoveTag {};
    BoundInst(BoundInst& o, CopyTag) : b(o.b) { shape(); }
    BoundInst(BoundInst& o, MoveTag) : b(std::move(o.b)) { shape(); }
    explicit BoundInst(B&& x, int) : b(std::move(x)) { shape(); }
    void need(size_t out[2]) override { auto s = b.get().bind_cache_size(); out[0] = s(0); out[1] = s(1); }
    void bind(Num*, Num*, Num**, Num**) override {}
    void fwd(Num* out) override { detail::forward(b, b.get(), how, out); }
    void bwd(const Num* seed) override { detail::beval_bound(b, b.get(), seed, rows, cols, how); }
    void peek(Num* out) override { detail::put(b.get().get(), out); }
    void both(const Num* seed, Num* out) override { detail::autodiff(b, (E*)nullptr, seed, rows, cols, how, out); }
    Inst* copy() override { return new BoundInst(*this, CopyTag()); }
    Inst* move() override { return new BoundInst(*this, MoveTag()); }
    Inst* to_bound() override { return new BoundInst(b.get()); }
    void assign(Inst& o, int how) override {
        B& x = static_cast<BoundInst&>(o).b;
        if constexpr (std::is_copy_assignable_v<B> && std::is_move_assignable_v<B>) { if (how == 0) b = x; else if (how == 1) b = std::move(x); else std::swap(b, x); }
        shape(); if (how == 2) static_cast<BoundInst&>(o).shape();
    }
    static B pass(B x) { return x; }
    Inst* churn(int how) override {
        switch (how % 5) {
        case 0: { std::vector<B> v; v.reserve(1); v.push_back(b); v.reserve(4); return new BoundInst(std::move(v[0]), 0); }      // growth moves or copies
        case 1: { std::vector<B> v; v.reserve(1); v.push_back(std::move(b)); for (int i = 0; i < 3; ++i) v.push_back(v[0]); return new BoundInst(std::move(v[how / 5 % v.size()]), 0); }
        case 2: { B t = pass(b); return new BoundInst(pass(std::move(t)), 0); }
        case 3: if constexpr (std::is_move_assignable_v<B>) { std::vector<B> v; v.reserve(3); for (int i = 0; i < 2; ++i) v.push_back(b); v.push_back(std::move(b)); v.erase(v.begin() + how / 5 % 3); if (how / 15 % 2) std::swap(v[0], v[1]); return new BoundInst(std::move(v[1]), 0); }      // erasing assigns
        default: { std::unique_ptr<B> t(new B(b)); B u(*t); t.reset(); return new BoundInst(std::move(u), 0); }
        }
    }
};
template <class E> struct RawInst : Inst {
    E e;
    struct CopyTag {}; struct MoveTag {};
    void shape() { kind = detail::shape_kind<E>::v; rows = (int)e.rows(); cols = (int)e.cols(); }
    template <class P> RawInst(P*, FB& L) : e(P::build(L)) { shape(); }
    RawInst(const RawInst& o, CopyTag) : e(o.e) { shape(); }
    RawInst(RawInst& o, MoveTag) : e(std::move(o.e)) { shape(); }
    void need(size_t out[2]) override { auto s = e.bind_cache_size(); out[0] = s(0); out[1] = s(1); }
    void bind(Num* val, Num* adj, Num** vend, Num** aend) override { auto p = e.bind_cache({val, adj}); *vend = p.val; *aend = p.adj; }
    void fwd(Num* out) override { detail::forward(e, e, how, out); }
    void bwd(const Num* seed) override { detail::beval(e, seed, rows, cols, how); }
    void peek(Num* out) override { detail::put(e.get(), out); }
    void both(const Num* seed, Num* out) override { detail::autodiff(e, (E*)nullptr, seed, rows, cols, how, out); }
    Inst* copy() override { return new RawInst(*this, CopyTag()); }
    Inst* move() override { return new RawInst(*this, MoveTag()); }
    Inst* to_bound() override { return new BoundInst<E>(e); }
    Inst* churn(int) override { return copy(); }
};

struct Prog {
    const char* name; const char* leaves; const char* tags;
    Inst* (*make)(FB&);
    ref::E (*refmake)(RB&);
    std::vector<LeafSpec> spec;
    bool has(const char* t) const { std::string s = std::string(" ") + tags + " "; return s.find(std::string(" ") + t + " ") != std::string::npos; }
    void parse();
};
int prog_index(const std::string& name);   // -1 if this build has no such program
std::vector<Prog>& progs();
struct Reg { Reg(const char* name, const char* leaves, const char* tags, Inst* (*m)(FB&), ref::E (*r)(RB&)); };
template <class P> Inst* make_inst(FB& L) {
    using E = std::decay_t<decltype(P::build(L))>;
    return new RawInst<E>((P*)nullptr, L);
}
template <class P> ref::E make_ref(RB& L) { return ref::E(P::build(L)); }
#define PROG(id, name, leaves, tags, body) \
    namespace { struct id { template <class B_> static auto build(B_& L) { (void)L; return body; } }; \
    Reg reg_##id(name, leaves, tags, &make_inst<id>, &make_ref<id>); }
