#pragma once
// Independent reference: a tiny AST evaluated as ordinary sequential code over
// long-double dual numbers (value + gradient w.r.t. every scalar of every leaf,
// plus one injected direction per placeholder at each plain assignment).
// It shares no code with the library under test.
#include <cmath>
#include <functional>
#include <memory>
#include <type_traits>
#include <vector>
#include <cassert>
#include <algorithm>
#include <cfloat>

namespace ref {
using LD = long double;

enum Kind { SCL = 0, VEC = 1, MAT = 2 };

struct Ten {              // column-major tensor of duals
    int kind = SCL, r = 1, c = 1, N = 0;
    std::vector<LD> v;    // r*c
    std::vector<LD> g;    // r*c*N
    Ten() {}
    Ten(int k, int r_, int c_, int N_) : kind(k), r(r_), c(c_), N(N_), v((size_t)r_ * c_, 0), g((size_t)r_ * c_ * N_, 0) {}
    int size() const { return r * c; }
    LD* gr(int i) { return g.data() + (size_t)i * N; }
    const LD* gr(int i) const { return g.data() + (size_t)i * N; }
};

struct SlotState {        // one leaf storage as the reference sees it
    int kind, r, c, base; // base: first gradient direction
    std::vector<LD> v, g;
};

struct Env {
    int N = 0;
    std::vector<SlotState> slots;
    // gating information about the evaluation
    bool near_branch = false;   // a decision was too close to call
    bool nonfinite = false;     // an intermediate was not finite
    bool oos = false;           // some density was out of support / factorisation failed
    bool vague = false;         // reference declines to judge this evaluation
    bool adj_vague = false;     // reference declines to judge the gradient
    bool nowrite = false;       // a determinant's matrix certainly cannot be factorised
    LD maxmag = 0;              // largest intermediate magnitude
    long nodes = 0, branches = 0;
    uint64_t jitter = 0;        // when set, every rounded intermediate is disturbed a little: how well conditioned is this evaluation?
    void shake(Ten& t) { for (auto* w : {&t.v, &t.g}) for (LD& x : *w) if (x != (LD)(double)x) { jitter = jitter * 6364136223846793005ull + 1442695040888963407ull; x *= 1 + 1e-14L * ((int)(jitter >> 40 & 0xffff) - 32768) / 32768; } }
    void blur(Ten& t) { LD top = 0; for (LD x : t.v) top = std::max(top, std::fabs(x)); for (LD& x : t.v) { jitter = jitter * 6364136223846793005ull + 1442695040888963407ull; x += 1e-14L * top * ((int)(jitter >> 40 & 0xffff) - 32768) / 32768; } }   // what a factorisation in double may make of a matrix
    std::vector<char> touched;  // slots read during this evaluation
    void see(LD x) { LD a = std::fabs(x); if (!(a <= LDBL_MAX)) nonfinite = true; else if (a > maxmag) maxmag = a; }
    // values near the edge of double's range: rounding, underflow and overflow decide, not the formula
    void edge(LD x) { LD a = std::fabs(x); if ((a != 0 && a < 1e-150L) || (a > 1e150L)) vague = true; }
    void see(const Ten& t) { for (LD x : t.v) if (!(oos && x == -HUGE_VALL)) { see(x); edge(x); } for (LD x : t.g) see(x); ++nodes; }
};

struct Node { virtual ~Node() {} virtual Ten eval(Env&) const = 0; };
using NP = std::shared_ptr<Node>;

struct RVar;
struct E {
    NP p; E() {} explicit E(NP q) : p(std::move(q)) {}
    E(double x); E(const RVar& v);
};

template <class F> struct FnNode : Node { F f; explicit FnNode(F g) : f(std::move(g)) {} Ten eval(Env& e) const override { Ten t = f(e); if (e.jitter) e.shake(t); return t; } };
template <class F> E mk(F f) { return E(std::make_shared<FnNode<F>>(std::move(f))); }

struct View { int slot, off, kind, r, c; };

inline Ten load(Env& e, const View& w) {
    const SlotState& s = e.slots[w.slot];
    if (e.touched.size() <= (size_t)w.slot) e.touched.resize(e.slots.size(), 0);
    e.touched[w.slot] = 1;
    Ten t(w.kind, w.r, w.c, e.N);
    for (int i = 0; i < t.size(); ++i) {
        t.v[i] = s.v[w.off + i]; if (std::isfinite(t.v[i])) e.edge(t.v[i]);
        for (int k = 0; k < e.N; ++k) t.gr(i)[k] = s.g[(size_t)(w.off + i) * e.N + k];
    }
    return t;
}
inline void store(Env& e, const View& w, const Ten& t, bool inject) {
    SlotState& s = e.slots[w.slot];
    for (int i = 0; i < w.r * w.c; ++i) {
        int j = t.size() == 1 ? 0 : i;
        s.v[w.off + i] = t.v[j];
        for (int k = 0; k < e.N; ++k) s.g[(size_t)(w.off + i) * e.N + k] = t.gr(j)[k];
        if (inject && e.N) s.g[(size_t)(w.off + i) * e.N + s.base + w.off + i] += 1;
    }
}


inline const E& toE(const E& e) { return e; }
E assign(const View& w, const E& x);
struct RVar {
    View w;
    explicit RVar(View v) : w(v) {}
    RVar(const RVar&) = default;
    E operator=(const E& x) const { return assign(w, x); }
    E operator=(const RVar& x) const { return assign(w, E(x)); }
    RVar operator()(int i) const { return RVar(View{w.slot, w.off + i, SCL, 1, 1}); }
    RVar operator[](int i) const { return (*this)(i); }
    RVar head(int n) const { return RVar(View{w.slot, w.off, VEC, n, 1}); }
    RVar tail(int n) const { return RVar(View{w.slot, w.off + w.r - n, VEC, n, 1}); }
};
E operator-(const E& a);
E sin(const E& a);
E cos(const E& a);
E tan(const E& a);
E asin(const E& a);
E acos(const E& a);
E atan(const E& a);
E exp(const E& a);
E log(const E& a);
E sqrt(const E& a);
E erf(const E& a);
E sigmoid(const E& a);
E sinh(const E& a);
E cosh(const E& a);
E tanh(const E& a);
E sum(const E& a);
E prod(const E& a);
E norm(const E& a);
E transpose(const E& a);
E operator+(const E& a, const E& b);
E operator-(const E& a, const E& b);
E operator*(const E& a, const E& b);
E operator/(const E& a, const E& b);
E operator<(const E& a, const E& b);
E operator<=(const E& a, const E& b);
E operator>(const E& a, const E& b);
E operator>=(const E& a, const E& b);
E operator==(const E& a, const E& b);
E operator!=(const E& a, const E& b);
E operator&&(const E& a, const E& b);
E operator||(const E& a, const E& b);
E operator,(const E& a, const E& b);
E dot(const E& a, const E& b);
E operator+=(const RVar& a, const E& b);
E operator-=(const RVar& a, const E& b);
E operator*=(const RVar& a, const E& b);
E operator/=(const RVar& a, const E& b);
E seq(const std::vector<E>& xs);
E sum_list(const std::vector<E>& xs);
E prod_list(const std::vector<E>& xs);
E pow_n(const E& a, int n);
template <int n> E powi(const E& a) { return pow_n(a, n); }
E if_else(const E& c, const E& a, const E& b);
enum Policy { FULL = 0, LDLT = 1, LLT = 2 };
E det_any(const E& x, int policy, bool logd);
E normal_adj_log_pdf(const E& x, const E& m, const E& s);
E cauchy_adj_log_pdf(const E& x, const E& m, const E& s);
E uniform_adj_log_pdf(const E& x, const E& m, const E& s);
E bernoulli_adj_log_pdf(const E& x, const E& p);
E wishart_adj_log_pdf(const E& x, const E& v, const E& n);
} // namespace ref
