// Forward mode: a history of constructions, seedings, operations, accumulations, copies and container
// moves of forward-mode variables, with arithmetic that fails on schedule, against a dual-number model.
#include "engine.hpp"
#include "num.hpp"
#include "alloc.hpp"
#include <fastad>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <vector>

namespace ad { namespace simulated { template <class T> T negated(const T& x) { return -x; } } }     // finds the negation wherever it is declared
namespace {
using F = ad::ForwardVar<Num>;
enum Op { NEW, VALUE, SEED, UNARY, BINARY, ACC, CHAIN, COPY, SWAP, FORMULA, GRADIENT, PUSH, PULL, BOXOP, SUMBOX, BAD, TEMP, NOPS };
const char* names[] = {"construct", "set-value", "set-adjoint", "unary", "binary", "accumulate", "chained-accumulate", "copy", "swap", "formula", "gradient-by-seeding", "put-into-container", "take-from-container", "rearrange-container", "sum-container", "leave-the-domain", "nested-temporaries"};
const int NS = 8;
struct M { double v = 0, a = 0; bool known = true; };
struct L { long double v, a, s; };         // value, derivative, magnitude of what they were made of
bool bits(double a, double b) { if (a != a && b != b) return true; return std::memcmp(&a, &b, 8) == 0; }
long double mag(const L& x) { return std::max(std::max(std::fabs(x.v), std::fabs(x.a)), x.s); }
L mk(long double v, long double a, long double s) { return {v, a, std::max(s, std::max(std::fabs(v), std::fabs(a)))}; }
const char* un[] = {"neg", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sqrt", "erf"};
const int NU = 11;
bool in_domain(int f, long double x) {
    if (!(std::fabs(x) < 1e3L)) return false;
    switch (f) { case 3: return std::fabs(std::cos(x)) > 0.05L; case 4: case 5: return std::fabs(x) < 0.97L; case 7: return x < 12; case 8: case 9: return x > 1e-3L; default: return true; }
}
L unary(int f, const L& x) {
    long double v, d; switch (f) {
    case 0: v = -x.v; d = -1; break; case 1: v = std::sin(x.v); d = std::cos(x.v); break; case 2: v = std::cos(x.v); d = -std::sin(x.v); break;
    case 3: { v = std::tan(x.v); long double c = std::cos(x.v); d = 1 / (c * c); break; }
    case 4: v = std::asin(x.v); d = 1 / std::sqrt((1 - x.v) * (1 + x.v)); break; case 5: v = std::acos(x.v); d = -1 / std::sqrt((1 - x.v) * (1 + x.v)); break;
    case 6: v = std::atan(x.v); d = 1 / (1 + x.v * x.v); break; case 7: v = std::exp(x.v); d = v; break;
    case 8: v = std::log(x.v); d = 1 / x.v; break; case 9: v = std::sqrt(x.v); d = 0.5L / v; break;
    default: v = std::erf(x.v); d = 1.128379167095512573896158903121545172L * std::exp(-x.v * x.v); }
    return mk(v, d * x.a, std::max(x.s, x.s * std::fabs(d)));
}
F unary(int f, const F& x) {
    switch (f) { case 0: return ad::simulated::negated(x); case 1: return ad::sin(x); case 2: return ad::cos(x); case 3: return ad::tan(x); case 4: return ad::asin(x); case 5: return ad::acos(x);
    case 6: return ad::atan(x); case 7: return ad::exp(x); case 8: return ad::log(x); case 9: return ad::sqrt(x); default: return ad::erf(x); }
}
L binary(int o, const L& x, const L& y) {
    switch (o) { case 0: return mk(x.v + y.v, x.a + y.a, mag(x) + mag(y)); case 1: return mk(x.v - y.v, x.a - y.a, mag(x) + mag(y));
    case 2: return mk(x.v * y.v, x.v * y.a + x.a * y.v, mag(x) * mag(y)); default: return mk(x.v / y.v, x.a / y.v - x.v * y.a / (y.v * y.v), mag(x) * mag(y) / (y.v * y.v) + mag(x) / std::fabs(y.v)); }
}
F binary(int o, const F& x, const F& y) { switch (o) { case 0: return x + y; case 1: return x - y; case 2: return x * y; default: return x / y; } }
// operators for writing a formula once
L operator+(const L& x, const L& y) { return binary(0, x, y); }
L operator-(const L& x, const L& y) { return binary(1, x, y); }
L operator*(const L& x, const L& y) { return binary(2, x, y); }
L operator/(const L& x, const L& y) { return binary(3, x, y); }
L& operator+=(L& x, const L& y) { return x = x + y; }
template <class T> T c(double x);
template <> L c<L>(double x) { return {x, 0, std::fabs((long double)x)}; }
template <> F c<F>(double x) { return F(Num(x)); }
template <class T> T formula(int which, const T& x, const T& y, const T& z) {
    auto sq = [](const T& a) { return a * a; };
    switch (which) {
    case 0: return (x + y) * unary(1, z) - x / (sq(y) + c<T>(1));
    case 1: { T s = c<T>(0); for (int i = 1; i < 6; ++i) s += x * c<T>(i) + y / c<T>(i); return s * z; }
    case 2: { T p = c<T>(1); for (int i = 0; i < 4; ++i) p = p * x + y; return p - z; }
    case 3: return unary(7, unary(0, sq(x))) * unary(10, y) + unary(6, z * x);
    case 4: { T a = x; a += a; a += y; T b = a; b += a * z; return b * unary(2, a) + a; }
    case 5: return unary(9, sq(x) + sq(y) + c<T>(0.5)) * unary(8, sq(z) + c<T>(0.5));
    case 6: { T a = unary(1, x), b = unary(2, x); return a / (sq(b) + c<T>(0.25)) + unary(10, a * y) * z; }
    case 7: { std::vector<T> v; for (int i = 0; i < 5; ++i) v.push_back(i % 2 ? x * c<T>(i) : y - c<T>(i)); T s = v[0]; for (size_t i = 1; i < v.size(); ++i) s += v[i] * v[i - 1]; return s / (sq(z) + c<T>(1)); }
    case 8: { T s = x; for (int i = 0; i < 3; ++i) s = s - (sq(s) - (sq(y) + c<T>(0.5))) / (s + s + c<T>(i == 0 ? 3 : 4)); return s * z; }
    default: return unary(3, x * c<T>(0.1)) + unary(4, unary(1, y) * c<T>(0.5)) - unary(5, unary(2, z) * c<T>(0.5));
    }
}

struct Fwd {
    const Spec& s; Stats& st; bool logging; Result res; Hash h; int step = -1;
    std::vector<F> var; M m[NS]; std::vector<F> box; std::vector<M> mbox; std::map<int, F> keyed; std::map<int, M> mkeyed; uint64_t ctx = 0;
    Fwd(const Spec& sp, Stats& x, bool l) : s(sp), st(x), logging(l) {}
    [[noreturn]] void fail(const char* c, const std::string& t) { throw Violation{c, t}; }
    template <class... A> static std::string fmt(const char* f, A... a) { char b[400]; snprintf(b, sizeof b, f, a...); return b; }
    void note(const std::string& t) { if (logging) res.log.push_back(fmt("%3d ", step) + t); }
    static double V(const F& x) { return D(x.get_value()); }
    static double A(const F& x) { return D(x.get_adjoint()); }
    void match(const F& x, const M& e, const std::string& who) {
        F& y = const_cast<F&>(x);
        if (!bits(V(x), e.v) || !bits(D(y.get_value()), e.v)) fail("value", fmt("%s changed the value of %s: %.17g -> %.17g", names[cur], who.c_str(), e.v, V(x)));
        if (!bits(A(x), e.a) || !bits(D(y.get_adjoint()), e.a)) fail("derivative", fmt("%s changed the derivative of %s: %.17g -> %.17g", names[cur], who.c_str(), e.a, A(x)));
    }
    int cur = 0;
    void check() {
        for (int i = 0; i < NS; ++i) { match(var[i], m[i], fmt("variable %d", i)); h.bits(m[i].v); h.bits(m[i].a); }
        if (box.size() != mbox.size() || keyed.size() != mkeyed.size()) fail("container", "container sizes differ");
        for (size_t i = 0; i < box.size(); ++i) match(box[i], mbox[i], fmt("element %zu", i));
        for (auto& k : keyed) match(k.second, mkeyed.at(k.first), fmt("entry %d", k.first));
        if (alloc::st.corrupt) fail("heap-overrun", "a heap block was damaged");
        ++res.judged;
    }
    static L lift(const M& x) { return {x.v, x.a, std::max(std::fabs((long double)x.v), std::fabs((long double)x.a))}; }
    static bool tame(const M& x) { return std::fabs(x.v) < 1e3 && std::fabs(x.a) < 1e6; }
    static bool tame(const L& x) { return std::fabs(x.v) < 1e6L && x.s < 1e9L && x.a == x.a; }
    // the outcome of an operation: right where the formula is certain, and then the new expectation
    void expect(const F& got, const L& want, bool judged, const std::string& what, M& into) {
        if (judged && tame(want)) {
            st.inc("judged.operations"); long double tol = 1e-9L * (1 + want.s);
            if (!(std::fabs(V(got) - want.v) <= tol)) fail("value", fmt("%s gives %.17g, the formula is %.17Lg", what.c_str(), V(got), want.v));
            if (!(std::fabs(A(got) - want.a) <= tol)) fail("derivative", fmt("%s gives the derivative %.17g, the formula's is %.17Lg", what.c_str(), A(got), want.a));
        } else st.inc("unjudged.operations");
        into.v = V(got); into.a = A(got);
    }
    template <class G> bool guarded(Rng& g, int span, G f) {
        bool inj = s.k("pfault") && g.chance(s.k("pfault") * 0.01); int id = 1000 + step; bool done = false; std::string odd;
#ifdef NUM_SIM
        fault::arm(inj ? (long)g.below(span) : -1, id);
#else
        alloc::arm(inj ? (long)g.below(3) : -1, 0);
#endif
        try { alloc::Scope sc; f(); done = true; }
        catch (const UserError& e) { if (!fault::st.fired || e.id != id) odd = "a user error that was not injected"; }
        catch (const std::bad_alloc&) { if (!alloc::st.fired) odd = "std::bad_alloc without an allocation failure"; }
        catch (const std::exception& e) { odd = e.what(); }
        bool fired = fault::st.fired > 0 || alloc::st.fired > 0; fault::disarm(); fault::st.fired = 0; alloc::disarm(); alloc::st.fired = 0; (void)span;
        if (!odd.empty()) fail("exception", fmt("%s: %s", names[cur], odd.c_str()));
        if (done && fired) fail("swallowed", fmt("%s completed although an operation failed inside it", names[cur]));
        if (!done) { st.inc(std::string("fault.in ") + names[cur]); note("   the injected failure surfaced"); }
        return done;
    }
    // the same operation on variables that have no past
    template <class G> void afresh(const F& got, G f, const std::string& what) {
        F n = f(); auto same = [](double a, double b) { return bits(a, b) || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); };
        if (!same(V(n), V(got)) || !same(A(n), A(got))) fail("history", fmt("%s gives %.17g/%.17g; over fresh copies of its operands %.17g/%.17g", what.c_str(), V(got), A(got), V(n), A(n)));
    }
    double value(Rng& g) { return g.chance(0.1) ? (g.chance(0.5) ? 0.0 : 1.0) : g.chance(0.5) ? g.range(-0.9, 0.9) : g.range(-3, 3); }
    double seed(Rng& g) { double k[] = {1, 1, 0, -1, 2}; return g.chance(0.5) ? k[g.below(5)] : g.range(-2, 2); }
    void put(int i, double v, double a) { var[i] = F(Num(v), Num(a)); m[i].v = v; m[i].a = a; }
    void run_op(const OpRec& o) {
        Rng g(o.r); int i = o.a % NS, j = o.b % NS, k = (int)(o.r >> 33) % NS; cur = o.kind; st.inc(std::string("op.") + names[o.kind]);
        if (g.chance(0.3)) j = k = i; else if (g.chance(0.2)) j = i; else if (g.chance(0.2)) k = j;      // aliasing
        switch (o.kind) {
        case NEW: { int how = g.below(4); double v = value(g), a = seed(g); if (how == 0) { alloc::Scope sc; var[i] = F(); m[i].v = m[i].a = 0; } else if (how == 1) { alloc::Scope sc; var[i] = F(Num(v)); m[i].v = v; m[i].a = 0; } else put(i, v, a); note(fmt("variable %d = (%.9g, %.9g)", i, m[i].v, m[i].a)); break; }
        case VALUE: { double v = value(g); if (g.chance(0.5)) { Num& r = var[i].set_value(Num(v)); if (&r != &var[i].get_value()) fail("reference", "set_value does not return the variable's value"); } else var[i].get_value() = Num(v); m[i].v = v; note(fmt("variable %d: value %.9g", i, v)); break; }
        case SEED: { double a = seed(g); if (g.chance(0.5)) { Num& r = var[i].set_adjoint(Num(a)); if (&r != &var[i].get_adjoint()) fail("reference", "set_adjoint does not return the variable's derivative"); } else var[i].get_adjoint() = Num(a); m[i].a = a; note(fmt("variable %d: seed %.9g", i, a)); break; }
        case BAD: { double w[] = {-1, 0, HUGE_VAL, -HUGE_VAL, NAN, 1e300, -2.5, 1.5}; int f = g.below(NU); double v = w[g.below(8)]; { alloc::Scope sc; var[i].set_value(Num(v)); var[i] = unary(f, var[i]); } m[i].v = V(var[i]); m[i].a = A(var[i]);
            note(fmt("variable %d: %s outside its domain", i, un[f])); st.inc("episode.out-of-domain"); if (g.chance(0.7)) { double v2 = value(g); put(i, v2, seed(g)); } break; }
        case UNARY: { int f = g.below(NU); M x = m[j]; if (!in_domain(f, x.v) && g.chance(0.9)) { double v = f == 8 || f == 9 ? g.range(0.05, 3) : g.range(-0.9, 0.9); put(j, v, seed(g)); x = m[j]; }
            bool done = guarded(g, 6, [&] { var[i] = unary(f, var[j]); }); if (!done) break;
            std::string what = fmt("%s(%.9g, %.9g)", un[f], x.v, x.a); expect(var[i], unary(f, lift(x)), tame(x) && in_domain(f, x.v), what, m[i]); afresh(var[i], [&] { return unary(f, F(Num(x.v), Num(x.a))); }, what);
            note(fmt("variable %d = %s of variable %d: (%.9g, %.9g)", i, un[f], j, m[i].v, m[i].a)); break; }
        case BINARY: { int b = g.below(4); M x = m[j], y = m[k]; bool done = guarded(g, 8, [&] { var[i] = binary(b, var[j], var[k]); }); if (!done) break;
            std::string what = fmt("(%.9g, %.9g) %c (%.9g, %.9g)", x.v, x.a, "+-*/"[b], y.v, y.a); expect(var[i], binary(b, lift(x), lift(y)), tame(x) && tame(y) && (b < 3 || std::fabs(y.v) > 0.02), what, m[i]);
            afresh(var[i], [&] { F p(Num(x.v), Num(x.a)), q(Num(y.v), Num(y.a)); return binary(b, p, q); }, what); note(fmt("variable %d = %d %c %d: (%.9g, %.9g)", i, j, "+-*/"[b], k, m[i].v, m[i].a)); break; }
        case ACC: { M x = m[i], y = m[j]; F* ret = nullptr; bool done = guarded(g, 3, [&] { ret = &(var[i] += var[j]); }); if (!done) { m[i].v = V(var[i]); m[i].a = A(var[i]); check(); put(i, value(g), seed(g)); break; }
            if (ret != &var[i]) fail("reference", "+= does not return its left side"); expect(var[i], binary(0, lift(x), lift(y)), tame(x) && tame(y), fmt("(%.9g, %.9g) += (%.9g, %.9g)", x.v, x.a, y.v, y.a), m[i]); note(fmt("variable %d += %d: (%.9g, %.9g)", i, j, m[i].v, m[i].a)); break; }
        case CHAIN: { M x = m[i], y = m[j], z = m[k]; bool done = guarded(g, 5, [&] { (var[i] += var[j]) += var[k]; }); if (!done) { m[i].v = V(var[i]); m[i].a = A(var[i]); check(); put(i, value(g), seed(g)); break; }
            L a = binary(0, lift(x), lift(y)), b = k == i ? a : lift(z); (void)z; expect(var[i], binary(0, a, b), tame(x) && tame(y) && tame(z), "(a += b) += c", m[i]); note(fmt("(variable %d += %d) += %d", i, j, k)); break; }
        case COPY: { alloc::Scope sc; if (g.chance(0.5)) { F t(var[j]); var[i] = t; t.set_value(Num(77.)); } else var[i] = std::move(F(var[j])); m[i] = m[j]; break; }
        case SWAP: { alloc::Scope sc; std::swap(var[i], var[j]); std::swap(m[i], m[j]); break; }
        case FORMULA: { int w = g.below(10); for (int q : {i, j, k}) if (!(std::fabs(m[q].v) < 4)) put(q, value(g), seed(g)); M x = m[i], y = m[j], z = m[k]; F out; bool done = guarded(g, 40, [&] { out = formula<F>(w, var[i], var[j], var[k]); }); if (!done) break;
            int t = (int)(o.r >> 50) % NS; var[t] = out; expect(var[t], formula<L>(w, lift(x), lift(y), lift(z)), tame(x) && tame(y) && tame(z), fmt("formula %d at (%.9g, %.9g) (%.9g, %.9g) (%.9g, %.9g)", w, x.v, x.a, y.v, y.a, z.v, z.a), m[t]);
            note(fmt("variable %d = formula %d of %d, %d, %d: (%.9g, %.9g)", t, w, i, j, k, m[t].v, m[t].a)); break; }
        case GRADIENT: { int w = g.below(10); for (int q : {i, j, k}) if (!(std::fabs(m[q].v) < 4)) put(q, value(g), seed(g)); int q[3] = {i, j, k}; M keep[3] = {m[i], m[j], m[k]};
            // the usual way to get a gradient: seed one input after the other; directions add up
            double dir[3]; L total{0, 0, 0}; double sum = 0; long double sc = 1; bool ok = true;
            for (int d = 0; d < 3; ++d) { dir[d] = g.range(-1, 1); F in[3] = {var[q[0]], var[q[1]], var[q[2]]}; for (int e = 0; e < 3; ++e) in[e].set_adjoint(Num(e == d ? 1. : 0.)); F out; ok = guarded(g, 60, [&] { out = formula<F>(w, in[0], in[1], in[2]); }); if (!ok) break;
                L r[3]; for (int e = 0; e < 3; ++e) { r[e] = lift(keep[e]); r[e].a = e == d; r[e].s = std::max(std::fabs(r[e].v), 1.0L); } total = formula<L>(w, r[0], r[1], r[2]); M tmp; expect(out, total, true, fmt("formula %d seeded in input %d", w, d), tmp); sum += dir[d] * A(out); sc = std::max(sc, total.s); }
            if (!ok) break;
            F in[3]; for (int e = 0; e < 3; ++e) in[e] = F(var[q[e]].get_value(), Num(dir[e])); F out = formula<F>(w, in[0], in[1], in[2]);
            if (tame(total) && std::fabs(A(out) - sum) > 1e-9 * (1 + (double)sc)) fail("derivative", fmt("formula %d: the derivative along a direction is %.17g, the partial derivatives add up to %.17g", w, A(out), sum));
            st.inc("probe.gradient"); note(fmt("gradient of formula %d", w)); break; }
        case PUSH: { if (box.size() > 10) { box.clear(); mbox.clear(); break; } if (g.chance(0.4)) { int key = g.below(6); bool done = guarded(g, 4, [&] { keyed.insert_or_assign(key, var[i]); }); if (done) mkeyed[key] = m[i]; break; }
            bool done = guarded(g, 4, [&] { if (!box.empty() && (o.r >> 60 & 1)) box.push_back(box[0]); else box.push_back(var[i]); }); if (done) mbox.push_back(mbox.size() && (o.r >> 60 & 1) ? M(mbox[0]) : m[i]); break; }
        case PULL: { if (box.empty()) break; size_t q = g.below((uint32_t)box.size()); if (g.chance(0.5)) { var[i] = box[q]; m[i] = mbox[q]; } else { box[q] = var[i]; mbox[q] = m[i]; } break; }
        case BOXOP: { if (box.size() < 2) break; size_t q = 1 + g.below((uint32_t)box.size() - 1); switch (g.below(4)) {
            case 0: std::reverse(box.begin(), box.end()); std::reverse(mbox.begin(), mbox.end()); break; case 1: std::rotate(box.begin(), box.begin() + q, box.end()); std::rotate(mbox.begin(), mbox.begin() + q, mbox.end()); break;
            case 2: box.erase(box.begin() + q); mbox.erase(mbox.begin() + q); break; default: { alloc::Scope sc; box.insert(box.begin() + q, box[0]); } mbox.insert(mbox.begin() + q, M(mbox[0])); } break; }
        case SUMBOX: { F t; L w{0, 0, 0}; bool ok = true; for (auto& e : mbox) { ok &= tame(e); w = w + lift(e); } bool done = guarded(g, 10, [&] { F u; for (auto& e : box) u += e; t = u; }); if (!done) break; var[i] = t; expect(var[i], w, ok, "a running sum over a container", m[i]); break; }
        case TEMP: { M x = m[j], y = m[k]; for (int q : {j, k}) if (!(std::fabs(m[q].v) < 4)) { put(q, value(g), seed(g)); } x = m[j]; y = m[k]; bool done = guarded(g, 20, [&] { var[i] = ad::sin(var[j] * ad::cos(var[k] + var[j])) - ad::exp(ad::simulated::negated(var[k] * var[k])) * F(Num(2.)); }); if (!done) break;
            L X = lift(x), Y = lift(y); expect(var[i], unary(1, X * unary(2, Y + X)) - unary(7, unary(0, Y * Y)) * c<L>(2), tame(x) && tame(y), "a chain of temporaries", m[i]); break; }
        }
        if (!(std::fabs(m[i].v) < 1e4) || !(std::fabs(m[i].a) < 1e5)) if (g.chance(0.5)) put(i, value(g), seed(g));
    }
    Result run() {
        alloc::st.fill = s.env.fill; alloc::st.corrupt = 0; alloc::disarm(); fault::disarm(); long live0 = alloc::st.live;
        try {
            { alloc::Scope sc; var = std::vector<F>(NS); }
            check();
            for (size_t q = 0; q < s.ops.size(); ++q) { step = (int)q; run_op(s.ops[q]); st.inc("steps"); check(); ctx = mix64(ctx ^ s.ops[q].kind); if (q % 4 == 3) st.states.insert(mix64(ctx)); }
            step = (int)s.ops.size(); { alloc::Scope sc; var = {}; box = {}; keyed.clear(); std::vector<F>().swap(var); std::vector<F>().swap(box); }
            if (alloc::st.live != live0) fail("leak", fmt("%ld heap blocks are left after every variable was destroyed", alloc::st.live - live0));
        } catch (const Violation& v) { res.ok = false; res.cls = v.cls; res.msg = v.msg; res.at = step; }
        res.hash = h.h; return res;
    }
};
}
namespace fault { State st;
#ifdef NUM_SIM
bool bomb = false;
#endif
void fire() { ++st.fired; ++st.total_fired; throw UserError(st.id); } }
void engine_init() {}
const char* engine_build() {
#ifdef NUM_SIM
    return "forward-mode, user scalar";
#else
    return "forward-mode";
#endif
}
std::string prog_name(int) { return "-"; }
int prog_find(const std::string&) { return -1; }
void engine_list() { for (auto n : names) puts(n); }
bool engine_relevant(const std::string&, const std::string& c) { return c != "harness"; }
bool engine_attributed(const Spec&, const Result&, std::function<Result(const Spec&)>) { return true; }
std::string op_text(const Spec&, const OpRec& o) { return names[o.kind]; }
std::string task_text(const Spec&, int) { return ""; }
Spec make_spec(const std::string& profile, uint64_t seed) {
    Spec s; s.profile = profile; s.seed = seed; Rng g(mix64(seed) ^ hash_str("C16"));
    static const uint64_t fills[] = {0x7ff4dead7ff4deadull, 0, 0x3ff8000000000000ull, 0xc05a8ba3d70a3d71ull};
    s.env.fill = fills[g.below(4)]; s.knob["pfault"] = g.chance(0.3) ? 0 : 5 + g.below(35);
    double w[NOPS], base[NOPS] = {3, 3, 3, 9, 7, 4, 1.5, 2, 1, 5, 2, 2, 1.5, 1, 1, 1.5, 2}, tot = 0;
    for (int i = 0; i < NOPS; ++i) { w[i] = base[i] * (i && g.chance(0.25) ? (g.chance(0.5) ? 0 : 3) : 1); tot += w[i]; }
    int n = 40 + g.below(160);
    for (int i = 0; i < NS; ++i) s.ops.push_back({NEW, i, 0, g.next()});
    while ((int)s.ops.size() < n) { double x = g.unit() * tot; int k = 0; while (k < NOPS - 1 && x >= w[k]) x -= w[k++]; s.ops.push_back({k, (int)g.below(1000), (int)g.below(1000), g.next()}); }
    return s;
}
Result exec_spec(const Spec& s, Stats& st, bool log) { Fwd* l = new Fwd(s, st, log); Result r = l->run(); if (r.ok) delete l; return r; }
