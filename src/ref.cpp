#include "ref.hpp"
namespace ref {
E::E(double x) : E(mk([x](Env& e) { Ten t(SCL, 1, 1, e.N); t.v[0] = x; return t; })) {}
E::E(const RVar& v) { View w = v.w; *this = mk([w](Env& e) { Ten t = load(e, w); e.see(t); return t; }); }
E assign(const View& w, const E& x) {
    return mk([w, x](Env& e) { Ten t = x.p->eval(e); store(e, w, t, true); return load(e, w); });
}

// ---- elementwise --------------------------------------------------------------
inline Ten map1(Env& e, const Ten& x, const std::function<LD(LD)>& f, const std::function<LD(LD)>& d) {
    Ten t(x.kind, x.r, x.c, e.N);
    for (int i = 0; i < x.size(); ++i) {
        t.v[i] = f(x.v[i]); LD k = d(x.v[i]);
        for (int j = 0; j < e.N; ++j) t.gr(i)[j] = x.gr(i)[j] == 0 ? 0 : k * x.gr(i)[j];
    }
    e.see(t); return t;
}
E un(const E& a, std::function<LD(LD)> f, std::function<LD(LD)> d) {
    return mk([a, f, d](Env& e) { Ten x = a.p->eval(e); return map1(e, x, f, d); });
}
#define REF_UN(name, F, D) E name(const E& a) { \
    return un(toE(a), [](LD x) -> LD { return F; }, [](LD x) -> LD { return D; }); }
REF_UN(operator-, -x, -1.0L + 0 * x)
REF_UN(sin, std::sin(x), std::cos(x))
REF_UN(cos, std::cos(x), -std::sin(x))
REF_UN(tan, std::tan(x), 1 / (std::cos(x) * std::cos(x)))
REF_UN(asin, std::asin(x), 1 / std::sqrt(1 - x * x))
REF_UN(acos, std::acos(x), -1 / std::sqrt(1 - x * x))
REF_UN(atan, std::atan(x), 1 / (1 + x * x))
REF_UN(exp, std::exp(x), std::exp(x))
REF_UN(log, std::log(x), 1 / x)
REF_UN(sqrt, std::sqrt(x), 0.5L / std::sqrt(x))
REF_UN(erf, std::erf(x), 2 / std::sqrt(std::acos(-1.0L)) * std::exp(-x * x))
REF_UN(sigmoid, 1 / (1 + std::exp(-x)), std::exp(-x) / ((1 + std::exp(-x)) * (1 + std::exp(-x))))
REF_UN(sinh, std::sinh(x), std::cosh(x))
REF_UN(cosh, std::cosh(x), std::sinh(x))
REF_UN(tanh, std::tanh(x), 1 - std::tanh(x) * std::tanh(x))
#undef REF_UN

using F2 = LD (*)(LD, LD);
inline Ten map2(Env& e, const Ten& x, const Ten& y, F2 f, F2 dx, F2 dy) {
    const Ten& big = x.kind >= y.kind ? x : y;
    Ten t(big.kind, big.r, big.c, e.N);
    for (int i = 0; i < t.size(); ++i) {
        int a = x.kind == SCL ? 0 : i, b = y.kind == SCL ? 0 : i;
        LD u = x.v[a], w = y.v[b];
        t.v[i] = f(u, w);
        LD p = dx ? dx(u, w) : 0, q = dy ? dy(u, w) : 0;
        for (int j = 0; j < e.N; ++j) {
            LD gx = x.gr(a)[j], gy = y.gr(b)[j];
            t.gr(i)[j] = (gx == 0 || !dx ? 0 : p * gx) + (gy == 0 || !dy ? 0 : q * gy);
        }
    }
    e.see(t); return t;
}
E bin(const E& a, const E& b, F2 f, F2 dx, F2 dy) {
    return mk([=](Env& e) { Ten x = a.p->eval(e); Ten y = b.p->eval(e); return map2(e, x, y, f, dx, dy); });
}
#define REF_BIN(op, F, DX, DY) E op(const E& a, const E& b) { \
    return bin(toE(a), toE(b), [](LD x, LD y) -> LD { (void)x; (void)y; return F; }, \
        [](LD x, LD y) -> LD { (void)x; (void)y; return DX; }, [](LD x, LD y) -> LD { (void)x; (void)y; return DY; }); }
REF_BIN(operator+, x + y, 1, 1)
REF_BIN(operator-, x - y, 1, -1)
REF_BIN(operator*, x * y, y, x)
REF_BIN(operator/, x / y, 1 / y, -x / (y * y))
#undef REF_BIN
E cmp(const E& a, const E& b, F2 f) {
    return mk([=](Env& e) {
        Ten x = a.p->eval(e); Ten y = b.p->eval(e);
        Ten t = map2(e, x, y, f, nullptr, nullptr);
        for (int i = 0; i < t.size(); ++i) {
            LD u = x.v[x.kind == SCL ? 0 : i], w = y.v[y.kind == SCL ? 0 : i];
            if (std::isnan(u) || std::isnan(w)) e.vague = true;
            LD d = std::fabs(u - w); if (d != 0 && d < 1e-9L * (1 + std::fabs(u))) e.near_branch = true;
        }
        return t;
    });
}
#define REF_CMP(op, F) E op(const E& a, const E& b) { \
    return cmp(toE(a), toE(b), [](LD x, LD y) -> LD { return (F) ? 1 : 0; }); }
REF_CMP(operator<, x < y)
REF_CMP(operator<=, x <= y)
REF_CMP(operator>, x > y)
REF_CMP(operator>=, x >= y)
REF_CMP(operator==, x == y)
REF_CMP(operator!=, x != y)
REF_CMP(operator&&, x != 0 && y != 0)
REF_CMP(operator||, x != 0 || y != 0)
#undef REF_CMP

// ---- assignment, sequencing -----------------------------------------------------
#define REF_OPEQ(op, sym) E op(const RVar& a, const E& b) { \
    View w = a.w; E x = toE(b); E l = toE(a); \
    return mk([w, x, l](Env& e) { Ten y = x.p->eval(e); Ten cur = load(e, w); \
        E ec = mk([cur](Env&) { return cur; }); E ey = mk([y](Env&) { return y; }); \
        Ten t = (ec sym ey).p->eval(e); store(e, w, t, false); return t; }); }
REF_OPEQ(operator+=, +)
REF_OPEQ(operator-=, -)
REF_OPEQ(operator*=, *)
REF_OPEQ(operator/=, /)
#undef REF_OPEQ

E operator,(const E& a, const E& b) {
    E x = toE(a), y = toE(b);
    return mk([x, y](Env& e) { x.p->eval(e); return y.p->eval(e); });
}
E seq(const std::vector<E>& xs) { return mk([xs](Env& e) { Ten t; for (auto& x : xs) t = x.p->eval(e); return t; }); }
// no terms: the empty sum is 0, the empty product 1
static E unit_list(double u) { return mk([u](Env& e) { Ten t(SCL, 1, 1, e.N); t.v[0] = u; return t; }); }
E sum_list(const std::vector<E>& xs) {
    if (xs.empty()) return unit_list(0);
    return mk([xs](Env& e) { Ten t; bool first = true; for (auto& x : xs) { Ten y = x.p->eval(e);
        if (first) { t = y; first = false; } else t = map2(e, t, y, [](LD a, LD b) -> LD { return a + b; }, [](LD, LD) -> LD { return 1; }, [](LD, LD) -> LD { return 1; }); } return t; });
}
E prod_list(const std::vector<E>& xs) {
    if (xs.empty()) return unit_list(1);
    return mk([xs](Env& e) { Ten t; bool first = true; for (auto& x : xs) { Ten y = x.p->eval(e);
        if (first) { t = y; first = false; } else t = map2(e, t, y, [](LD a, LD b) -> LD { return a * b; }, [](LD, LD b) -> LD { return b; }, [](LD a, LD) -> LD { return a; }); } return t; });
}
E sum(const E& a) { E x = toE(a);
    return mk([x](Env& e) { Ten y = x.p->eval(e); Ten t(SCL, 1, 1, e.N);
        for (int i = 0; i < y.size(); ++i) { t.v[0] += y.v[i]; for (int j = 0; j < e.N; ++j) t.g[j] += y.gr(i)[j]; }
        e.see(t); return t; }); }
E prod(const E& a) { E x = toE(a);
    return mk([x](Env& e) { Ten y = x.p->eval(e); Ten t(SCL, 1, 1, e.N); t.v[0] = 1;
        for (int i = 0; i < y.size(); ++i) {
            for (int j = 0; j < e.N; ++j) t.g[j] = t.g[j] * y.v[i] + t.v[0] * y.gr(i)[j];
            t.v[0] *= y.v[i]; }
        e.see(t); return t; }); }
E norm(const E& a) { E x = toE(a);   // squared norm
    return mk([x](Env& e) { Ten y = x.p->eval(e); Ten t(SCL, 1, 1, e.N);
        for (int i = 0; i < y.size(); ++i) { t.v[0] += y.v[i] * y.v[i]; for (int j = 0; j < e.N; ++j) t.g[j] += 2 * y.v[i] * y.gr(i)[j]; }
        e.see(t); return t; }); }
E transpose(const E& a) { E x = toE(a);
    return mk([x](Env& e) { Ten y = x.p->eval(e); Ten t(MAT, y.c, y.r, e.N);
        for (int i = 0; i < y.r; ++i) for (int k = 0; k < y.c; ++k) { t.v[k + i * y.c] = y.v[i + k * y.r];
            for (int j = 0; j < e.N; ++j) t.gr(k + i * y.c)[j] = y.gr(i + k * y.r)[j]; }
        e.see(t); return t; }); }
inline Ten matmul(Env& e, const Ten& x, const Ten& y) {
    Ten t(y.c == 1 && y.kind == VEC ? VEC : MAT, x.r, y.c, e.N);
    for (int i = 0; i < x.r; ++i) for (int k = 0; k < y.c; ++k) for (int m = 0; m < x.c; ++m) {
        int a = i + m * x.r, b = m + k * y.r, o = i + k * x.r;
        t.v[o] += x.v[a] * y.v[b];
        for (int j = 0; j < e.N; ++j) t.gr(o)[j] += x.gr(a)[j] * y.v[b] + x.v[a] * y.gr(b)[j];
    }
    e.see(t); return t;
}
E dot(const E& a, const E& b) { E x = toE(a), y = toE(b);
    return mk([x, y](Env& e) { Ten u = x.p->eval(e); Ten w = y.p->eval(e); return matmul(e, u, w); }); }
E pow_n(const E& a, int n) { E x = toE(a);
    auto pw = [](LD b, int k) -> LD { LD r = 1; int m = k < 0 ? -k : k; for (int i = 0; i < m; ++i) r *= b; return k < 0 ? 1 / r : r; };
    return un(x, [pw, n](LD v) -> LD { return pw(v, n); }, [pw, n](LD v) -> LD { return n == 0 ? 0 : n * pw(v, n - 1); }); }
E if_else(const E& c, const E& a, const E& b) {
    E x = toE(c), y = toE(a), z = toE(b);
    return mk([x, y, z](Env& e) { Ten t = x.p->eval(e); ++e.branches; if (std::isnan(t.v[0])) e.vague = true;
        return (t.v[0] != 0 ? y : z).p->eval(e); }); }

// ---- linear algebra on duals -------------------------------------------------------
// Gaussian elimination with complete pivoting on dual numbers: log|det|, sign, min pivot ratio.
struct DetInfo { LD logabs; int sign; LD minpiv, maxpiv; std::vector<LD> g; bool ok; };
inline DetInfo det_info(Env& e, Ten m) {
    int n = m.r; DetInfo d; d.logabs = 0; d.sign = 1; d.minpiv = LDBL_MAX; d.maxpiv = 0; d.g.assign(e.N, 0); d.ok = true;
    auto at = [&](int i, int j) { return i + j * n; };
    for (LD x : m.v) if (!std::isfinite((double)x)) { d.ok = false; e.nonfinite = true; return d; }
    for (int k = 0; k < n; ++k) {
        int pr = k, pc = k; LD best = -1;
        for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (std::fabs(m.v[at(i, j)]) > best) { best = std::fabs(m.v[at(i, j)]); pr = i; pc = j; }
        if (pr != k) { d.sign = -d.sign; for (int j = 0; j < n; ++j) { std::swap(m.v[at(k, j)], m.v[at(pr, j)]); for (int q = 0; q < e.N; ++q) std::swap(m.gr(at(k, j))[q], m.gr(at(pr, j))[q]); } }
        if (pc != k) { d.sign = -d.sign; for (int i = 0; i < n; ++i) { std::swap(m.v[at(i, k)], m.v[at(i, pc)]); for (int q = 0; q < e.N; ++q) std::swap(m.gr(at(i, k))[q], m.gr(at(i, pc))[q]); } }
        LD p = m.v[at(k, k)]; d.minpiv = std::min(d.minpiv, std::fabs(p)); d.maxpiv = std::max(d.maxpiv, std::fabs(p));
        if (p == 0) { d.ok = false; return d; }
        if (p < 0) d.sign = -d.sign;
        d.logabs += std::log(std::fabs(p));
        for (int q = 0; q < e.N; ++q) d.g[q] += m.gr(at(k, k))[q] / p;
        for (int i = k + 1; i < n; ++i) {
            LD f = m.v[at(i, k)] / p; std::vector<LD> fg(e.N);
            for (int q = 0; q < e.N; ++q) fg[q] = (m.gr(at(i, k))[q] - f * m.gr(at(k, k))[q]) / p;
            for (int j = k; j < n; ++j) {
                for (int q = 0; q < e.N; ++q) m.gr(at(i, j))[q] -= fg[q] * m.v[at(k, j)] + f * m.gr(at(k, j))[q];
                m.v[at(i, j)] -= f * m.v[at(k, j)];
            }
        }
    }
    return d;
}
// positive-definiteness of the symmetric matrix given by the lower triangle: 1 yes, 0 no, -1 too close / non-finite
inline int posdef(const Ten& m) {
    int n = m.r; std::vector<LD> a = m.v; LD scale = 0;
    for (LD x : a) { if (!std::isfinite((double)x)) return -1; scale = std::max(scale, std::fabs(x)); }
    if (scale == 0) return n == 0 ? 1 : 0;
    auto at = [&](int i, int j) { return i + j * n; };
    for (int k = 0; k < n; ++k) {
        LD p = a[at(k, k)];
        if (std::fabs(p) < 1e-9L * scale) return -1;
        if (p <= 0) return 0;
        LD s = std::sqrt(p);
        for (int i = k; i < n; ++i) a[at(i, k)] /= s;
        for (int j = k + 1; j < n; ++j) for (int i = j; i < n; ++i) a[at(i, j)] -= a[at(i, k)] * a[at(j, k)];
    }
    return 1;
}
inline bool symmetric(const Ten& m) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < i; ++j) if (m.v[i + j * m.r] != m.v[j + i * m.r]) return false; return true; }
// certainly not factorisable, whatever the rounding (near-singular matrices may well factorise numerically)
inline bool hopeless(const Ten& m, int policy, bool singular) {
    int n = m.r; bool zero_row = false;
    for (int i = 0; i < n; ++i) { bool z = true; for (int j = 0; j < n; ++j) z &= m.v[i + j * n] == 0 && m.v[j + i * n] == 0; zero_row |= z; }
    if (zero_row) return true;
    if (policy == FULL) return singular;
    if (policy == LLT) { for (int i = 0; i < n; ++i) if (m.v[i + i * n] <= 0) return true; return posdef(m) == 0; }
    return false;
}
E det_any(const E& x, int policy, bool logd) {
    return mk([=](Env& e) {
        Ten m = x.p->eval(e); Ten t(SCL, 1, 1, e.N);
        for (LD v : m.v) if (!std::isfinite((double)v)) { e.vague = true; e.nonfinite = true; return t; }
        Ten mj = m; if (e.jitter) e.blur(mj);
        DetInfo d = det_info(e, mj);
        if (!d.ok || d.minpiv < 1e-7L * d.maxpiv) {
            // singular: no gradient (judged by the no-write rule), value judged only for exactly singular det
            e.oos = true; e.vague = true; if (hopeless(m, policy, !d.ok)) e.nowrite = true; t.v[0] = 0; return t;
        }
        if (policy != FULL && !symmetric(m)) { e.vague = true; e.adj_vague = true; return t; }
        if (policy == LLT) { int pd = posdef(m); if (pd != 1) { e.oos = true; e.vague = true; if (hopeless(m, policy, false)) e.nowrite = true; return t; } }
        if (policy == LDLT && posdef(m) != 1) { Ten mm = m; for (LD& v : mm.v) v = -v; if (posdef(mm) != 1) { e.vague = true; e.adj_vague = true; return t; } }
        if (logd) { t.v[0] = d.logabs; t.g = d.g; }
        else { t.v[0] = d.sign * std::exp(d.logabs); for (int q = 0; q < e.N; ++q) t.g[q] = t.v[0] * d.g[q]; }
        e.see(t); return t;
    });
}

// solve A z = b on duals (b: n x k)
inline Ten solve(Env& e, Ten a, Ten b) {
    int n = a.r, k = b.c; auto at = [&](int i, int j) { return i + j * n; };
    for (int c = 0; c < n; ++c) {
        int p = c; for (int i = c + 1; i < n; ++i) if (std::fabs(a.v[at(i, c)]) > std::fabs(a.v[at(p, c)])) p = i;
        if (p != c) {
            for (int j = 0; j < n; ++j) { std::swap(a.v[at(c, j)], a.v[at(p, j)]); for (int q = 0; q < e.N; ++q) std::swap(a.gr(at(c, j))[q], a.gr(at(p, j))[q]); }
            for (int j = 0; j < k; ++j) { std::swap(b.v[at(c, j)], b.v[at(p, j)]); for (int q = 0; q < e.N; ++q) std::swap(b.gr(at(c, j))[q], b.gr(at(p, j))[q]); }
        }
        LD pv = a.v[at(c, c)];
        for (int i = 0; i < n; ++i) if (i != c) {
            LD f = a.v[at(i, c)] / pv; std::vector<LD> fg(e.N);
            for (int q = 0; q < e.N; ++q) fg[q] = (a.gr(at(i, c))[q] - f * a.gr(at(c, c))[q]) / pv;
            for (int j = c; j < n; ++j) { for (int q = 0; q < e.N; ++q) a.gr(at(i, j))[q] -= fg[q] * a.v[at(c, j)] + f * a.gr(at(c, j))[q]; a.v[at(i, j)] -= f * a.v[at(c, j)]; }
            for (int j = 0; j < k; ++j) { for (int q = 0; q < e.N; ++q) b.gr(at(i, j))[q] -= fg[q] * b.v[at(c, j)] + f * b.gr(at(c, j))[q]; b.v[at(i, j)] -= f * b.v[at(c, j)]; }
        }
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) {
        LD pv = a.v[at(i, i)], z = b.v[at(i, j)] / pv;
        for (int q = 0; q < e.N; ++q) b.gr(at(i, j))[q] = (b.gr(at(i, j))[q] - z * a.gr(at(i, i))[q]) / pv;
        b.v[at(i, j)] = z;
    }
    return b;
}

// ---- densities (up to additive constants) --------------------------------------------
struct D1 { LD v; const LD* g; };
inline Ten neg_inf(Env& e) { Ten t(SCL, 1, 1, e.N); t.v[0] = -HUGE_VALL; e.oos = true; return t; }
inline bool bad(Env& e, const Ten& x) { for (LD v : x.v) if (!std::isfinite((double)v)) { e.vague = true; e.nonfinite = true; return true; } return false; }
inline int ix(const Ten& x, int i) { return x.size() == 1 ? 0 : i; }
inline int many(const Ten& a, const Ten& b) { return a.kind == SCL ? b.size() : a.size(); }      // how many observations (possibly none)
inline int many(const Ten& a, const Ten& b, const Ten& c) { return a.kind == SCL ? many(b, c) : a.size(); }
inline void acc(Ten& t, const Ten& x, int i, LD d) { for (int q = 0; q < t.N; ++q) t.g[q] += d * x.gr(i)[q]; }

E normal_adj_log_pdf(const E& x_, const E& m_, const E& s_) {
    E X_ = toE(x_), M_ = toE(m_), S_ = toE(s_);
    return mk([=](Env& e) {
        Ten x = X_.p->eval(e), m = M_.p->eval(e), s = S_.p->eval(e); Ten t(SCL, 1, 1, e.N);
        if (bad(e, x) | bad(e, m) | bad(e, s)) return t;
        if (s.kind == MAT) {
            int pd = posdef(s); if (pd < 0) { e.vague = true; return t; }
            if (!symmetric(s)) { e.vague = true; return t; }
            if (!pd) return neg_inf(e);
            DetInfo d = det_info(e, s);
            Ten z(VEC, s.r, 1, e.N);
            for (int i = 0; i < s.r; ++i) { z.v[i] = x.v[ix(x, i)] - m.v[ix(m, i)]; for (int q = 0; q < e.N; ++q) z.gr(i)[q] = x.gr(ix(x, i))[q] - m.gr(ix(m, i))[q]; }
            Ten w = solve(e, s, z);
            LD quad = 0; std::vector<LD> qg(e.N, 0);
            for (int i = 0; i < s.r; ++i) { quad += z.v[i] * w.v[i]; for (int q = 0; q < e.N; ++q) qg[q] += z.gr(i)[q] * w.v[i] + z.v[i] * w.gr(i)[q]; }
            t.v[0] = -0.5L * quad - 0.5L * d.logabs;
            for (int q = 0; q < e.N; ++q) t.g[q] = -0.5L * qg[q] - 0.5L * d.g[q];
            e.see(t); return t;
        }
        for (LD v : s.v) if (!(v > 0)) return neg_inf(e);
        int n = many(x, m, s);
        for (int i = 0; i < n; ++i) {
            int a = ix(x, i), b = ix(m, i), c = ix(s, i);
            LD sd = s.v[c], z = (x.v[a] - m.v[b]) / sd;
            t.v[0] += -0.5L * z * z - std::log(sd);
            acc(t, x, a, -z / sd); acc(t, m, b, z / sd); acc(t, s, c, (z * z - 1) / sd);
        }
        e.see(t); return t;
    });
}
E cauchy_adj_log_pdf(const E& x_, const E& m_, const E& s_) {
    E X_ = toE(x_), M_ = toE(m_), S_ = toE(s_);
    return mk([=](Env& e) {
        Ten x = X_.p->eval(e), m = M_.p->eval(e), s = S_.p->eval(e); Ten t(SCL, 1, 1, e.N);
        if (bad(e, x) | bad(e, m) | bad(e, s)) return t;
        for (LD v : s.v) if (!(v > 0)) return neg_inf(e);
        int n = many(x, m, s);
        for (int i = 0; i < n; ++i) {
            int a = ix(x, i), b = ix(m, i), c = ix(s, i);
            LD g = s.v[c], d = x.v[a] - m.v[b], q = g * g + d * d;
            t.v[0] += -std::log(g + d * d / g);
            acc(t, x, a, -2 * d / q); acc(t, m, b, 2 * d / q); acc(t, s, c, -(1 - d * d / (g * g)) / (g + d * d / g));
        }
        e.see(t); return t;
    });
}
E uniform_adj_log_pdf(const E& x_, const E& m_, const E& s_) {
    E X_ = toE(x_), M_ = toE(m_), S_ = toE(s_);
    return mk([=](Env& e) {
        Ten x = X_.p->eval(e), lo = M_.p->eval(e), hi = S_.p->eval(e); Ten t(SCL, 1, 1, e.N);
        if (bad(e, x) | bad(e, lo) | bad(e, hi)) return t;
        int n = many(x, lo, hi);
        bool in = true;
        for (int i = 0; i < n; ++i) {
            LD a = x.v[ix(x, i)], l = lo.v[ix(lo, i)], h = hi.v[ix(hi, i)];
            if (a == l || a == h) e.vague = true;
            if (!(l < a && a < h)) in = false;
        }
        if (!in) return neg_inf(e);
        if (n == 0 && lo.kind == SCL && hi.kind == SCL && !(lo.v[0] < hi.v[0])) { e.vague = true; return t; }
        for (int i = 0; i < n; ++i) {
            int b = ix(lo, i), c = ix(hi, i); LD w = hi.v[c] - lo.v[b];
            t.v[0] += -std::log(w); acc(t, lo, b, 1 / w); acc(t, hi, c, -1 / w);
        }
        e.see(t); return t;
    });
}
E bernoulli_adj_log_pdf(const E& x_, const E& p_) {
    E X_ = toE(x_), P_ = toE(p_);
    return mk([=](Env& e) {
        Ten x = X_.p->eval(e), p = P_.p->eval(e); Ten t(SCL, 1, 1, e.N);
        if (bad(e, x) | bad(e, p)) return t;
        for (LD v : x.v) if (v != 0 && v != 1) return neg_inf(e);
        int n = many(x, p); bool ninf = false;
        for (int i = 0; i < n; ++i) {            // probabilities are clipped into [0,1]
            int a = ix(x, i), b = ix(p, i); LD q = p.v[b];
            if (q <= 0) { if (x.v[a] != 0) ninf = true; }
            else if (q >= 1) { if (x.v[a] != 1) ninf = true; }
            else if (q < 1e-5L || q > 1 - 1e-5L) { e.vague = true; return t; }     // ill-conditioned in double
            else { t.v[0] += x.v[a] == 1 ? std::log(q) : std::log(1 - q); acc(t, p, b, x.v[a] == 1 ? 1 / q : -1 / (1 - q)); }
        }
        if (ninf) { t.v[0] = -HUGE_VALL; e.oos = true; }                          // elements in range keep their derivatives
        e.see(t); return t;
    });
}
E wishart_adj_log_pdf(const E& x_, const E& v_, const E& n_) {
    E X_ = toE(x_), V_ = toE(v_), N_ = toE(n_);
    return mk([=](Env& e) {
        Ten x = X_.p->eval(e), v = V_.p->eval(e), nn = N_.p->eval(e); Ten t(SCL, 1, 1, e.N);
        if (bad(e, x) | bad(e, v) | bad(e, nn)) return t;
        if (!symmetric(x) || !symmetric(v)) { e.vague = true; return t; }
        int px = posdef(x), pv = posdef(v); LD n = nn.v[0], p = x.r;
        if (px < 0 || pv < 0 || n + 1 == p) { e.vague = true; return t; }
        if (!px || !pv || !(n + 1 > p)) return neg_inf(e);
        DetInfo dx = det_info(e, x), dv = det_info(e, v);
        Ten z = solve(e, v, x); LD tr = 0; std::vector<LD> tg(e.N, 0);
        for (int i = 0; i < x.r; ++i) { tr += z.v[i + i * x.r]; for (int q = 0; q < e.N; ++q) tg[q] += z.gr(i + i * x.r)[q]; }
        t.v[0] = 0.5L * ((n - p - 1) * dx.logabs - tr - n * dv.logabs);
        for (int q = 0; q < e.N; ++q) t.g[q] = 0.5L * ((n - p - 1) * dx.g[q] - tg[q] - n * dv.g[q]);
        e.see(t); return t;
    });
}
} // namespace ref
