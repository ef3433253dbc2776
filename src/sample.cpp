// Values for variables and constants: inside the domain an expression needs, or deliberately outside it.
#include "world.hpp"
#include <cmath>

int dim(int code, int n, int k) { return code == 0 ? n : code == 1 ? k : code == 2 ? 1 : n + k; }

// ---- values ------------------------------------------------------------------------------
static double pick0(Rng& g, const std::string& d, int n) {
    if (d == "real") return g.range(-2, 2);
    if (d == "pos") return g.range(0.3, 3);
    if (d == "unit") return g.range(0.05, 0.95);
    if (d == "sym1") return g.range(-0.9, 0.9);
    if (d == "nz") return (g.chance(0.5) ? 1 : -1) * g.range(0.4, 2);
    if (d == "bin") return g.chance(0.5) ? 1 : 0;
    if (d == "angle") return g.range(-1.2, 1.2);
    if (d == "zmix") return g.chance(0.3) ? 0.0 : g.range(-2, 2);
    if (d == "mid") return g.range(-0.8, 0.8);
    if (d == "lo") return g.range(-3, -1);
    if (d == "hi") return g.range(1, 3);
    if (d == "dof") return n + g.range(0.5, 3);
    return 0;   // placeholder
}
static double pick1(Rng& g, const std::string& d, int n) {
    double x = pick0(g, d, n);
    if (g.chance(0.06)) { if (d == "real" || d == "zmix" || d == "mid" || d == "sym1" || d == "angle") x *= std::pow(10., -(double)g.below(14)); else if (d == "pos" || d == "nz") x *= std::pow(10., -(double)g.below(4)); }
    return x;
}
void sample(Rng& g, const std::string& d, int kind, int r, int c, int n, Num* out) {
    if (kind == MAT && (d == "spd" || d == "gen")) {
        std::vector<double> b(r * c);
        for (auto& x : b) x = g.range(-1, 1);
        double scale = g.chance(0.08) ? std::pow(10., (double)g.below(9) - 6) : 1;       // the same matrix in other units
        if (d == "gen") { for (int i = 0; i < r; ++i) b[i + i * r] += (g.chance(0.5) ? 1 : -1) * (1.2 + 0.4 * r); for (int i = 0; i < r * c; ++i) out[i] = b[i] * scale; return; }
        for (int i = 0; i < r; ++i) for (int j = 0; j <= i; ++j) {
            double s = i == j ? 0.7 : 0; for (int q = 0; q < r; ++q) s += b[i + q * r] * b[j + q * r];
            out[i + j * r] = s * scale; out[j + i * r] = s * scale;
        }
        return;
    }
    for (int i = 0; i < r * c; ++i) out[i] = pick1(g, d, n);
    if (kind != SCL && g.chance(0.06)) {                                                  // all of it in other units
        double scale = d == "pos" ? std::pow(10., (double)g.below(9) - 3) : d == "real" ? std::pow(10., (double)g.below(6) - 3) : d == "nz" ? std::pow(10., (double)g.below(7) - 3) : 1;
        for (int i = 0; i < r * c; ++i) out[i] = D(out[i]) * scale;
    }
}
void sample_bad(Rng& g, const std::string& d, int kind, int r, int c, int n, Num* out, bool wild) {
    sample(g, d, kind, r, c, n, out);
    int sz = r * c; if (!sz) return;
    const double inf = HUGE_VAL, nan = __builtin_nan("");
    int e = g.below(sz);
    if (wild && g.chance(0.35)) { double w[] = {nan, inf, -inf, 1e200, -1e200, 1e-320, -0.0}; double x = w[g.below(7)]; if (g.chance(0.2)) for (int i = 0; i < sz; ++i) out[i] = x; else out[e] = x; return; }
    if (kind == MAT && (d == "spd" || d == "gen")) {
        auto at = [&](int i, int j) -> Num& { return out[i + j * r]; };
        switch (g.below(6)) {
        case 0: for (int i = 0; i < sz; ++i) out[i] = 0.0; break;
        case 1: { int i = g.below(r); at(i, i) = -D(at(i, i)) - 1.0; break; }
        case 2: { if (r > 1) { int i = g.below(r), j = (i + 1) % r; for (int q = 0; q < r; ++q) at(j, q) = at(i, q); if (d == "spd") { for (int q = 0; q < r; ++q) at(q, j) = at(q, i); at(j, j) = at(i, i); } } else at(0, 0) = 0.0; break; }
        case 3: { for (int i = 0; i < sz; ++i) out[i] = -D(out[i]); break; }
        case 4: { int i = g.below(r); for (int q = 0; q < r; ++q) { at(i, q) = 0.0; at(q, i) = 0.0; } break; }
        default: { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) at(i, j) = 1.0; break; }   // rank one
        }
        return;
    }
    double b = 0;
    if (d == "pos") { double w[] = {0, -1, -0.5, -1e-3}; b = w[g.below(4)]; }
    else if (d == "unit") { double w[] = {-0.5, 1.5, 0, 1, -1e-3, 1.001}; b = w[g.below(6)]; }
    else if (d == "bin") { double w[] = {0.5, 2, -1, 1.5}; b = w[g.below(4)]; }
    else if (d == "mid") { double w[] = {-7, 7, 3.5, -3.5}; b = w[g.below(4)]; }
    else if (d == "lo") { double w[] = {2, 5, 0.9}; b = w[g.below(3)]; }
    else if (d == "hi") { double w[] = {-2, -5, -0.9}; b = w[g.below(3)]; }
    else if (d == "dof") b = n - 1 - g.range(0.2, 2);
    else if (d == "sym1") b = g.chance(0.5) ? 1.5 : -1.5;
    else if (d == "nz") b = 0;
    else { double w[] = {0, 5, -5, 0}; b = w[g.below(4)]; }
    out[e] = b;
    if (g.chance(0.15)) for (int i = 0; i < sz; ++i) out[i] = b;
}

