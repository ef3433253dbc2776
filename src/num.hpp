#pragma once
// The scalar type the simulated system computes with: double, or (NUM_SIM) a user-supplied
// scalar whose every arithmetic operation is a point where user code may throw.
#include <cmath>
#include <cstdint>
#include <exception>

struct UserError : std::exception { int id; explicit UserError(int i) : id(i) {} const char* what() const noexcept override { return "user error"; } };

namespace fault {                      // user-code fault points
struct State { bool on = false; long n = 0; long fail_at = -1; long fired = 0, total = 0, total_fired = 0; int id = 0; };
extern State st;
inline void arm(long at, int id) { st.n = 0; st.fail_at = at; st.fired = 0; st.id = id; st.on = true; }
inline void disarm() { st.on = false; st.fail_at = -1; }
[[noreturn]] void fire();
inline void point() { if (__builtin_expect(st.on, 0)) { ++st.total; if (st.n++ == st.fail_at) fire(); } }
}

#ifndef NUM_SIM
using Num = double;
inline double D(double x) { return x; }
#else
#include <limits>
#include <ostream>
namespace fault {
extern bool bomb;                      // some value in the system is a bomb
inline bool is_bomb(double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); return u == 0x7ff8b0b0b0b0b0b0ull; }
inline void point(double a) { point(); if (__builtin_expect(bomb, 0) && is_bomb(a)) fire(); }
inline void point(double a, double b) { point(); if (__builtin_expect(bomb, 0) && (is_bomb(a) || is_bomb(b))) fire(); }
}
struct Num {
    double x;
    Num() = default;
    constexpr Num(double d) : x(d) {}
    constexpr Num(int d) : x(d) {}
    constexpr Num(long d) : x((double)d) {}
    constexpr Num(unsigned long d) : x((double)d) {}
    constexpr Num(unsigned d) : x(d) {}
    constexpr Num(bool d) : x(d) {}
    explicit operator double() const { return x; }
    explicit operator int() const { return (int)x; }
    explicit operator bool() const { return x != 0; }
    Num& operator+=(Num o) { fault::point(x, o.x); x += o.x; return *this; }
    Num& operator-=(Num o) { fault::point(x, o.x); x -= o.x; return *this; }
    Num& operator*=(Num o) { fault::point(x, o.x); x *= o.x; return *this; }
    Num& operator/=(Num o) { fault::point(x, o.x); x /= o.x; return *this; }
    friend Num operator+(Num a, Num b) { fault::point(a.x, b.x); return Num(a.x + b.x); }
    friend Num operator-(Num a, Num b) { fault::point(a.x, b.x); return Num(a.x - b.x); }
    friend Num operator*(Num a, Num b) { fault::point(a.x, b.x); return Num(a.x * b.x); }
    friend Num operator/(Num a, Num b) { fault::point(a.x, b.x); return Num(a.x / b.x); }
    friend constexpr Num operator-(Num a) { if (!__builtin_is_constant_evaluated()) fault::point(a.x); return Num(-a.x); }
    friend Num operator+(Num a) { return a; }
    friend bool operator<(Num a, Num b) { fault::point(a.x, b.x); return a.x < b.x; }
    friend bool operator<=(Num a, Num b) { fault::point(a.x, b.x); return a.x <= b.x; }
    friend bool operator>(Num a, Num b) { fault::point(a.x, b.x); return a.x > b.x; }
    friend bool operator>=(Num a, Num b) { fault::point(a.x, b.x); return a.x >= b.x; }
    friend bool operator==(Num a, Num b) { fault::point(a.x, b.x); return a.x == b.x; }
    friend bool operator!=(Num a, Num b) { fault::point(a.x, b.x); return a.x != b.x; }
    friend bool operator&&(Num a, Num b) { fault::point(a.x, b.x); return a.x && b.x; }
    friend bool operator||(Num a, Num b) { fault::point(a.x, b.x); return a.x || b.x; }
    friend std::ostream& operator<<(std::ostream& o, Num a) { return o << a.x; }
};
inline double D(Num n) { return n.x; }
// A value no correct computation may compute with: user arithmetic on it throws.
inline Num bomb_value() { uint64_t u = 0x7ff8b0b0b0b0b0b0ull; double d; __builtin_memcpy(&d, &u, 8); return Num(d); }
#define NUM_F1(f) inline Num f(Num a) { fault::point(a.x); return Num(std::f(a.x)); }
NUM_F1(sin) NUM_F1(cos) NUM_F1(tan) NUM_F1(asin) NUM_F1(acos) NUM_F1(atan) NUM_F1(exp) NUM_F1(log)
NUM_F1(sqrt) NUM_F1(erf) NUM_F1(sinh) NUM_F1(cosh) NUM_F1(tanh) NUM_F1(abs) NUM_F1(fabs)
NUM_F1(log1p) NUM_F1(expm1) NUM_F1(cbrt) NUM_F1(exp2) NUM_F1(log2) NUM_F1(log10) NUM_F1(erfc) NUM_F1(floor) NUM_F1(ceil) NUM_F1(round) NUM_F1(trunc)
NUM_F1(asinh) NUM_F1(acosh) NUM_F1(atanh) NUM_F1(tgamma) NUM_F1(lgamma)
#define NUM_F2(f) inline Num f(Num a, Num b) { fault::point(a.x, b.x); return Num(std::f(a.x, b.x)); }
NUM_F2(atan2) NUM_F2(hypot) NUM_F2(fmax) NUM_F2(fmin) NUM_F2(fmod) NUM_F2(copysign)
inline Num fma(Num a, Num b, Num c) { fault::point(a.x, b.x); fault::point(c.x); return Num(std::fma(a.x, b.x, c.x)); }
inline bool signbit(Num a) { return std::signbit(a.x); }
inline bool isnormal(Num a) { return std::isnormal(a.x); }
inline Num pow(Num a, Num b) { fault::point(a.x, b.x); return Num(std::pow(a.x, b.x)); }
inline Num pow(Num a, int b) { fault::point(a.x); return Num(std::pow(a.x, b)); }
inline bool isfinite(Num a) { return std::isfinite(a.x); }
inline bool isnan(Num a) { return std::isnan(a.x); }
inline bool isinf(Num a) { return std::isinf(a.x); }
inline Num abs2(Num a) { return a * a; }
namespace std {
using ::sin; using ::cos; using ::tan; using ::asin; using ::acos; using ::atan; using ::exp; using ::log;
using ::sqrt; using ::erf; using ::sinh; using ::cosh; using ::tanh; using ::abs; using ::fabs; using ::pow;
using ::isfinite; using ::isnan; using ::isinf; using ::signbit; using ::isnormal;
using ::log1p; using ::expm1; using ::cbrt; using ::exp2; using ::log2; using ::log10; using ::erfc; using ::floor; using ::ceil; using ::round; using ::trunc;
using ::asinh; using ::acosh; using ::atanh; using ::tgamma; using ::lgamma; using ::atan2; using ::hypot; using ::fmax; using ::fmin; using ::fmod; using ::copysign; using ::fma;
template <> struct numeric_limits<Num> : numeric_limits<double> {
    static Num epsilon() { return numeric_limits<double>::epsilon(); }
    static Num min() { return numeric_limits<double>::min(); }
    static Num max() { return numeric_limits<double>::max(); }
    static Num lowest() { return numeric_limits<double>::lowest(); }
    static constexpr Num infinity() { return numeric_limits<double>::infinity(); }
    static constexpr Num quiet_NaN() { return numeric_limits<double>::quiet_NaN(); }
};
}
#include <Eigen/Core>
namespace Eigen {
template <> struct NumTraits<Num> : NumTraits<double> {
    typedef Num Real; typedef Num NonInteger; typedef Num Nested; typedef Num Literal;
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 3, MulCost = 3 };
    static Num epsilon() { return NumTraits<double>::epsilon(); }
    static Num dummy_precision() { return NumTraits<double>::dummy_precision(); }
    static Num highest() { return NumTraits<double>::highest(); }
    static Num lowest() { return NumTraits<double>::lowest(); }
    static Num infinity() { return std::numeric_limits<double>::infinity(); }
    static Num quiet_NaN() { return std::numeric_limits<double>::quiet_NaN(); }
    static int digits10() { return 15; }
};
}
#include <unsupported/Eigen/SpecialFunctions>
namespace Eigen { namespace internal { template <> struct erf_impl<Num> { static Num run(const Num& a) { return ::erf(a); } }; } }
#endif
