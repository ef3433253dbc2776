#pragma once
// One PRNG, one integer decides everything.
#include <cstdint>
#include <string>

inline uint64_t mix64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const char* s, uint64_t h = 1469598103934665603ull) {
    for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
    return h;
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed ^ 0xD1B54A32D192ED03ull)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double range(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
};
struct Hash {
    uint64_t h = 1469598103934665603ull;
    void u64(uint64_t v) { h = mix64(h ^ (v + 0x9E3779B97F4A7C15ull)); }
    void bits(double d) { if (d != d) { u64(0x7ff8dead); return; } uint64_t u; __builtin_memcpy(&u, &d, 8); u64(u); }
    void str(const char* s) { u64(hash_str(s)); }
};
