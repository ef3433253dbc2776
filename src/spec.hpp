#pragma once
// A run is a pure function of a Spec; a Spec is a pure function of (profile, seed).
#include "rng.hpp"
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

struct TaskRec { int prog = 0; int n = 1, k = 1; int mode = 0; uint64_t r = 0; };
struct OpRec { int kind = 0; int a = 0, b = 0; uint64_t r = 0; };
struct SimEnv {                 // the environment a run executes in; must not influence results
    uint64_t fill = 0x7ff4dead7ff4deadull;   // contents of fresh heap memory and storage
    int pad = 0;                // extra placement offset (multiples of 64 bytes)
    int noise = 0;              // unrelated activity between steps
};
struct Spec {
    std::string profile; uint64_t seed = 0;
    std::map<std::string, long> knob;       // per-run configuration (swarm)
    std::vector<TaskRec> tasks; std::vector<OpRec> ops; SimEnv env;
    long k(const char* n, long d = 0) const { auto i = knob.find(n); return i == knob.end() ? d : i->second; }
};
struct Stats {
    std::map<std::string, long> c;
    std::unordered_set<uint64_t> states;    // distinct (program, recent step context, regime) points
    void inc(const std::string& k, long n = 1) { c[k] += n; }
};
struct Result {
    bool ok = true; std::string cls, msg; int at = -1;   // violation class, text, step
    uint64_t hash = 0; long judged = 0; std::vector<std::string> log;
};
struct Violation { std::string cls, msg; };

Spec make_spec(const std::string& profile, uint64_t seed);
Result exec_spec(const Spec& s, Stats& st, bool log);
std::string op_text(const Spec& s, const OpRec& o);
std::string task_text(const Spec& s, int i);
