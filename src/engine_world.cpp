#include "engine.hpp"
#include "world.hpp"
#include <cstdio>
void engine_init() { prog_index(""); }
const char* engine_build() {
#ifdef NUM_SIM
    return "user-scalar";
#else
    return "double";
#endif
}
std::string prog_name(int i) { return i < 0 ? "-" : progs()[i].name; }
int prog_find(const std::string& n) { return prog_index(n); }
void engine_list() { for (auto& p : progs()) printf("%s | %s | %s\n", p.name, p.leaves, p.tags); }
Spec make_spec(const std::string& profile, uint64_t seed) { return world_spec(profile, seed, 0); }
Result exec_spec(const Spec& s, Stats& st, bool log) { return world_exec(s, st, log); }
std::string op_text(const Spec&, const OpRec& o) { return std::string("task ") + std::to_string(o.a) + " " + op_names[o.kind]; }
std::string task_text(const Spec& s, int i) {
    const TaskRec& t = s.tasks[i]; if (t.prog < 0) return "unused";
    const char* m[] = {"guarded storage", "shared arena", "owns its storage"};
    return std::string(progs()[t.prog].name) + " [" + progs()[t.prog].leaves + "] n=" + std::to_string(t.n) + " k=" + std::to_string(t.k) + ", " + m[t.mode];
}
bool engine_relevant(const std::string& p, const std::string& c) {
    if (c == "harness") return false;
    bool leak = c == "leak" || c == "memory-growth";
    if (p == "C13") return leak;
    if (p == "C14") return c == "environment";
    if (p == "C01" || p == "C02" || p == "C07" || p == "C08" || p == "C11" || p == "C12" || p == "C15" || p == "C17") return !leak;
    return true;
}
// C05/C06 speak about failures: a run that goes wrong without them says nothing about these properties.
bool engine_attributed(const Spec& s, const Result& r, std::function<Result(const Spec&)> run) {
    if (s.profile != "C05" && s.profile != "C06") return true;
    Spec c = s; c.knob["nofault"] = 1; Result q = run(c); (void)r;
    return q.ok;
}
