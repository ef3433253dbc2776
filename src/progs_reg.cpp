#include "prog.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
namespace fault { State st; bool bomb = false; void fire() { ++st.fired; ++st.total_fired; throw UserError(st.id); } }
static std::vector<Prog>* all;
std::vector<Prog>& progs() { if (!all) all = new std::vector<Prog>(); return *all; }
void Prog::parse() {
    std::string s = leaves; size_t i = 0;
    auto code = [&](const std::string& t) { if (t == "n") return 0; if (t == "k") return 1; if (t == "n+k") return 3; fprintf(stderr, "bad dim %s\n", t.c_str()); exit(2); };
    while (i < s.size()) {
        while (i < s.size() && s[i] == ' ') ++i;
        if (i >= s.size()) break;
        size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size();
        std::string t = s.substr(i, j - i); i = j;
        LeafSpec l; l.target = false; l.cls = 'l'; size_t p = 0;
        if (t[0] == 'c') { l.cls = 'c'; p = 1; } else if (t[0] == 'k') { l.cls = 'k'; p = 1; }
        l.kind = t[p] == 's' ? SCL : t[p] == 'v' ? VEC : MAT; l.rows = l.cols = 2;
        size_t colon = t.find(':'), br = t.find('[');
        l.idx = atoi(t.c_str() + p + 1);
        if (br != std::string::npos && br < colon) {
            std::string d = t.substr(br + 1, t.find(']') - br - 1); size_t comma = d.find(',');
            if (comma == std::string::npos) l.rows = code(d); else { l.rows = code(d.substr(0, comma)); l.cols = code(d.substr(comma + 1)); }
        }
        l.dom = t.substr(colon + 1);
        if (l.dom.back() == '!') { l.target = true; l.dom.pop_back(); }
        spec.push_back(l);
    }
}
Reg::Reg(const char* name, const char* leaves, const char* tags, Inst* (*m)(FB&), ref::E (*r)(RB&)) {
    Prog p; p.name = name; p.leaves = leaves; p.tags = tags; p.make = m; p.refmake = r; p.parse(); progs().push_back(p);
}
int prog_index(const std::string& n) {
    static bool sorted = false;      // the order must not depend on link order
    if (!sorted) { std::sort(progs().begin(), progs().end(), [](const Prog& a, const Prog& b) { return std::string(a.name) < b.name; }); sorted = true; }
    for (size_t i = 0; i < progs().size(); ++i) if (n == progs()[i].name) return (int)i;
    return -1;
}
