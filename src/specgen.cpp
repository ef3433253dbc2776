// Seed -> Spec: which expressions exist, over what storage, and the complete schedule of steps and faults.
#include "world.hpp"
#include <algorithm>

namespace {
struct Ep { const char* name; double w; };
struct Profile {
    const char* id; const char* want; const char* avoid;     // program tags (any of / none of)
    int tmin, tmax, omin, omax;
    std::vector<Ep> eps;
};
const std::vector<Ep> BASE = {{"fb", 4}, {"setfb", 6}, {"bad", 2}, {"bb", 1}, {"ff", 1}, {"revisit", 1.5}, {"rel", 1.5}, {"rebind", 1}, {"scribble", 1}, {"recreate", .6}, {"reset", 1.2}, {"resetall", .6}, {"vassign", .5}, {"noise", .3}, {"kv", .5}, {"cset", .3}};
std::vector<Ep> with(std::vector<Ep> b, const std::vector<Ep>& m) {
    for (auto& x : m) { bool f = false; for (auto& y : b) if (std::string(y.name) == x.name) { y.w = x.w; f = true; } if (!f) b.push_back(x); }
    return b;
}
const std::vector<Profile>& profiles() {
    static const std::vector<Profile> p = {
        {"C01", "", "", 1, 3, 40, 110, with(BASE, {{"bad", 4}, {"badbuild", .8}, {"flip", 2}})},
        {"C02", "", "", 2, 5, 50, 140, with(BASE, {{"bad", .5}, {"bb", 4}, {"ff", 2}, {"fb", 6}, {"rebind", .2}, {"scribble", .2}, {"reset", 1}})},
        {"C03", "", "", 2, 6, 40, 110, with(BASE, {{"bad", .7}, {"rebind", 4}, {"scribble", 4}, {"recreate", 1.5}, {"bb", 1}})},
        {"C05", "", "", 1, 3, 40, 110, with(BASE, {{"bad", .7}, {"fault", 9}, {"clone", .7}, {"assign", .3}})},
        {"C06", "", "", 1, 3, 40, 110, with(BASE, {{"bad", .5}, {"fault", 9}, {"clone", .4}, {"assign", .3}})},
        {"C07", "ph,opassign,for_each,glue", "", 1, 3, 40, 110, with(BASE, {{"bad", .8}, {"bb", 2}, {"ff", 2}, {"rebind", 1.5}, {"clone", .5}, {"move", .5}})},
        {"C08", "ifelse", "", 1, 3, 50, 120, with(BASE, {{"setfb", 9}, {"flip", 6}, {"bad", 3}, {"clone", .3}})},
        {"C10", "", "", 1, 3, 50, 120, with(BASE, {{"bad", .7}, {"clone", 4}, {"move", 4}, {"churn", 4}, {"assign", 4}, {"drop", 1}, {"fault", .8}, {"rebind", 0}, {"scribble", 0}, {"recreate", 1}})},
        {"C11", "stat", "", 1, 3, 40, 110, with(BASE, {{"bad", 7}, {"badbuild", 1.2}, {"flip", 2}, {"bb", 1.5}, {"revisit", 4}, {"rel", 3}})},
        {"C12", "const,view", "", 1, 4, 40, 110, with(BASE, {{"bad", 1}, {"kv", 8}, {"cset", 5}, {"clone", .5}})},
        {"C13", "", "", 1, 3, 120, 260, with(BASE, {{"bad", 3}, {"fault", 1.5}, {"clone", .6}, {"drop", .6}, {"churn", .4}, {"assign", .6}, {"move", .4}, {"fb", 8}})},
        {"C14", "", "", 1, 3, 25, 60, with(BASE, {{"bad", 2}, {"clone", .4}, {"assign", .3}, {"move", .3}})},
        {"C17", "", "", 1, 3, 40, 110, with(BASE, {{"bad", .7}, {"bb", 2}, {"ff", 2}, {"fb", 6}, {"clone", .3}, {"rebind", .4}, {"scribble", .4}})},
        {"C15", "det", "", 1, 3, 40, 110, with(BASE, {{"bad", 7}, {"badbuild", 1}, {"flip", 2}, {"fb", 3}, {"revisit", 3}, {"rel", 2}})},
    };
    return p;
}
bool any_tag(const Prog& p, const char* list) {
    std::string l = list; size_t i = 0;
    while (i < l.size()) { size_t j = l.find(',', i); if (j == std::string::npos) j = l.size(); if (p.has(l.substr(i, j - i).c_str())) return true; i = j + 1; }
    return false;
}
}

Spec world_spec(const std::string& profile, uint64_t seed, long) {
    const Profile* pf = nullptr; for (auto& p : profiles()) if (profile == p.id) pf = &p;
    if (!pf) { fprintf(stderr, "unknown profile %s\n", profile.c_str()); exit(2); }
    static std::map<std::string, std::vector<int>> cache; auto& cand = cache[profile];
    if (cand.empty()) { prog_index(""); for (size_t i = 0; i < progs().size(); ++i) if ((!*pf->want || any_tag(progs()[i], pf->want)) && !(*pf->avoid && any_tag(progs()[i], pf->avoid))) cand.push_back((int)i);
        Rng sh(4711); for (size_t i = cand.size(); i > 1; --i) std::swap(cand[i - 1], cand[sh.below((uint32_t)i)]); }
    Spec s; s.profile = profile; s.seed = seed;
    Rng g(mix64(seed) ^ hash_str(profile.c_str()));
    s.knob["share"] = 1 + g.below(4); s.knob["wild"] = g.chance(profile == "C11" ? 0.3 : 0.5); s.knob["poison"] = g.chance(0.8); s.knob["fresh"] = g.chance(0.7);
    s.knob["pbadconst"] = g.chance(0.3) ? 15 : 0; s.knob["gaps"] = g.chance(0.4); s.knob["shift"] = g.below(8);
    s.knob["userfault"] = profile == "C06" || (profile == "C13" && false); s.knob["uspan"] = 5 + g.below(4) * 40;
    if (profile == "C10") s.knob["formula"] = 0;
    if (profile == "C17") s.knob["cross"] = s.knob["fresh"] = 1;
    static const uint64_t fills[] = {0x7ff4dead7ff4deadull, 0x0000000000000000ull, 0x3ff8000000000000ull, 0xc05a8ba3d70a3d71ull, 0x7fefffffffffffffull};
    s.env.fill = fills[g.below(5)]; s.env.pad = (int)g.below(4);
    bool big = g.chance(0.08), huge = big && g.chance(0.2); int many = g.chance(0.015) ? 1 : g.chance(0.4) ? 2 : 0;
    int nt = pf->tmin + (int)g.below((uint32_t)(pf->tmax - pf->tmin + 1));
    int modemix = (int)g.below(4);
    for (int i = 0; i < nt; ++i) {
        TaskRec t;
        if (i == 0) t.prog = cand[(size_t)(seed % cand.size())];
        else if (i == 1 && g.chance(profile == "C10" ? 0.6 : 0.25)) t.prog = s.tasks[0].prog;              // two of a kind
        else t.prog = cand[g.below((uint32_t)cand.size())];
        const Prog& p = progs()[t.prog];
        t.n = 1 + (int)g.below(4); t.k = 1 + (int)g.below(4); if (g.chance(0.2)) t.n = 5;
        if (i && g.chance(0.7)) { t.n = s.tasks[0].n; t.k = s.tasks[0].k; }       // so that variables are really shared
        if (p.has("z0")) { if (g.chance(0.05)) (g.chance(0.5) ? t.n : t.k) = 0; }
        else { t.n = std::max(t.n, 1); t.k = std::max(t.k, 1); }
        bool small = p.has("sq") || p.has("det") || p.has("wishart") || p.has("matsig") || p.has("rand");
        if (small && s.k("huge")) { t.n = 1 + (int)g.below(4); t.k = 1 + (int)g.below(4); }
        if (i && t.n * t.n > 144 && small) t.n = 5 + (int)g.below(3);              // n by n leaves: the reference differentiates in every direction
        if (huge && i == 0 && !small) {
            t.n = g.chance(0.1) ? 255 + (int)g.below(50) : g.chance(0.3) ? 96 + (int)g.below(50) : 33 + (int)g.below(50); t.k = t.n < 90 && g.chance(0.2) ? 2 : 1; if (g.chance(.3)) std::swap(t.n, t.k); s.knob["huge"] = 1;
        }
        else if (big && i == 0) {
            if (small) t.n = 5 + (int)g.below(3);
            else if (g.chance(0.6)) { t.n = 6 + (int)g.below(20); t.k = 1 + (int)g.below(3); if (g.chance(.3)) std::swap(t.n, t.k); }
            else { t.n = 7 + (int)g.below(4); t.k = 7 + (int)g.below(4); }
        }
        t.mode = profile == "C17" ? (int)g.below(3) : profile == "C10" ? 2 : profile == "C03" ? (int)(g.chance(0.6)) : modemix < 3 ? modemix : (int)g.below(3);
        if (profile == "C10" && g.chance(0.1)) t.mode = 1;
        t.r = g.next(); s.tasks.push_back(t);
    }
    int want = pf->omin + (int)g.below((uint32_t)(pf->omax - pf->omin + 1)); if (big) want = want / 3 + 8; if (s.k("huge")) want = want / 3 + 6;
    double tot = 0; std::vector<Ep> eps = pf->eps;
    for (auto& e : eps) { if (g.chance(0.25)) e.w *= g.chance(0.5) ? 0 : 3; }     // swarm: each run favours other episodes
    for (auto& e : eps) tot += e.w;
    if (tot <= 0) { eps = pf->eps; tot = 0; for (auto& e : eps) tot += e.w; }
    std::vector<std::vector<OpRec>> q(nt); std::vector<size_t> at(nt, 0);
    double stick = g.range(0.3, 0.95); int cur = 0; bool repsame = g.chance(0.8);
    auto episode = [&](int t) {
        double x = g.unit() * tot; std::string e = eps.back().name; for (auto& y : eps) { if (x < y.w) { e = y.name; break; } x -= y.w; }
        uint64_t rb = g.next() >> 40;
        auto push = [&](int kind, int b = 0) { OpRec o; o.kind = kind; o.a = t; o.b = b; o.r = (g.next() >> 24) | ((repsame ? rb : g.next() >> 40) << 40); q[t].push_back(o); };
        auto fb = [&] { if (g.chance(0.25)) push(FBW); else { push(FW); if (g.chance(0.85)) push(BW); } };
        auto setx = [&] { push(g.chance(0.4) ? SETALL : g.chance(0.5) ? SETELEM : SET); };
        if (e == "fb") fb();
        else if (e == "setfb") { setx(); fb(); }
        else if (e == "bad" || e == "badbuild") {
            if (g.chance(0.3)) fb();
            int nb = 1 + (int)g.below(2); for (int i = 0; i < nb; ++i) push(SETBAD);
            if (e == "badbuild") push(RECREATE);
            fb(); if (g.chance(0.3)) { push(SETBAD); fb(); }
            if (g.chance(0.4)) { push(REVISIT); fb(); }
            if (g.chance(0.8)) { push(SETALL); if (g.chance(0.4)) push(RESETALL); push(FW); push(BW); }
        }
        else if (e == "revisit") { fb(); int n = 1 + (int)g.below(2); for (int i = 0; i < n; ++i) { push(g.chance(0.35) ? SETBAD : g.chance(0.5) ? SET : SETREL); fb(); } push(REVISIT); fb(); if (g.chance(0.4)) { push(REVISIT); fb(); } }
        else if (e == "rel" && g.chance(0.3)) { push(SETREL, 5); fb(); int n = 1 + (int)g.below(3); for (int i = 0; i < n; ++i) { push(SETREL, 16 + (g.chance(0.6) ? 1 : g.chance(0.5) ? 6 : 3)); fb(); } }
        else if (e == "rel") { if (g.chance(0.5)) fb(); push(SETREL); fb(); if (g.chance(0.3)) { push(SETREL); fb(); } }
        else if (e == "bb") { push(FW); int n = 2 + (int)g.below(3); for (int i = 0; i < n; ++i) { push(BW); if (g.chance(0.2)) push(RESET); } }
        else if (e == "ff") { push(FW); if (g.chance(0.5)) setx(); push(FW); push(BW); }
        else if (e == "flip") { int n = 2 + (int)g.below(4); for (int i = 0; i < n; ++i) { push(i && g.chance(0.3) ? REVISIT : SET); push(FW); push(BW); } }
        else if (e == "rebind") { if (g.chance(0.3)) push(FW); push(REBIND); if (g.chance(0.2)) push(REBIND); if (g.chance(0.3)) setx(); push(FW); push(BW); }
        else if (e == "scribble") { if (g.chance(0.3)) push(FW); push(SCRIBBLE); push(FW); push(BW); }
        else if (e == "recreate") { push(RECREATE); fb(); }
        else if (e == "reset") push(RESET);
        else if (e == "resetall") push(RESETALL);
        else if (e == "vassign") { push(VASSIGN); fb(); }
        else if (e == "noise") push(NOISE);
        else if (e == "kv") { push(KVSET); fb(); if (g.chance(0.4)) { push(KVSET); push(FW); push(BW); } }
        else if (e == "cset") { push(CSET); fb(); }
        else if (e == "clone") { if (g.chance(0.4)) push(FW); push(CLONE); fb(); OpRec o; o.kind = FW; o.a = t; o.r = g.next(); q[t].push_back(o); o.kind = BW; q[t].push_back(o); if (g.chance(0.4)) push(BW); }
        else if (e == "move") { if (g.chance(0.6)) push(FW); push(MOVE); if (g.chance(0.7)) push(BW); else fb(); if (g.chance(0.5)) push(ZOMBIE); }
        else if (e == "assign") { if (g.chance(0.5)) push(ADDREP); if (g.chance(0.6)) push(FW); push(ASSIGN, g.chance(profile == "C05" || profile == "C06" ? .7 : .1)); if (g.chance(0.5)) push(BW); if (g.chance(0.3)) push(ZOMBIE); fb(); }
        else if (e == "churn") { push(CHURN); fb(); }
        else if (e == "drop") { push(DROPREP); fb(); }
        else if (e == "fault") {
            switch (g.below(9)) {
            case 0: case 1: push(XFW); break;
            case 2: push(FW); push(XBW); break;
            case 3: push(FBW, 1); break;
            case 4: push(XBUILD); break;
            case 5: push(XBIND); break;
            case 6: push(XCOPYVAR); break;
            case 7: push(ADDREP); push(ASSIGN, 1); break;
            default: push(XCLONE); break;
            }
            if (g.chance(0.2)) push(XFW);
            if (g.chance(0.6)) { if (g.chance(0.3)) setx(); push(RESETALL); }
            push(FW); push(BW);
        }
    };
    while ((int)s.ops.size() < want) {
        if (!g.chance(stick)) cur = (int)g.below((uint32_t)nt);
        if (at[cur] >= q[cur].size()) { q[cur].clear(); at[cur] = 0; episode(cur); if (q[cur].empty()) continue; }
        s.ops.push_back(q[cur][at[cur]++]);
        if (many && (int)s.ops.size() > want / 3) { OpRec o; o.kind = MANY; o.a = cur; o.r = g.next(); o.b = many == 2 ? 4 + (int)g.below(5) : big ? 30 + (int)g.below(60) : 130 + (int)g.below(g.chance(0.3) ? 1000 : 200); many = 0; s.ops.push_back(o); }
    }
    return s;
}
