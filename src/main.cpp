// Runs simulations: each run in its own forked process, so that a crash or a hang is a result
// too and no run can influence another.
#include "engine.hpp"
#include "alloc.hpp"
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {
const size_t SHM = 8 << 20;
struct Shared { volatile int done; int ok, at; uint64_t hash; long judged; char cls[64]; char msg[1200]; size_t len; char data[1]; };
Shared* shm;
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

std::string plain(std::string s) { for (auto& c : s) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?'; return s; }   // a message may quote memory the library has spoilt
void encode(const Stats& st, const std::vector<std::string>& log) {
    std::string o;
    for (auto& kv : st.c) o += "C" + kv.first + "\t" + std::to_string(kv.second) + "\n";
    char b[40];
    std::vector<uint64_t> v(st.states.begin(), st.states.end()); std::sort(v.begin(), v.end());
    for (auto h : v) { snprintf(b, sizeof b, "S%llx\n", (unsigned long long)h); o += b; }
    for (auto& l : log) o += "L" + l + "\n";
    size_t max = SHM - sizeof(Shared) - 8; if (o.size() > max) o.resize(max);
    memcpy(shm->data, o.data(), o.size()); shm->len = o.size();
}
void decode(Stats* st, std::vector<std::string>* log) {
    const char* p = shm->data; const char* e = p + shm->len;
    while (p < e) { const char* q = (const char*)memchr(p, '\n', e - p); if (!q) q = e;
        if (*p == 'C' && st) { const char* t = (const char*)memchr(p, '\t', q - p); st->c[std::string(p + 1, t)] += atol(t + 1); }
        else if (*p == 'S' && st) st->states.insert(strtoull(p + 1, nullptr, 16));
        else if (*p == 'L' && log) log->push_back(std::string(p + 1, q));
        p = q + 1; }
}
// Executes a spec in a child. Deterministic: same spec, same Result.
Result isolated(const Spec& s, Stats* st, bool log, unsigned limit = 20) {
    shm->done = 0; shm->len = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        rl = {limit, limit + 1}; setrlimit(RLIMIT_CPU, &rl); alarm(6 * limit);     // processor time, so that a busy machine does not look like a hang
        if (!freopen("/dev/null", "w", stderr)) {}
        alloc::sim_heap(); const Spec t = s;     // a copy that lives in the simulated heap, like everything the run makes
        Stats mine; Result r = exec_spec(t, mine, log);
        shm->ok = r.ok; shm->at = r.at; shm->hash = r.hash; shm->judged = r.judged;
        snprintf(shm->cls, sizeof shm->cls, "%s", r.cls.c_str()); snprintf(shm->msg, sizeof shm->msg, "%s", plain(r.msg).c_str());
        for (auto& l : r.log) l = plain(l);
        encode(mine, r.log); shm->done = 1; _exit(0);
    }
    int status; while (waitpid(pid, &status, 0) < 0) {}
    Result r;
    if (shm->done) { r.ok = shm->ok; r.at = shm->at; r.hash = shm->hash; r.judged = shm->judged; r.cls = shm->cls; r.msg = shm->msg; decode(st, log ? &r.log : nullptr); return r; }
    r.ok = false; r.at = -1;
    if (WIFSIGNALED(status)) { int g = WTERMSIG(status); if (g == SIGALRM || g == SIGXCPU) { r.cls = "hang"; r.msg = "the run did not finish"; } else { r.cls = "crash"; r.msg = std::string("the process died: ") + strsignal(g); } }
    else { r.cls = "crash"; r.msg = "the process exited with status " + std::to_string(WEXITSTATUS(status)); }
    return r;
}

// ---- replay files -------------------------------------------------------------------------
std::string dump(const Spec& s, const Result& r) {
    std::ostringstream o;
    o << "fastad-sim-replay 1\nprofile " << s.profile << "\nseed " << s.seed << "\nbuild " << engine_build() << "\n";
    for (auto& k : s.knob) o << "knob " << k.first << " " << k.second << "\n";
    o << "env " << s.env.fill << " " << s.env.pad << " " << s.env.noise << "\n";
    for (size_t i = 0; i < s.tasks.size(); ++i) { auto& t = s.tasks[i]; o << "task " << prog_name(t.prog) << " " << t.n << " " << t.k << " " << t.mode << " " << t.r << "   # " << task_text(s, (int)i) << "\n"; }
    for (auto& p : s.ops) o << "op " << p.kind << " " << p.a << " " << p.b << " " << p.r << "   # " << op_text(s, p) << "\n";
    o << "expect " << r.cls << " " << r.at << " " << r.hash << "\n# " << r.msg << "\n";
    for (auto& l : r.log) o << "# log " << l << "\n";
    return o.str();
}
bool load(const char* fn, Spec& s, std::string& cls, int& at, uint64_t& hash) {
    std::ifstream f(fn); std::string line; bool magic = false;
    while (std::getline(f, line)) {
        size_t h = line.find('#'); if (h != std::string::npos) line.resize(h);
        std::istringstream i(line); std::string k; if (!(i >> k)) continue;
        if (k == "fastad-sim-replay") magic = true;
        else if (k == "profile") i >> s.profile; else if (k == "seed") i >> s.seed;
        else if (k == "knob") { std::string n; long v; i >> n >> v; s.knob[n] = v; }
        else if (k == "env") i >> s.env.fill >> s.env.pad >> s.env.noise;
        else if (k == "task") { TaskRec t; std::string n; i >> n >> t.n >> t.k >> t.mode >> t.r; t.prog = n == "-" ? -1 : prog_find(n); if (n != "-" && t.prog < 0) { fprintf(stderr, "no program %s\n", n.c_str()); return false; } s.tasks.push_back(t); }
        else if (k == "op") { OpRec o; i >> o.kind >> o.a >> o.b >> o.r; s.ops.push_back(o); }
        else if (k == "expect") i >> cls >> at >> hash;
    }
    return magic;
}

// ---- minimiser ------------------------------------------------------------------------------
struct Shrink {
    Spec best; std::string cls; long trials = 0; double deadline;
    bool fails(const Spec& c) { if (now() > deadline) return false; ++trials; Result r = isolated(c, nullptr, false, 10); return !r.ok && r.cls == cls; }
    bool attempt(const Spec& c) { if (fails(c)) { best = c; return true; } return false; }
    void ops() {
        size_t chunk = std::max<size_t>(1, best.ops.size() / 2);
        while (now() < deadline) {
            bool any = false;
            for (size_t i = 0; i < best.ops.size();) { Spec c = best; size_t e = std::min(best.ops.size(), i + chunk); c.ops.erase(c.ops.begin() + i, c.ops.begin() + e); if (attempt(c)) any = true; else i = e; if (now() > deadline) return; }
            if (chunk == 1) { if (!any) return; } else chunk /= 2;
        }
    }
    void run(int at) {
        if (at >= 0 && (size_t)at + 1 < best.ops.size() && best.profile != "C14") { Spec c = best; c.ops.resize(at + 1); attempt(c); }
        ops();
        for (size_t i = 0; i < best.tasks.size(); ++i) if (best.tasks[i].prog >= 0) { Spec c = best; c.tasks[i].prog = -1; std::vector<OpRec> o; for (auto& p : c.ops) if (p.a != (int)i) o.push_back(p); c.ops = o; attempt(c); }
        for (size_t i = 0; i < best.tasks.size(); ++i) if (best.tasks[i].prog >= 0) {
            for (int v = 1; v < best.tasks[i].n; ++v) { Spec c = best; c.tasks[i].n = v; if (attempt(c)) break; }
            for (int v = 1; v < best.tasks[i].k; ++v) { Spec c = best; c.tasks[i].k = v; if (attempt(c)) break; }
        }
        for (auto k : {"gaps", "shift", "pbadconst", "wild", "fresh", "poison"}) if (best.k(k)) { Spec c = best; c.knob[k] = 0; attempt(c); }
        ops();
    }
};
std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
}

int main(int argc, char** argv) {
    if (personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) { personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); setenv("SIM_ASLR", "1", 1); execv("/proc/self/exe", argv); }
    shm = (Shared*)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    engine_init();
    std::string cmd = argc > 1 ? argv[1] : "";
    auto has = [&](const Result& r, const Spec& s) { return !r.ok && engine_relevant(s.profile, r.cls); };
    if (cmd == "run" && argc >= 8) {      // run PROFILE SEED0 COUNT WORKER NWORKERS SECONDS [max failures]
        std::string pf = argv[2]; uint64_t s0 = strtoull(argv[3], nullptr, 10); long count = atol(argv[4]); int w = atoi(argv[5]), nw = atoi(argv[6]); double limit = atof(argv[7]); int maxf = argc > 8 ? atoi(argv[8]) : 3;
        Stats st; double t0 = now(); long runs = 0, judged = 0, other = 0; int fails = 0; uint64_t h = 0; std::map<std::string, long> othercls;
        for (long i = w; i < count && fails < maxf; i += nw) {
            if (now() - t0 > limit) break;
            Spec s = make_spec(pf, s0 + i); Result r = isolated(s, &st, false); ++runs; judged += r.judged; h ^= mix64(r.hash + s.seed);
            if (r.ok) continue;
            if (r.cls == "harness") { printf("harness %llu %s\n", (unsigned long long)s.seed, r.msg.c_str()); continue; }
            if (!has(r, s) || !engine_attributed(s, r, [](const Spec& c) { return isolated(c, nullptr, false); })) { ++other; ++othercls[r.cls]; if (other <= 2) printf("other %llu %s %s\n", (unsigned long long)s.seed, r.cls.c_str(), r.msg.c_str()); continue; }
            ++fails; printf("fail %llu %s %s\n", (unsigned long long)s.seed, r.cls.c_str(), r.msg.c_str()); fflush(stdout);
        }
        printf("runs %ld\njudged %ld\nhash %llu\nseconds %.3f\nother %ld\n", runs, judged, (unsigned long long)h, now() - t0, other);
        for (auto& k : st.c) printf("count %ld %s\n", k.second, k.first.c_str());
        for (auto x : st.states) printf("state %llx\n", (unsigned long long)x);
        return 0;
    }
    if (cmd == "one" && argc >= 4) {      // one PROFILE SEED: print the run
        Spec s = make_spec(argv[2], strtoull(argv[3], nullptr, 10)); bool nf = getenv("SIM_NOFORK"); Stats st;
        Result r = nf ? exec_spec(s, st, true) : isolated(s, nullptr, true);
        for (size_t i = 0; i < s.tasks.size(); ++i) printf("task %zu: %s\n", i, task_text(s, (int)i).c_str());
        for (auto& l : r.log) puts(l.c_str());
        printf("%s at %d: %s  hash %llu judged %ld\n", r.ok ? "ok" : r.cls.c_str(), r.at, r.msg.c_str(), (unsigned long long)r.hash, r.judged);
        return r.ok ? 0 : 1;
    }
    if (cmd == "shrink" && argc >= 6) {   // shrink PROFILE SEED OUT SECONDS
        Spec s = make_spec(argv[2], strtoull(argv[3], nullptr, 10)); Result a = isolated(s, nullptr, false), b = isolated(s, nullptr, false);
        if (a.ok || b.ok || a.cls != b.cls || a.hash != b.hash) { printf("unstable %s/%s\n", a.cls.c_str(), b.cls.c_str()); return 3; }
        Shrink k; k.best = s; k.cls = a.cls; k.deadline = now() + atof(argv[5]); size_t before = s.ops.size(); k.run(a.at);
        Result r = isolated(k.best, nullptr, true), r2 = isolated(k.best, nullptr, true);
        if (r.ok || r.hash != r2.hash || r.cls != r2.cls) { k.best = s; r = isolated(s, nullptr, true); r2 = isolated(s, nullptr, true); }      // keep the whole run then
        if (r.ok || r.hash != r2.hash || r.cls != r2.cls) { printf("unstable after shrinking\n"); return 3; }
        std::ofstream(argv[4]) << dump(k.best, r);
        printf("shrunk %zu -> %zu steps, %ld trials\n{\"class\": \"%s\", \"message\": \"%s\"}\n", before, k.best.ops.size(), k.trials, esc(r.cls).c_str(), esc(r.msg).c_str());
        return 0;
    }
    if (cmd == "replay" && argc >= 3) {   // replay FILE: exit 1 when the recorded violation happens again, exactly
        Spec s; std::string cls; int at = 0; uint64_t hash = 0; if (!load(argv[2], s, cls, at, hash)) return 2;
        Result r = isolated(s, nullptr, true);
        for (auto& l : r.log) puts(l.c_str());
        printf("%s at step %d: %s\n", r.ok ? "no violation" : r.cls.c_str(), r.at, r.msg.c_str());
        bool same = !r.ok && r.cls == cls && r.hash == hash && r.at == at;
        printf("%s\n", same ? "REPRODUCED" : "NOT REPRODUCED"); return same ? 1 : 0;
    }
    if (cmd == "list") { engine_list(); return 0; }
    if (cmd == "spec" && argc >= 4) { Spec s = make_spec(argv[2], strtoull(argv[3], nullptr, 10)); fputs(dump(s, Result()).c_str(), stdout); return 0; }
    fprintf(stderr, "usage: run|one|shrink|replay|list ...\n"); return 2;
}
