#pragma once
// Allocator seam: every malloc/free/new/delete referenced from our objects (i.e. all of the
// library, Eigen included) goes through these wrappers (-Wl,--wrap=...). In library scope they
// are counted, can be made to fail, and fresh memory is filled with a chosen pattern.
#include <cstddef>
#include <cstdint>
namespace alloc {
struct State {
    bool in_scope = false;     // currently executing library code on behalf of a task
    long n = 0;                // allocations attempted since arm()
    long fail_at = -1;         // fail the fail_at-th allocation (0-based) since arm(); -1 never
    long fail_every = 0;       // with fail_at>=0: also fail each following one with this period (0: only once)
    long fired = 0;            // failures injected since arm()
    long live = 0;             // live blocks allocated in scope
    long live_bytes = 0;
    long total = 0;            // allocations in scope since process start
    long total_fired = 0;
    uint64_t fill = 0x7ff4dead7ff4deadull;  // pattern for fresh memory (a signalling-ish NaN)
    long corrupt = 0;          // header/trailer damage seen
};
extern State st;
inline void arm(long fail_at, long every) { st.n = 0; st.fail_at = fail_at; st.fail_every = every; st.fired = 0; }
inline void disarm() { st.fail_at = -1; st.fail_every = 0; }
// The simulated heap: a fixed address range handed out in a fixed way, so that addresses (and which freed block is
// used again) are a function of the run alone.  Started once in the process of a run.
const uintptr_t HEAP = 0x200000000000ull; const size_t HEAP_SIZE = (size_t)4 << 30;
void sim_heap();
struct Scope { bool old; Scope() : old(st.in_scope) { st.in_scope = true; } ~Scope() { st.in_scope = old; } };
struct NoScope { bool old; NoScope() : old(st.in_scope) { st.in_scope = false; } ~NoScope() { st.in_scope = old; } };
}
