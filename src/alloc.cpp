#include "alloc.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
namespace alloc { State st; }
using alloc::st;
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
}
namespace {
// size classes: multiples of 64 up to 4 kB, then powers of two; freed blocks are used again last-in-first-out
struct Free { Free* next; };
char *lo = nullptr, *hi = nullptr; Free* bins[128];
int bin_of(size_t n, size_t& sz) { if (n <= 4096) { int b = (int)((n + 63) / 64); sz = (size_t)b * 64; return b; } int b = 65; sz = 8192; while (sz < n) { sz *= 2; ++b; } return b; }
void* raw_get(size_t n) {
    if (!lo) return __real_malloc(n);
    size_t sz; int b = bin_of(n + 16, sz); char* p = (char*)bins[b];
    if (p) bins[b] = bins[b]->next; else { if (sz > (size_t)(hi - lo)) return nullptr; p = lo; lo += sz; }
    *(size_t*)p = (size_t)b; return p + 16;
}
void raw_put(void* q) {
    if ((uintptr_t)q - alloc::HEAP >= alloc::HEAP_SIZE) { __real_free(q); return; }
    char* p = (char*)q - 16; size_t b = *(size_t*)p; if (b < 128) { ((Free*)p)->next = bins[b]; bins[b] = (Free*)p; }
}
struct Head { uint64_t magic; uint64_t size; uint64_t scoped; void* base; };
const uint64_t MAGIC = 0xfa57ad00a110c8edull, DEAD = 0xdeadfa57deadfa57ull, TAIL = 0x7a117a117a117a11ull;
static_assert(sizeof(Head) == 32, "");
void* get(size_t n, size_t align) {
    if (st.in_scope) {
        long k = st.n++; ++st.total;
        if (st.fail_at >= 0 && (k == st.fail_at || (st.fail_every && k > st.fail_at && (k - st.fail_at) % st.fail_every == 0))) {
            ++st.fired; ++st.total_fired; errno = ENOMEM; return nullptr;
        }
    }
    if (align < 64) align = 64;   // one alignment everywhere: Eigen's summation order depends on it
    if (n > (size_t)1 << 40) { errno = ENOMEM; return nullptr; }
    char* base = (char*)raw_get(n + align + sizeof(Head) + 8);
    if (!base) return nullptr;
    uintptr_t p = ((uintptr_t)base + sizeof(Head) + align - 1) / align * align;
    Head* h = (Head*)(p - sizeof(Head));
    h->magic = MAGIC; h->size = n; h->scoped = st.in_scope; h->base = base;
    uint64_t* w = (uint64_t*)p; size_t i = 0;
    for (; i + 8 <= n; i += 8) *w++ = st.fill;
    memcpy(w, &st.fill, n - i);
    memcpy((char*)p + n, &TAIL, 8);
    if (st.in_scope) { ++st.live; st.live_bytes += (long)n; }
    return (void*)p;
}
void put(void* p) {
    if (!p) return;
    Head* h = (Head*)((char*)p - sizeof(Head));
    if (h->magic != MAGIC) { ++st.corrupt; if (h->magic == DEAD) return; abort(); }
    if (memcmp((char*)p + h->size, &TAIL, 8)) ++st.corrupt;
    h->magic = DEAD;
    if (h->scoped) { --st.live; st.live_bytes -= (long)h->size; }
    memset(p, 0xA5, h->size);           // use after free reads garbage, deterministically
    raw_put(h->base);
}
}
void alloc::sim_heap() {
    if (lo) return; void* p = mmap((void*)HEAP, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) return; if (p != (void*)HEAP) { munmap(p, HEAP_SIZE); return; }
    lo = (char*)p; hi = lo + HEAP_SIZE;
}
extern "C" {
void* __wrap_malloc(size_t n) { return get(n, 16); }
void* __wrap_calloc(size_t a, size_t b) { void* p = get(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
    void* q = get(n, 16); if (!q) return nullptr;
    if (p) { Head* h = (Head*)((char*)p - sizeof(Head)); memcpy(q, p, h->size < n ? h->size : n); put(p); }
    return q;
}
int __wrap_posix_memalign(void** out, size_t a, size_t n) { void* p = get(n, a); if (!p) return ENOMEM; *out = p; return 0; }
void* __wrap_aligned_alloc(size_t a, size_t n) { return get(n, a); }
void* __wrap_memalign(size_t a, size_t n) { return get(n, a); }
void __wrap_free(void* p) { put(p); }
}
void* operator new(size_t n) { void* p = get(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 16); }
void* operator new(size_t n, std::align_val_t a) { void* p = get(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = get(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
