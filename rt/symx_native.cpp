// Native side of the harness API: replays one assignment against the real code.
#include "symx.h"
#include <sanitizer/allocator_interface.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
static std::vector<std::pair<std::string, uint64_t>> in;
static size_t pos = 0;
static int caseNo = 0;
static bool loaded = false;
static FILE* obs = 0;
static void load() {
    if (loaded) return;
    loaded = true;
    if (const char* c = getenv("SYMX_CASE")) caseNo = atoi(c);
    if (const char* o = getenv("SYMX_OBS")) obs = fopen(o, "w");
    const char* f = getenv("SYMX_REPLAY");
    if (!f) return;
    FILE* fp = fopen(f, "r");
    if (!fp) { fprintf(stderr, "SYMX-REPLAY-MISSING\n"); _Exit(90); }
    char name[256]; unsigned long long v;
    while (fscanf(fp, "%255s %llx", name, &v) == 2) in.push_back({name, v});
    fclose(fp);
}
static uint64_t next(const char* name) {
    load();
    while (pos < in.size() && in[pos].first[0] == '@') pos++;
    if (pos >= in.size()) { fprintf(stderr, "SYMX-REPLAY-DIVERGED: no value for %s\n", name); fflush(stderr); _Exit(91); }
    std::string want = name; for (char& c : want) if (c == 32) c = 95;
    if (in[pos].first != want) { fprintf(stderr, "SYMX-REPLAY-DIVERGED: wanted %s have %s\n", name, in[pos].first.c_str()); fflush(stderr); _Exit(91); }
    return in[pos++].second;
}
// next scheduling decision (threads): returns -1 when none is recorded at this point
extern "C" int symx_native_sched(const char* kind) {
    load();
    if (pos >= in.size() || in[pos].first != std::string("@") + kind) { fprintf(stderr, "SYMX-REPLAY-DIVERGED: schedule (%s)\n", kind); fflush(stderr); _Exit(91); }
    return (int)in[pos++].second;
}
extern "C" {
uint64_t symx_u64(const char* n) { return next(n); }
uint32_t symx_u32(const char* n) { return (uint32_t)next(n); }
uint16_t symx_u16(const char* n) { return (uint16_t)next(n); }
uint8_t symx_u8(const char* n) { return (uint8_t)next(n); }
int64_t symx_range(int64_t lo, int64_t hi, const char* n) { int64_t v = (int64_t)next(n); if (v < lo || v > hi) { fprintf(stderr, "SYMX-REPLAY-DIVERGED: range\n"); _Exit(91); } return v; }
int64_t symx_choose(int64_t lo, int64_t hi, const char* n) { return symx_range(lo, hi, n); }
void symx_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)next(name); }
float symx_f32(const char* n) { uint32_t b = (uint32_t)next(n); float f; memcpy(&f, &b, 4); return f; }
double symx_f64(const char* n) { uint64_t b = next(n); double f; memcpy(&f, &b, 8); return f; }
void symx_assume(int c) { if (!c) { fprintf(stderr, "SYMX-REPLAY-DIVERGED: assumption fails\n"); fflush(stderr); _Exit(91); } }
void symx_assert_(int c, const char* m) { if (!c) { fprintf(stderr, "SYMX-ASSERT-FAILED: %s\n", m); fflush(stderr); if (obs) fflush(obs); _Exit(77); } }
void symx_fail(const char* m) { symx_assert_(0, m); }
void symx_reach(const char*) {}
void symx_observe(uint64_t v) { load(); if (obs) { fprintf(obs, "0x%llx\n", (unsigned long long)v); fflush(obs); } }
uint64_t symx_concretize(uint64_t v) { return v; }
int symx_is_symbolic(uint64_t) { return 0; }
int symx_case(void) { load(); return caseNo; }
// live heap blocks, counted through the sanitizer's allocation hooks once first asked
typedef void (*mh)(const volatile void*, size_t); typedef void (*fh)(const volatile void*);
int __sanitizer_install_malloc_and_free_hooks(mh, fh);
static uint64_t liveBlocks = 1u << 20; static int hooked;
static void onMalloc(const volatile void* p, size_t) { if (p) __atomic_add_fetch(&liveBlocks, 1, __ATOMIC_RELAXED); }
static void onFree(const volatile void* p) { if (p) __atomic_sub_fetch(&liveBlocks, 1, __ATOMIC_RELAXED); }
uint64_t symx_live_heap(void) { if (!hooked) hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); return liveBlocks; }
uint64_t symx_obj_size(const void* p) { return __sanitizer_get_ownership(p) ? __sanitizer_get_allocated_size(p) : 0; }
void symx_silent_exit(void) { if (obs) fflush(obs); _Exit(0); }
__attribute__((weak)) void symx_preempt(int) {}
__attribute__((weak)) void symx_yield(void) {}
void harness(void);
}
int main() { load(); harness(); if (obs) fflush(obs); _Exit(0); }
