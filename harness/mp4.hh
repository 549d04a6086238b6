// ISO BMFF box walker used as the oracle for what the dasher writes.
#pragma once
#include "symx.h"
#include <string.h>
#include <stdint.h>
typedef const unsigned char* Bytes;
static inline uint32_t u32b(Bytes p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static inline uint16_t u16b(Bytes p) { return (uint16_t)(p[0] << 8 | p[1]); }
static inline uint64_t u64b(Bytes p) { return (uint64_t)u32b(p) << 32 | u32b(p + 4); }
struct Box { Bytes p; uint32_t n; };          // payload (after the 8 byte header)
struct Walk {
    Bytes p, end;
    Walk(Bytes a, size_t n) : p(a), end(a + n) {}
    Walk(const Box& b, size_t skip = 0) : p(b.p + skip), end(b.p + b.n) {}
    Box next(const char* type) {
        symx_assert(end - p >= 8, "box header inside its parent");
        uint32_t sz = (uint32_t)symx_concretize(u32b(p));
        symx_assert(sz >= 8 && sz <= (size_t)(end - p), "box size inside its parent");
        symx_assert(!memcmp(p + 4, type, 4), "expected box type");
        Box b; b.p = p + 8; b.n = sz - 8; p += sz;
        return b;
    }
    void done() { symx_assert(p == end, "boxes fill their parent exactly"); }
};
