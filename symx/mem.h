// Copy-on-write object memory. Each object owns a 2^33-byte address slot, its
// base sits 2^32 into the slot, so any 32-bit over/underflow stays inside the slot.
#pragma once
#include "expr.h"
#include <array>

static const unsigned SLOT_BITS = 33;
static const uint64_t SLOT_BASE = 1ull << 32;
static const unsigned PSZ = 512;

struct SymByte { Ex e; uint32_t idx; uint32_t n; };  // byte idx of an n-byte expr

struct Page {
    uint8_t conc[PSZ];
    uint8_t kind[PSZ];                // 0 uninit 1 concrete 2 symbolic
    std::unordered_map<uint32_t, SymByte> sym;
    Page() { memset(kind, 0, sizeof kind); }
};
enum ObjKind : uint8_t { OK_HEAP, OK_STACK, OK_GLOBAL, OK_FUNC, OK_EXTERN };
struct Object {
    uint64_t size = 0;
    Ex symSize;                       // when the allocation size is symbolic: size = upper bound
    ObjKind kind = OK_HEAP;
    bool freed = false, ro = false;
    uint8_t defKind = 0;              // kind of bytes of absent pages: 0 uninit, 1 zero
    bool isNewArr = false, isMalloc = false;
    std::string name;
    std::vector<std::shared_ptr<Page>> pages;
    Page* pageR(uint64_t off) const {
        uint64_t i = off / PSZ;
        return i < pages.size() ? pages[i].get() : nullptr;
    }
    Page* pageW(uint64_t off) {
        uint64_t i = off / PSZ;
        if (i >= pages.size()) pages.resize(i + 1);
        auto& p = pages[i];
        if (!p) {
            p = std::make_shared<Page>();
            if (defKind == 1) { memset(p->kind, 1, PSZ); memset(p->conc, 0, PSZ); }
        } else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
        return p.get();
    }
    uint8_t kindAt(uint64_t off) const { Page* p = pageR(off); return p ? p->kind[off % PSZ] : defKind; }
    uint8_t concAt(uint64_t off) const { Page* p = pageR(off); return p ? p->conc[off % PSZ] : 0; }
    void setConc(uint64_t off, uint8_t v) {
        Page* p = pageW(off);
        unsigned o = off % PSZ;
        if (p->kind[o] == 2) p->sym.erase(o);
        p->kind[o] = 1; p->conc[o] = v;
    }
    void setSym(uint64_t off, const SymByte& b) {
        Page* p = pageW(off);
        unsigned o = off % PSZ;
        p->kind[o] = 2; p->sym[o] = b;
    }
    void setUninit(uint64_t off) {
        Page* p = pageW(off);
        unsigned o = off % PSZ;
        if (p->kind[o] == 2) p->sym.erase(o);
        p->kind[o] = 0;
    }
    const SymByte& symAt(uint64_t off) const { return pageR(off)->sym.at(off % PSZ); }
};
typedef std::shared_ptr<Object> ObjP;

struct ObjTable {
    static const unsigned N = 32;
    typedef std::array<ObjP, N> Chunk;
    std::vector<std::shared_ptr<Chunk>> chunks;
    uint64_t next = 1;
    uint64_t add(ObjP o) {
        uint64_t id = next++;
        set(id, std::move(o));
        return id;
    }
    void set(uint64_t id, ObjP o) {
        uint64_t c = id / N;
        if (c >= chunks.size()) chunks.resize(c + 1);
        auto& ch = chunks[c];
        if (!ch) ch = std::make_shared<Chunk>();
        else if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
        (*ch)[id % N] = std::move(o);
    }
    Object* get(uint64_t id) const {
        uint64_t c = id / N;
        if (c >= chunks.size() || !chunks[c]) return nullptr;
        return (*chunks[c])[id % N].get();
    }
    Object* getW(uint64_t id) {
        uint64_t c = id / N;
        auto& ch = chunks[c];
        if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
        ObjP& o = (*ch)[id % N];
        if (o.use_count() > 1) o = std::make_shared<Object>(*o);
        return o.get();
    }
};
inline uint64_t baseAddr(uint64_t id) { return (id << SLOT_BITS) + SLOT_BASE; }
inline uint64_t addrId(uint64_t a) { return a >> SLOT_BITS; }
inline int64_t addrOff(uint64_t a) { return (int64_t)(a & ((1ull << SLOT_BITS) - 1)) - (int64_t)SLOT_BASE; }
