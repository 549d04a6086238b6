// Thin expression layer over the z3 C API with local folding.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <cmath>

extern Z3_context C;

struct Ex {
    Z3_ast a = nullptr;
    Ex() {}
    explicit Ex(Z3_ast x) : a(x) { if (a) Z3_inc_ref(C, a); }
    Ex(const Ex& o) : a(o.a) { if (a) Z3_inc_ref(C, a); }
    Ex(Ex&& o) noexcept : a(o.a) { o.a = nullptr; }
    Ex& operator=(const Ex& o) { if (o.a) Z3_inc_ref(C, o.a); if (a) Z3_dec_ref(C, a); a = o.a; return *this; }
    Ex& operator=(Ex&& o) noexcept { std::swap(a, o.a); return *this; }
    ~Ex() { if (a) Z3_dec_ref(C, a); }
    operator bool() const { return a != nullptr; }
    unsigned id() const { return Z3_get_ast_id(C, a); }
    std::string str() const { return Z3_ast_to_string(C, a); }
};

inline Z3_sort_kind sortKind(const Ex& e) { return Z3_get_sort_kind(C, Z3_get_sort(C, e.a)); }
inline bool isBool(const Ex& e) { return sortKind(e) == Z3_BOOL_SORT; }
inline bool isFPs(const Ex& e) { return sortKind(e) == Z3_FLOATING_POINT_SORT; }
inline unsigned bvw(const Ex& e) { return Z3_get_bv_sort_size(C, Z3_get_sort(C, e.a)); }

Ex bvc(uint64_t v, unsigned w);
inline Ex exTrue() { return Ex(Z3_mk_true(C)); }
inline Ex exFalse() { return Ex(Z3_mk_false(C)); }
// numeral?
bool bvNum(const Ex& e, uint64_t& v);       // w<=64
inline bool isTrue(const Ex& e) { return Z3_get_bool_value(C, e.a) == Z3_L_TRUE; }
inline bool isFalse(const Ex& e) { return Z3_get_bool_value(C, e.a) == Z3_L_FALSE; }
Ex exSimplify(const Ex& e);
Ex exNot(const Ex& e);
Ex exAnd(const Ex& a, const Ex& b);
Ex exOr(const Ex& a, const Ex& b);
Ex exIte(const Ex& c, const Ex& a, const Ex& b);
Ex exEq(const Ex& a, const Ex& b);
Ex exExtract(unsigned hi, unsigned lo, const Ex& e);
Ex exConcat(const Ex& hi, const Ex& lo);
Ex exZext(const Ex& e, unsigned to);
Ex exSext(const Ex& e, unsigned to);
Ex boolToBv(const Ex& e, unsigned w = 1);
Ex bvToBool(const Ex& e);
Ex fpToBv(const Ex& e, unsigned w);
Ex bvToFp(const Ex& e, unsigned w);

struct Val {
    uint32_t w = 0;
    uint8_t kind = 0;              // 0 concrete, 1 symbolic, 2 aggregate
    uint64_t c = 0;
    Ex e;
    std::shared_ptr<std::vector<Val>> agg;
    static Val conc(uint64_t v, uint32_t w) {
        Val r; r.w = w; r.c = w >= 64 ? v : (v & ((1ull << w) - 1)); return r;
    }
    static Val sym(const Ex& e, uint32_t w);
    static Val aggv(std::vector<Val> v) { Val r; r.kind = 2; r.agg = std::make_shared<std::vector<Val>>(std::move(v)); return r; }
    bool isC() const { return kind == 0; }
    bool isS() const { return kind == 1; }
    bool isAgg() const { return kind == 2; }
    // bit-vector view (w==1 -> BV1), any kind 0/1
    Ex bv() const;
    Ex boolean() const;            // w==1
    Ex fp() const;
    int64_t sc() const { return w >= 64 ? (int64_t)c : ((int64_t)(c << (64 - w)) >> (64 - w)); }
};
