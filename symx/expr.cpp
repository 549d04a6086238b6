#include "expr.h"
#include <cassert>
Z3_context C;

Ex bvc(uint64_t v, unsigned w) {
    if (w <= 64) {
        if (w < 64) v &= (1ull << w) - 1;
        return Ex(Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, w)));
    }
    return Ex(Z3_mk_zero_ext(C, w - 64, bvc(v, 64).a));
}
bool bvNum(const Ex& e, uint64_t& v) {
    if (Z3_get_ast_kind(C, e.a) != Z3_NUMERAL_AST) return false;
    return Z3_get_numeral_uint64(C, e.a, &v);
}
static Z3_decl_kind declKind(const Ex& e) {
    if (Z3_get_ast_kind(C, e.a) != Z3_APP_AST) return Z3_OP_UNINTERPRETED;
    return Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, e.a)));
}
static Ex arg(const Ex& e, unsigned i) { return Ex(Z3_get_app_arg(C, Z3_to_app(C, e.a), i)); }
static unsigned nargs(const Ex& e) { return Z3_get_app_num_args(C, Z3_to_app(C, e.a)); }
static int declParam(const Ex& e, unsigned i) { return Z3_get_decl_int_parameter(C, Z3_get_app_decl(C, Z3_to_app(C, e.a)), i); }

Ex exSimplify(const Ex& e) { return Ex(Z3_simplify(C, e.a)); }
Ex exNot(const Ex& e) {
    if (isTrue(e)) return exFalse();
    if (isFalse(e)) return exTrue();
    if (declKind(e) == Z3_OP_NOT) return arg(e, 0);
    return Ex(Z3_mk_not(C, e.a));
}
Ex exAnd(const Ex& a, const Ex& b) {
    if (isTrue(a)) return b;
    if (isTrue(b)) return a;
    if (isFalse(a) || isFalse(b)) return exFalse();
    if (a.a == b.a) return a;
    Z3_ast x[2] = {a.a, b.a};
    return Ex(Z3_mk_and(C, 2, x));
}
Ex exOr(const Ex& a, const Ex& b) {
    if (isFalse(a)) return b;
    if (isFalse(b)) return a;
    if (isTrue(a) || isTrue(b)) return exTrue();
    if (a.a == b.a) return a;
    Z3_ast x[2] = {a.a, b.a};
    return Ex(Z3_mk_or(C, 2, x));
}
Ex exIte(const Ex& c, const Ex& a, const Ex& b) {
    if (isTrue(c)) return a;
    if (isFalse(c)) return b;
    if (a.a == b.a) return a;
    if (isBool(a)) {
        if (isTrue(a) && isFalse(b)) return c;
        if (isFalse(a) && isTrue(b)) return exNot(c);
    }
    return Ex(Z3_mk_ite(C, c.a, a.a, b.a));
}
Ex exEq(const Ex& a, const Ex& b) {
    if (a.a == b.a) return exTrue();
    uint64_t x, y;
    if (!isBool(a)) {
        bool na = bvNum(a, x), nb = bvNum(b, y);
        if (na && nb) return x == y ? exTrue() : exFalse();
        const Ex& s = na ? b : a;
        uint64_t k = na ? x : y;
        if (na || nb) {
            // ite(c, k1, k2) == k
            if (declKind(s) == Z3_OP_ITE) {
                uint64_t t, f;
                Ex st = arg(s, 1), sf = arg(s, 2);
                if (bvNum(st, t) && bvNum(sf, f)) {
                    if (t == k && f == k) return exTrue();
                    if (t == k) return arg(s, 0);
                    if (f == k) return exNot(arg(s, 0));
                    return exFalse();
                }
            }
            // zext(x) == k
            if (declKind(s) == Z3_OP_ZERO_EXT) {
                Ex in = arg(s, 0);
                unsigned w = bvw(in);
                if (w < 64) {
                    if (k >> w) return exFalse();
                    return exEq(in, bvc(k, w));
                }
            }
            if (declKind(s) == Z3_OP_CONCAT && nargs(s) == 2) {
                Ex h = arg(s, 0), l = arg(s, 1);
                unsigned wl = bvw(l), wh = bvw(h);
                uint64_t hv;
                if (wl < 64 && wh < 64 && bvNum(h, hv)) {
                    uint64_t kh = k >> wl;
                    if (kh != hv) return exFalse();
                    return exEq(l, bvc(k, wl));
                }
            }
        }
    }
    return Ex(Z3_mk_eq(C, a.a, b.a));
}
Ex exExtract(unsigned hi, unsigned lo, const Ex& e) {
    unsigned w = bvw(e);
    if (lo == 0 && hi == w - 1) return e;
    uint64_t v;
    if (w <= 64 && bvNum(e, v)) return bvc(v >> lo, hi - lo + 1);
    Z3_decl_kind k = declKind(e);
    if (k == Z3_OP_EXTRACT) {
        unsigned base = declParam(e, 1);
        return exExtract(hi + base, lo + base, arg(e, 0));
    }
    if (k == Z3_OP_CONCAT) {
        unsigned n = nargs(e), pos = w;
        for (unsigned i = 0; i < n; i++) {
            Ex p = arg(e, i);
            unsigned pw = bvw(p);
            pos -= pw;
            if (lo >= pos && hi < pos + pw) return exExtract(hi - pos, lo - pos, p);
        }
    }
    if (k == Z3_OP_ZERO_EXT) {
        Ex in = arg(e, 0);
        unsigned iw = bvw(in);
        if (hi < iw) return exExtract(hi, lo, in);
        if (lo >= iw) return bvc(0, hi - lo + 1);
        if (lo == 0) return exZext(in, hi + 1);
    }
    if (k == Z3_OP_SIGN_EXT) {
        Ex in = arg(e, 0);
        unsigned iw = bvw(in);
        if (hi < iw) return exExtract(hi, lo, in);
        if (lo == 0) return exSext(in, hi + 1);
    }
    if (k == Z3_OP_ITE) {
        uint64_t t, f;
        Ex st = arg(e, 1), sf = arg(e, 2);
        if (bvNum(st, t) || bvNum(sf, f))
            return exIte(arg(e, 0), exExtract(hi, lo, st), exExtract(hi, lo, sf));
    }
    // low bits of add/sub/mul/and/or/xor commute with truncation
    if (lo == 0 && hi + 1 <= 32 && nargs(e) == 2 &&
        (k == Z3_OP_BADD || k == Z3_OP_BAND || k == Z3_OP_BOR || k == Z3_OP_BXOR)) {
        Ex x = exExtract(hi, 0, arg(e, 0)), y = exExtract(hi, 0, arg(e, 1));
        switch (k) {
            case Z3_OP_BADD: return Ex(Z3_mk_bvadd(C, x.a, y.a));
            case Z3_OP_BAND: return Ex(Z3_mk_bvand(C, x.a, y.a));
            case Z3_OP_BOR: return Ex(Z3_mk_bvor(C, x.a, y.a));
            default: return Ex(Z3_mk_bvxor(C, x.a, y.a));
        }
    }
    return Ex(Z3_mk_extract(C, hi, lo, e.a));
}
Ex exConcat(const Ex& hi, const Ex& lo) {
    uint64_t a, b;
    unsigned wl = bvw(lo), wh = bvw(hi);
    if (wl + wh <= 64 && bvNum(hi, a) && bvNum(lo, b)) return bvc(a << wl | b, wl + wh);
    if (declKind(hi) == Z3_OP_EXTRACT && declKind(lo) == Z3_OP_EXTRACT) {
        Ex x = arg(hi, 0), y = arg(lo, 0);
        if (x.a == y.a && declParam(hi, 1) == declParam(lo, 0) + 1)
            return exExtract(declParam(hi, 0), declParam(lo, 1), x);
    }
    if (bvNum(hi, a) && a == 0) return exZext(lo, wl + wh);
    return Ex(Z3_mk_concat(C, hi.a, lo.a));
}
Ex exZext(const Ex& e, unsigned to) {
    unsigned w = bvw(e);
    if (to == w) return e;
    uint64_t v;
    if (to <= 64 && bvNum(e, v)) return bvc(v, to);
    if (declKind(e) == Z3_OP_ZERO_EXT) return exZext(arg(e, 0), to);
    if (declKind(e) == Z3_OP_ITE) {
        uint64_t t, f;
        Ex st = arg(e, 1), sf = arg(e, 2);
        if (to <= 64 && bvNum(st, t) && bvNum(sf, f)) return exIte(arg(e, 0), bvc(t, to), bvc(f, to));
    }
    return Ex(Z3_mk_zero_ext(C, to - w, e.a));
}
Ex exSext(const Ex& e, unsigned to) {
    unsigned w = bvw(e);
    if (to == w) return e;
    uint64_t v;
    if (to <= 64 && bvNum(e, v)) {
        int64_t s = (int64_t)(v << (64 - w)) >> (64 - w);
        return bvc((uint64_t)s, to);
    }
    if (declKind(e) == Z3_OP_ZERO_EXT) return exZext(arg(e, 0), to);
    return Ex(Z3_mk_sign_ext(C, to - w, e.a));
}
Ex boolToBv(const Ex& e, unsigned w) {
    if (isTrue(e)) return bvc(1, w);
    if (isFalse(e)) return bvc(0, w);
    return exIte(e, bvc(1, w), bvc(0, w));
}
Ex bvToBool(const Ex& e) {   // BV1 -> Bool
    return exEq(e, bvc(1, 1));
}
Z3_sort fpSort(unsigned w) {
    static Z3_sort s32, s64;                       // kept alive
    if (!s32) { s32 = Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s32)); s64 = Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s64)); }
    return w == 32 ? s32 : s64;
}
Ex fpToBv(const Ex& e, unsigned w) {
    if (declKind(e) == Z3_OP_FPA_TO_FP && nargs(e) == 1) {
        Ex in = arg(e, 0);
        if (sortKind(in) == Z3_BV_SORT && bvw(in) == w) return in;
    }
    return Ex(Z3_mk_fpa_to_ieee_bv(C, e.a));
}
Ex bvToFp(const Ex& e, unsigned w) {
    if (declKind(e) == Z3_OP_FPA_TO_IEEE_BV) return arg(e, 0);
    return Ex(Z3_mk_fpa_to_fp_bv(C, e.a, fpSort(w)));
}
Val Val::sym(const Ex& e, uint32_t w) {
    Val r;
    r.w = w;
    if (isBool(e)) {
        if (isTrue(e)) return conc(1, 1);
        if (isFalse(e)) return conc(0, 1);
        assert(w == 1);
    } else if (!isFPs(e)) {
        uint64_t v;
        if (w <= 64 && bvNum(e, v)) return conc(v, w);
        if (w == 1) return sym(bvToBool(e), 1);
    } else {
        // literal floating-point results fold back to bits
        if (Z3_is_numeral_ast(C, e.a)) {
            Ex b = exSimplify(Ex(Z3_mk_fpa_to_ieee_bv(C, e.a)));
            uint64_t v;
            if (bvNum(b, v)) return conc(v, w);
        }
    }
    r.kind = 1;
    r.e = e;
    return r;
}
Ex Val::bv() const {
    if (kind == 0) return bvc(c, w);
    if (w == 1 && isBool(e)) return boolToBv(e, 1);
    if (isFPs(e)) return fpToBv(e, w);
    return e;
}
Ex Val::boolean() const {
    if (kind == 0) return c ? exTrue() : exFalse();
    if (isBool(e)) return e;
    return bvToBool(e);
}
Ex Val::fp() const {
    if (kind == 0) return exSimplify(Ex(Z3_mk_fpa_to_fp_bv(C, bvc(c, w).a, fpSort(w))));
    if (isFPs(e)) return e;
    return bvToFp(e, w);
}
