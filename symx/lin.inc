// ---------------------------------------------------------------- linear forms with interval bounds
// lin(e) describes a bit-vector e of width w as an integer V = k + sum c_i*val(t_i) with e == V (mod 2^w)
// and V in [lo,hi].  val(t) is the unsigned (or, if sg, signed) value of the bit-vector t.
typedef __int128 i128;
struct LTerm { Ex e; bool sg; i128 lo, hi, c; };
struct Lin { bool ok = false; std::vector<LTerm> t; i128 k = 0, lo = 0, hi = 0; };
static const i128 LMAX = (i128)1 << 110;
static const unsigned LTERMS = 10;
static std::unordered_map<unsigned, std::pair<i128, i128>> symBound;      // ast id of a symbol -> bounds of its unsigned value
static std::unordered_map<unsigned, std::pair<Ex, Lin>> linMemo;
static i128 p2(unsigned n) { return (i128)1 << n; }
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
static i128 iabs(i128 a) { return a < 0 ? -a : a; }
static Z3_decl_kind dk(const Ex& e) {
    if (Z3_get_ast_kind(C, e.a) != Z3_APP_AST) return Z3_OP_UNINTERPRETED;
    return Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, e.a)));
}
static Ex argN(const Ex& e, unsigned i) { return Ex(Z3_get_app_arg(C, Z3_to_app(C, e.a), i)); }
static unsigned nArgs(const Ex& e) { return Z3_get_app_num_args(C, Z3_to_app(C, e.a)); }
static int declPar(const Ex& e, unsigned i) { return Z3_get_decl_int_parameter(C, Z3_get_app_decl(C, Z3_to_app(C, e.a)), i); }
static Ex bvcS(i128 v, unsigned w) {
    if (w <= 64) return bvc((uint64_t)v, w);
    uint64_t l = (uint64_t)v, h = (uint64_t)(v >> 64);
    return Ex(Z3_mk_concat(C, bvc(h, w - 64).a, bvc(l, 64).a));
}
static void linBounds(Lin& L) {
    L.lo = L.hi = L.k;
    for (auto& t : L.t) {
        if (t.c >= 0) { L.lo += t.c * t.lo; L.hi += t.c * t.hi; }
        else { L.lo += t.c * t.hi; L.hi += t.c * t.lo; }
    }
    if (L.lo < -LMAX || L.hi > LMAX || L.t.size() > LTERMS) L.ok = false;
}
static Lin linConst(i128 k) { Lin L; L.ok = true; L.k = L.lo = L.hi = k; return L; }
static bool coefOk(i128 c) { return iabs(c) < p2(40); }
static Lin linScale(const Lin& a, i128 c) {
    Lin r;
    if (!a.ok || !coefOk(c)) return r;
    if (c == 0) return linConst(0);
    r.ok = true; r.k = a.k * c; r.t = a.t;
    if (iabs(a.k) > p2(70)) { r.ok = false; return r; }
    for (auto& t : r.t) { if (!coefOk(t.c)) { r.ok = false; return r; } t.c *= c; }
    linBounds(r);
    return r;
}
static Lin linAdd(const Lin& a, const Lin& b, int sgn = 1) {
    Lin r;
    if (!a.ok || !b.ok) return r;
    r.ok = true; r.k = a.k + sgn * b.k;
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j >= b.t.size() || (i < a.t.size() && a.t[i].e.id() < b.t[j].e.id())) r.t.push_back(a.t[i++]);
        else if (i >= a.t.size() || b.t[j].e.id() < a.t[i].e.id()) { r.t.push_back(b.t[j++]); r.t.back().c *= sgn; }
        else if (a.t[i].sg != b.t[j].sg) { r.ok = false; return r; }
        else {
            LTerm t = a.t[i];
            t.c += sgn * b.t[j].c; i++; j++;
            if (t.c != 0) r.t.push_back(t);
        }
    }
    linBounds(r);
    return r;
}
static void linShift(Lin& L, i128 d) { L.k += d; L.lo += d; L.hi += d; }
static bool normU(Lin& L, unsigned w) {
    if (!L.ok || w > 64) return false;
    i128 q = fdiv(L.lo, p2(w));
    if (fdiv(L.hi, p2(w)) != q) return false;
    linShift(L, -q * p2(w));
    return true;
}
static bool normS(Lin& L, unsigned w) {
    if (!L.ok || w > 64) return false;
    i128 h = p2(w - 1), q = fdiv(L.lo + h, p2(w));
    if (fdiv(L.hi + h, p2(w)) != q) return false;
    linShift(L, -q * p2(w));
    return true;
}
static unsigned ubits(i128 v) { unsigned n = 0; while (v > 0) { n++; v >>= 1; } return n ? n : 1; }
static unsigned sbits(i128 lo, i128 hi) { unsigned n = 1; while (lo < -p2(n - 1) || hi >= p2(n - 1)) n++; return n; }
static Ex toW(const Ex& e, bool sg, unsigned W) {
    unsigned w = bvw(e);
    if (w == W) return e;
    if (w > W) return exExtract(W - 1, 0, e);
    return sg ? exSext(e, W) : exZext(e, W);
}
// value of L modulo 2^W
static Ex linBuild(const Lin& L, unsigned W) {
    Ex r; bool kUsed = L.k == 0;
    for (int pass = 0; pass < 2; pass++)
        for (auto& t : L.t) {
            if ((t.c > 0) != (pass == 0)) continue;
            Ex x = toW(t.e, t.sg, W);
            i128 m = iabs(t.c);
            if (m != 1) x = Ex(Z3_mk_bvmul(C, bvcS(m, W).a, x.a));
            if (pass == 0) r = r ? Ex(Z3_mk_bvadd(C, r.a, x.a)) : x;
            else {
                if (!r) { r = bvcS(L.k, W); kUsed = true; }
                r = Ex(Z3_mk_bvsub(C, r.a, x.a));
            }
        }
    if (!r) return bvcS(L.k, W);
    if (!kUsed) r = Ex(Z3_mk_bvadd(C, r.a, bvcS(L.k, W).a));
    return r;
}
static Lin linTerm(const Ex& e, bool sg, i128 lo, i128 hi) {
    Lin L; L.ok = true;
    L.t.push_back({e, sg, lo, hi, 1});
    L.lo = lo; L.hi = hi;
    if (lo == hi) return linConst(lo);
    return L;
}
static Lin linOpaque(const Ex& e) {
    unsigned w = bvw(e);
    if (w > 64) return Lin();
    auto it = symBound.find(e.id());
    if (it != symBound.end()) return linTerm(e, false, it->second.first, it->second.second);
    return linTerm(e, false, 0, p2(w) - 1);
}
static unsigned rnd8(unsigned w) { return (w + 7) / 8 * 8; }
static const Lin& lin(const Ex& e);
static Lin lin0(const Ex& e) {
    unsigned w = bvw(e);
    Lin bad;
    if (w > 64) return bad;
    uint64_t v;
    if (bvNum(e, v)) { i128 x = v; if (x >= p2(w - 1) && w > 1) x -= p2(w); return linConst(x); }
    unsigned n = Z3_get_ast_kind(C, e.a) == Z3_APP_AST ? nArgs(e) : 0;
    switch (dk(e)) {
        case Z3_OP_BADD: case Z3_OP_BSUB: {
            Lin r = lin(argN(e, 0));
            for (unsigned i = 1; i < n && r.ok; i++) r = linAdd(r, lin(argN(e, i)), dk(e) == Z3_OP_BADD ? 1 : -1);
            return r;
        }
        case Z3_OP_BNEG: return linScale(lin(argN(e, 0)), -1);
        case Z3_OP_BMUL: {
            Lin r = lin(argN(e, 0));
            for (unsigned i = 1; i < n && r.ok; i++) {
                Lin b = lin(argN(e, i));
                if (!b.ok) return b;
                if (r.t.empty()) std::swap(r, b);
                if (b.t.empty()) { r = linScale(r, b.k); continue; }
                if (iabs(r.lo) > p2(50) || iabs(r.hi) > p2(50) || iabs(b.lo) > p2(50) || iabs(b.hi) > p2(50)) return bad;
                i128 c[4] = {r.lo * b.lo, r.lo * b.hi, r.hi * b.lo, r.hi * b.hi};
                i128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
                bool sg = lo < 0;
                unsigned W = rnd8(sg ? sbits(lo, hi) : ubits(hi));
                if (W > w) return bad;
                Ex x = linBuild(r, W), y = linBuild(b, W);
                if (y.id() < x.id()) std::swap(x, y);
                r = linTerm(Ex(Z3_mk_bvmul(C, x.a, y.a)), sg, lo, hi);
            }
            return r;
        }
        case Z3_OP_CONCAT: {
            Lin r;
            for (unsigned i = 0; i < n; i++) {
                Ex p = argN(e, i);
                Lin l = lin(p);
                if (i == 0) { r = l; continue; }
                if (!r.ok || !normU(l, bvw(p))) return bad;
                if (bvw(p) > 39) { if (r.t.empty() && r.k == 0) { r = l; continue; } return bad; }
                r = linAdd(linScale(r, p2(bvw(p))), l);
            }
            return r;
        }
        case Z3_OP_ZERO_EXT: { Lin r = lin(argN(e, 0)); return normU(r, bvw(argN(e, 0))) ? r : linOpaque(argN(e, 0)); }
        case Z3_OP_SIGN_EXT: {
            Ex in = argN(e, 0);
            Lin r = lin(in);
            if (normS(r, bvw(in))) return r;
            unsigned iw = bvw(in);
            return linTerm(in, true, -p2(iw - 1), p2(iw - 1) - 1);
        }
        case Z3_OP_EXTRACT: {
            unsigned hi = declPar(e, 0), lo = declPar(e, 1);
            Ex in = argN(e, 0);
            Lin r = lin(in);
            if (!r.ok) return linOpaque(e);
            if (lo == 0) return r;
            if (!normU(r, bvw(in)) && !normS(r, bvw(in))) return linOpaque(e);
            i128 d = p2(lo);
            bool all = lo < 60;
            for (auto& t : r.t) if (t.c % d != 0) all = false;
            if (all) {
                for (auto& t : r.t) t.c /= d;
                r.k = fdiv(r.k, d);
                linBounds(r);
                return r;
            }
            i128 nl = fdiv(r.lo, d), nh = fdiv(r.hi, d);
            if (nl == nh) return linConst(nl);
            bool sg = nl < 0;
            unsigned W = lo + rnd8(sg ? sbits(nl, nh) : ubits(nh));
            if (W > bvw(in) || W >= hi + 1) return linOpaque(e);
            return linTerm(exExtract(W - 1, lo, linBuild(r, W)), sg, nl, nh);
        }
        case Z3_OP_ITE: {
            Lin a = lin(argN(e, 1)), b = lin(argN(e, 2));
            if (!a.ok || !b.ok) return linOpaque(e);
            if (!(normS(a, w) && normS(b, w))) { a = lin(argN(e, 1)); b = lin(argN(e, 2)); if (!(normU(a, w) && normU(b, w))) return linOpaque(e); }
            i128 lo = std::min(a.lo, b.lo), hi = std::max(a.hi, b.hi);
            bool sg = lo < 0;
            unsigned W = rnd8(sg ? sbits(lo, hi) : ubits(hi));
            if (W >= w) {
                if (W > w || sg == false) W = w;
                return linTerm(e, sg, lo, hi);
            }
            return linTerm(exIte(argN(e, 0), linBuild(a, W), linBuild(b, W)), sg, lo, hi);
        }
        default: return linOpaque(e);
    }
}
static const Lin& lin(const Ex& e) {
    unsigned id = e.id();
    auto it = linMemo.find(id);
    if (it != linMemo.end()) return it->second.second;
    Lin r = lin0(e);
    if (!r.ok) r = linOpaque(e);
    return linMemo.emplace(id, std::make_pair(e, r)).first->second.second;
}
static i128 gcdI(i128 a, i128 b) { a = iabs(a); b = iabs(b); while (b) { i128 t = a % b; a = b; b = t; } return a; }
// D <= 0 (eq: D == 0) as a formula
static bool linDecide(Lin D, bool eq, unsigned wmax, Ex& out) {
    if (!D.ok) return false;
    if (eq) {
        if (D.lo > 0 || D.hi < 0) { out = exFalse(); return true; }
        if (D.t.empty()) { out = D.k == 0 ? exTrue() : exFalse(); return true; }
    } else {
        if (D.hi <= 0) { out = exTrue(); return true; }
        if (D.lo > 0) { out = exFalse(); return true; }
    }
    i128 g = 0;
    for (auto& t : D.t) g = gcdI(g, t.c);
    if (eq && D.k % g != 0) { out = exFalse(); return true; }
    i128 K = fdiv(-D.k, g);            // S <= K  or S == K
    for (auto& t : D.t) t.c /= g;
    if (D.t.size() == 1) {
        const LTerm& t = D.t[0];
        unsigned tw = bvw(t.e);
        bool ge = false;
        if (t.c < 0) { K = -K; ge = true; }
        if (K < t.lo || K > t.hi) {       // only when bounds decide
            if (eq) { out = exFalse(); return true; }
            out = (ge ? K < t.lo : K > t.hi) ? exTrue() : exFalse();
            return true;
        }
        Ex kc = bvcS(K, tw);
        if (eq) out = exEq(t.e, kc);
        else if (ge && K == t.hi) out = exEq(t.e, kc);
        else if (!ge && K == t.lo) out = exEq(t.e, kc);
        else if (t.sg) out = Ex(ge ? Z3_mk_bvsge(C, t.e.a, kc.a) : Z3_mk_bvsle(C, t.e.a, kc.a));
        else out = Ex(ge ? Z3_mk_bvuge(C, t.e.a, kc.a) : Z3_mk_bvule(C, t.e.a, kc.a));
        return true;
    }
    Lin P, N; P.ok = N.ok = true;
    for (auto& t : D.t) { if (t.c > 0) P.t.push_back(t); else { N.t.push_back(t); N.t.back().c = -t.c; } }
    if (K >= 0) N.k = K; else P.k = -K;
    linBounds(P); linBounds(N);
    bool sg = P.lo < 0 || N.lo < 0;
    i128 lo = std::min(P.lo, N.lo), hi = std::max(P.hi, N.hi);
    unsigned W = sg ? sbits(lo, hi) : ubits(hi);
    if (W > wmax) return false;
    Ex x = linBuild(P, W), y = linBuild(N, W);
    if (eq) out = exEq(x, y);
    else out = Ex(sg ? Z3_mk_bvsle(C, x.a, y.a) : Z3_mk_bvule(C, x.a, y.a));
    return true;
}
enum LC { L_EQ, L_ULE, L_ULT, L_SLE, L_SLT };
static bool linCmp(LC op, const Ex& x, const Ex& y, Ex& out) {
    unsigned w = bvw(x);
    if (w > 64 || w < 8 || O.noLin) return false;
    Lin a = lin(x), b = lin(y);
    if (op == L_EQ) {
        Lin D = linAdd(a, b, -1);
        if (!D.ok) return false;
        i128 q0 = fdiv(D.lo + p2(w) - 1, p2(w)), q1 = fdiv(D.hi, p2(w));   // multiples of 2^w inside the interval
        if (q0 > q1) { out = exFalse(); return true; }
        if (q0 != q1) return false;
        linShift(D, -q0 * p2(w));
        return linDecide(D, true, w, out);
    }
    bool sg = op == L_SLE || op == L_SLT;
    if (sg ? !(normS(a, w) && normS(b, w)) : !(normU(a, w) && normU(b, w))) return false;
    Lin D = linAdd(a, b, -1);
    if (!D.ok) return false;
    if (op == L_ULT || op == L_SLT) linShift(D, 1);
    return linDecide(D, false, w + 1, out);
}
// canonical narrow form of an arithmetic result, or the expression itself
static Ex linNarrow(const Ex& e) {
    unsigned w = bvw(e);
    if (w > 64 || w < 16 || O.noLin) return e;
    Lin L = lin(e);
    if (!L.ok) return e;
    if (L.t.empty()) return bvcS(L.k, w);
    if (!normU(L, w)) return e;
    unsigned W = rnd8(ubits(L.hi));
    if (W >= w) return e;
    Ex r = exZext(linBuild(L, W), w);
    if (r.id() != e.id() && !linMemo.count(r.id())) linMemo.emplace(r.id(), std::make_pair(r, L));
    return r;
}
