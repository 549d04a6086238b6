// ---------------------------------------------------------------- operations on values
static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static Val truncV(const Val& v, unsigned w) {
    if (v.w == w) return v;
    if (v.w < w) {
        if (v.isC()) return Val::conc(v.c, w);
        return Val::sym(exZext(v.bv(), w), w);
    }
    if (v.isC()) return Val::conc(v.c, w);
    Ex e = exExtract(w - 1, 0, v.bv());
    if (v.w > 64) e = exSimplify(e);
    if (w == 1) return Val::sym(bvToBool(e), 1);
    return Val::sym(e, w);
}
static Val zextV(const Val& v, unsigned w) {
    if (v.isC()) return Val::conc(v.c, w);   // w<=64 guaranteed for concrete
    if (v.w == 1) return Val::sym(boolToBv(v.boolean(), w), w);
    return Val::sym(exZext(v.bv(), w), w);
}
static Val sextV(const Val& v, unsigned w) {
    if (v.isC() && w > 64) return Val::sym(exSext(v.bv(), w), w);
    if (v.isC()) return Val::conc((uint64_t)v.sc(), w);
    if (v.w == 1) return Val::sym(exIte(v.boolean(), bvc(~0ull, w), bvc(0, w)), w);
    return Val::sym(exSext(v.bv(), w), w);
}
static Val symOf(Z3_ast a, unsigned w) {
    Ex e(a);
    return Val::sym(e, w);
}
static bool isPow2(uint64_t v) { return v && !(v & (v - 1)); }
// returns false if the path died (division by zero)
// floor(X/c) for a value with linear form X; the quotient of the non-divisible part becomes a defined symbol
// (q with 0 <= R - q*c < c, part of the path condition of the state)
struct DivEnt { Lin q; std::vector<Ex> defs; int sym = -1; Ex rem; i128 c, qlo; };
static std::unordered_map<std::string, DivEnt> divCache;
static std::vector<Ex> divKeep;
static bool linFloorDiv(State& s, const Lin& X, i128 c, Lin& out) {
    if (!X.ok || c <= 0 || c >= p2(39)) return false;
    Lin Y, R; Y.ok = R.ok = true;
    i128 rk = X.k - fdiv(X.k, c) * c;
    Y.k = fdiv(X.k, c); R.k = rk;
    for (auto& t : X.t) {
        // put the multiple of c nearest to the coefficient in Y
        i128 m = fdiv(t.c + c / 2, c), r = t.c - m * c;
        if (iabs(r) >= iabs(t.c)) { m = 0; r = t.c; }
        if (m) { Y.t.push_back(t); Y.t.back().c = m; }
        if (r) { R.t.push_back(t); R.t.back().c = r; }
    }
    linBounds(Y); linBounds(R);
    if (!Y.ok || !R.ok) return false;
    i128 ql = fdiv(R.lo, c), qh = fdiv(R.hi, c);
    if (ql == qh) { Y.k += ql; linBounds(Y); out = Y; return Y.ok; }
    unsigned W = rnd8(ubits(qh - ql));
    if (W > 64) return false;
    std::string key = std::to_string((uint64_t)c) + ":" + std::to_string((uint64_t)R.k);
    for (auto& t : R.t) key += "," + std::to_string(t.e.id()) + (t.sg ? "s" : "u") + std::to_string((int64_t)t.c);
    auto it = divCache.find(key);
    if (it == divCache.end()) {
        DivEnt d;
        for (auto& t : R.t) divKeep.push_back(t.e);
        d.sym = getSym("quot!" + std::to_string(divCache.size()) + "." + std::to_string(W), W);
        Ex qe = syms[d.sym].e;
        symBound[qe.id()] = {0, qh - ql};
        d.q = linTerm(qe, false, 0, qh - ql);
        linShift(d.q, ql);
        d.c = c; d.qlo = ql;
        Lin D = linAdd(R, linScale(d.q, c), -1);      // in [0, c-1]
        if (!D.ok) return false;
        Lin A = linScale(D, -1), B = D;
        // the true bounds of D are wider than what may be assumed: recompute from terms
        linBounds(A); linBounds(B);
        linShift(B, -(c - 1));
        Ex e1, e2;
        if (!linDecide(A, false, 100, e1) || !linDecide(B, false, 100, e2)) return false;
        Ex ub = Ex(Z3_mk_bvule(C, qe.a, bvcS(qh - ql, W).a));
        d.defs = {exSimplify(ub), exSimplify(e1), exSimplify(e2)};
        d.rem = linBuild(R, 64);
        it = divCache.emplace(key, d).first;
    }
    DivEnt& d = it->second;
    bool have = false;
    for (auto& k : s.pc) if (k.e.a == d.defs[1].a || (isTrue(d.defs[1]) && k.e.a == d.defs[2].a)) have = true;
    if (!have) {
        if (R.lo < -p2(62) || R.hi > p2(62)) return false;
        uint64_t xv;
        if (!evalU64(s.model, Val::sym(d.rem, 64), xv)) return false;
        auto m = std::make_shared<ModelBox>();
        m->a = s.model->a;
        m->a[d.sym] = (uint64_t)(fdiv((i128)(int64_t)xv, c) - d.qlo);
        s.model = m;
        for (auto& e : d.defs) addPC(s, e);
    }
    out = linAdd(Y, d.q);
    return out.ok;
}
static Ex linToW(const Lin& L0, unsigned w) {
    Lin L = L0;
    Ex e = normU(L, w) && rnd8(ubits(L.hi)) < w ? exZext(linBuild(L, rnd8(ubits(L.hi))), w) : linBuild(L, w);
    if (!linMemo.count(e.id())) linMemo.emplace(e.id(), std::make_pair(e, L));
    return e;
}
// division by a constant: 0 not applicable, 1 done, -1 path forked or died
static int divByConst(State& s, unsigned op, const Ex& x, unsigned w, uint64_t cv, Val& r) {
    bool sg = op == Instruction::SDiv || op == Instruction::SRem, rem = op == Instruction::URem || op == Instruction::SRem;
    Lin X = lin(x);
    i128 c = cv;
    bool nd = false;
    if (sg) { if (!normS(X, w)) return 0; if (w < 64) c = (i128)(int64_t)((int64_t)(cv << (64 - w)) >> (64 - w)); else c = (int64_t)cv; nd = c < 0; c = iabs(c); }
    else if (!normU(X, w)) return 0;
    if (!X.ok) return 0;
    bool neg = false;
    if (sg && X.lo < 0) {
        if (X.hi < 0) neg = true;
        else {
            Ex ng;
            if (!linCmp(L_SLT, x, bvc(0, w), ng)) return 0;
            if (!isFalse(ng)) {
                bool ok;
                neg = evalBool(s.model, ng, ok);
                if (!ok) return 0;
                Ex mine = neg ? ng : exNot(ng), other = exNot(mine);
                ModelP m;
                if (check(s, other, &m) == SAT) {
                    State* n = cloneState(s);
                    constrain(*n, other, m);
                    push(n);
                    addPC(s, mine);
                }
            }
        }
    }
    Lin Z = neg ? linScale(X, -1) : X, Q;
    if (!linFloorDiv(s, Z, c, Q)) return 0;
    if (rem) {
        Lin M = linAdd(Z, linScale(Q, c), -1);
        if (!M.ok) return 0;
        // the remainder is in [0, c-1] although its terms do not show it
        Lin N = M; N.lo = 0; N.hi = c - 1;
        if (M.lo < 0 || M.hi > c - 1) {
            unsigned W = rnd8(ubits(c - 1));
            if (W < w) {
                Ex t = linBuild(M, W);
                symBound[t.id()] = {0, c - 1};
                if (!linMemo.count(t.id())) linMemo.emplace(t.id(), std::make_pair(t, linTerm(t, false, 0, c - 1)));
                N = linTerm(t, false, 0, c - 1);
            } else N = M;
        }
        r = Val::sym(linToW(neg ? linScale(N, -1) : N, w), w);
        return 1;
    }
    if (neg != nd) Q = linScale(Q, -1);
    r = Val::sym(linToW(Q, w), w);
    return 1;
}
static bool binop(State& s, unsigned op, const Val& a, const Val& b, Val& r) {
    if (a.isAgg()) {
        std::vector<Val> v(a.agg->size());
        for (size_t i = 0; i < v.size(); i++) if (!binop(s, op, (*a.agg)[i], (*b.agg)[i], v[i])) return false;
        r = Val::aggv(v);
        return true;
    }
    unsigned w = a.w;
    bool wide = w > 64;
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
        if (b.isC()) { if (b.c == 0) { fatalPath(s, "div-by-zero", "integer division by zero"); return false; } }
        else if (!mustHold(s, exNot(exEq(b.bv(), bvc(0, w))), "div-by-zero", "integer division by zero")) return false;
        if ((op == Instruction::SDiv || op == Instruction::SRem) && w >= 32) {
            uint64_t mn = 1ull << (w - 1);
            if (a.isC() && b.isC()) { if (a.c == mn && b.c == maskw(w)) { fatalPath(s, "div-overflow", "signed division overflow"); return false; } }
            else if (!(b.isC() && b.c != maskw(w)) && !(a.isC() && a.c != mn)) {
                Ex bad = exAnd(exEq(a.bv(), bvc(mn, w)), exEq(b.bv(), bvc(maskw(w), w)));
                if (!mustHold(s, exNot(bad), "div-overflow", "signed division overflow")) return false;
            }
        }
    }
    if (a.isC() && b.isC() && !wide) {
        uint64_t x = a.c, y = b.c, z = 0;
        switch (op) {
            case Instruction::Add: z = x + y; break;
            case Instruction::Sub: z = x - y; break;
            case Instruction::Mul: z = x * y; break;
            case Instruction::UDiv: z = x / y; break;
            case Instruction::URem: z = x % y; break;
            case Instruction::SDiv: z = (uint64_t)(a.sc() / b.sc()); break;
            case Instruction::SRem: z = (uint64_t)(a.sc() % b.sc()); break;
            case Instruction::Shl: z = y >= w ? 0 : x << y; break;
            case Instruction::LShr: z = y >= w ? 0 : x >> y; break;
            case Instruction::AShr: z = y >= w ? (a.sc() < 0 ? ~0ull : 0) : (uint64_t)(a.sc() >> y); break;
            case Instruction::And: z = x & y; break;
            case Instruction::Or: z = x | y; break;
            case Instruction::Xor: z = x ^ y; break;
            default: unsupported(s, "binop"); return false;
        }
        r = Val::conc(z, w);
        return true;
    }
    if (w == 1) {
        Ex x = a.boolean(), y = b.boolean();
        switch (op) {
            case Instruction::And: r = Val::sym(exAnd(x, y), 1); return true;
            case Instruction::Or: r = Val::sym(exOr(x, y), 1); return true;
            case Instruction::Add: case Instruction::Sub:
            case Instruction::Xor:
                if (isTrue(y)) r = Val::sym(exNot(x), 1);
                else if (isTrue(x)) r = Val::sym(exNot(y), 1);
                else if (isFalse(y)) r = a;
                else if (isFalse(x)) r = b;
                else r = Val::sym(Ex(Z3_mk_xor(C, x.a, y.a)), 1);
                return true;
            case Instruction::Mul: r = Val::sym(exAnd(x, y), 1); return true;
            default: unsupported(s, "i1 op"); return false;
        }
    }
    bool bc = b.isC(), ac = a.isC();
    uint64_t full = maskw(w);
    // identities
    switch (op) {
        case Instruction::Add: case Instruction::Or: case Instruction::Xor:
            if (bc && b.c == 0) { r = a; return true; }
            if (ac && a.c == 0) { r = b; return true; }
            if (op == Instruction::Or && !wide && ((bc && b.c == full) || (ac && a.c == full))) { r = Val::conc(full, w); return true; }
            break;
        case Instruction::Sub: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            if (bc && b.c == 0) { r = a; return true; }
            if (op == Instruction::Sub && !ac && !bc && a.e.a == b.e.a) { r = Val::conc(0, w); return true; }
            break;
        case Instruction::And:
            if ((bc && b.c == 0) || (ac && a.c == 0)) { r = Val::conc(0, w); return true; }
            if (!wide && bc && b.c == full) { r = a; return true; }
            if (!wide && ac && a.c == full) { r = b; return true; }
            // low mask
            if (!wide && bc && isPow2(b.c + 1)) {
                unsigned k = __builtin_popcountll(b.c);
                r = zextV(truncV(a, k), w);
                return true;
            }
            break;
        case Instruction::Mul:
            if ((bc && b.c == 0) || (ac && a.c == 0)) { r = Val::conc(0, w); return true; }
            if (bc && b.c == 1) { r = a; return true; }
            if (ac && a.c == 1) { r = b; return true; }
            break;
        case Instruction::UDiv:
            if (bc && b.c == 1) { r = a; return true; }
            if (bc && isPow2(b.c) && !wide) {
                unsigned k = __builtin_ctzll(b.c);
                r = zextV(Val::sym(exExtract(w - 1, k, a.bv()), w - k), w);
                return true;
            }
            break;
        case Instruction::URem:
            if (bc && b.c == 1) { r = Val::conc(0, w); return true; }
            if (bc && isPow2(b.c) && !wide) {
                unsigned k = __builtin_ctzll(b.c);
                r = zextV(truncV(a, k), w);
                return true;
            }
            break;
        default: break;
    }
    if (bc && !wide && w >= 16 && !O.noLin && (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem)) {
        int k = divByConst(s, op, a.bv(), w, b.c, r);
        if (k) return k > 0;
    }
    Ex x = a.bv(), y = b.bv();
    // constant shifts as extract/concat
    if (bc && b.c < w) {
        unsigned k = b.c;
        if (op == Instruction::LShr) { r = Val::sym(exZext(exExtract(w - 1, k, x), w), w); return true; }
        if (op == Instruction::AShr) { r = Val::sym(exSext(exExtract(w - 1, k, x), w), w); return true; }
        if (op == Instruction::Shl) { r = Val::sym(exConcat(exExtract(w - 1 - k, 0, x), bvc(0, k)), w); return true; }
    }
    // or of disjoint zext/shl is common when assembling bytes: let z3 simplify it
    switch (op) {
        case Instruction::Add: r = Val::sym(linNarrow(Ex(Z3_mk_bvadd(C, x.a, y.a))), w); break;
        case Instruction::Sub: r = Val::sym(linNarrow(Ex(Z3_mk_bvsub(C, x.a, y.a))), w); break;
        case Instruction::Mul: r = Val::sym(linNarrow(Ex(Z3_mk_bvmul(C, x.a, y.a))), w); break;
        case Instruction::UDiv: r = symOf(Z3_mk_bvudiv(C, x.a, y.a), w); break;
        case Instruction::URem: r = symOf(Z3_mk_bvurem(C, x.a, y.a), w); break;
        case Instruction::SDiv: r = symOf(Z3_mk_bvsdiv(C, x.a, y.a), w); break;
        case Instruction::SRem: r = symOf(Z3_mk_bvsrem(C, x.a, y.a), w); break;
        case Instruction::Shl: r = symOf(Z3_mk_bvshl(C, x.a, y.a), w); break;
        case Instruction::LShr: r = symOf(Z3_mk_bvlshr(C, x.a, y.a), w); break;
        case Instruction::AShr: r = symOf(Z3_mk_bvashr(C, x.a, y.a), w); break;
        case Instruction::And: r = symOf(Z3_mk_bvand(C, x.a, y.a), w); break;
        case Instruction::Or: r = Val::sym(exSimplify(Ex(Z3_mk_bvor(C, x.a, y.a))), w); break;
        case Instruction::Xor: r = symOf(Z3_mk_bvxor(C, x.a, y.a), w); break;
        default: unsupported(s, "binop"); return false;
    }
    return true;
}
static float asF(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
static double asD(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static Val fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return Val::conc(x, 32); }
static Val fromD(double f) { uint64_t x; memcpy(&x, &f, 8); return Val::conc(x, 64); }
extern Z3_sort fpSort(unsigned w);
static Z3_sort fps(unsigned w) { return fpSort(w); }
static Ex rne() { static Ex* r = nullptr; if (!r) r = new Ex(Z3_mk_fpa_rne(C)); return *r; }
static Ex rtz() { static Ex* r = nullptr; if (!r) r = new Ex(Z3_mk_fpa_rtz(C)); return *r; }
static bool fbinop(State& s, unsigned op, const Val& a, const Val& b, Val& r) {
    if (a.isAgg()) {
        std::vector<Val> v(a.agg->size());
        for (size_t i = 0; i < v.size(); i++) if (!fbinop(s, op, (*a.agg)[i], (*b.agg)[i], v[i])) return false;
        r = Val::aggv(v);
        return true;
    }
    if (a.isC() && b.isC()) {
        if (a.w == 32) {
            float x = asF(a.c), y = asF(b.c), z = 0;
            switch (op) {
                case Instruction::FAdd: z = x + y; break;
                case Instruction::FSub: z = x - y; break;
                case Instruction::FMul: z = x * y; break;
                case Instruction::FDiv: z = x / y; break;
                case Instruction::FRem: z = fmodf(x, y); break;
            }
            r = fromF(z);
        } else {
            double x = asD(a.c), y = asD(b.c), z = 0;
            switch (op) {
                case Instruction::FAdd: z = x + y; break;
                case Instruction::FSub: z = x - y; break;
                case Instruction::FMul: z = x * y; break;
                case Instruction::FDiv: z = x / y; break;
                case Instruction::FRem: z = fmod(x, y); break;
            }
            r = fromD(z);
        }
        return true;
    }
    Ex x = a.fp(), y = b.fp();
    switch (op) {
        case Instruction::FAdd: r = symOf(Z3_mk_fpa_add(C, rne().a, x.a, y.a), a.w); break;
        case Instruction::FSub: r = symOf(Z3_mk_fpa_sub(C, rne().a, x.a, y.a), a.w); break;
        case Instruction::FMul: r = symOf(Z3_mk_fpa_mul(C, rne().a, x.a, y.a), a.w); break;
        case Instruction::FDiv: r = symOf(Z3_mk_fpa_div(C, rne().a, x.a, y.a), a.w); break;
        default: unsupported(s, "frem"); return false;
    }
    return true;
}
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.isAgg()) {
        std::vector<Val> v;
        for (size_t i = 0; i < a.agg->size(); i++) v.push_back(icmp(p, (*a.agg)[i], (*b.agg)[i]));
        return Val::aggv(v);
    }
    if (a.isC() && b.isC()) {
        bool r = false;
        switch (p) {
            case CmpInst::ICMP_EQ: r = a.c == b.c; break;
            case CmpInst::ICMP_NE: r = a.c != b.c; break;
            case CmpInst::ICMP_UGT: r = a.c > b.c; break;
            case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
            case CmpInst::ICMP_ULT: r = a.c < b.c; break;
            case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
            case CmpInst::ICMP_SGT: r = a.sc() > b.sc(); break;
            case CmpInst::ICMP_SGE: r = a.sc() >= b.sc(); break;
            case CmpInst::ICMP_SLT: r = a.sc() < b.sc(); break;
            case CmpInst::ICMP_SLE: r = a.sc() <= b.sc(); break;
            default: break;
        }
        return Val::conc(r, 1);
    }
    if (a.w == 1) {
        Ex x = a.boolean(), y = b.boolean();
        if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
            Ex e = isTrue(y) ? x : isFalse(y) ? exNot(x) : isTrue(x) ? y : isFalse(x) ? exNot(y) : Ex(Z3_mk_iff(C, x.a, y.a));
            return Val::sym(p == CmpInst::ICMP_EQ ? e : exNot(e), 1);
        }
    }
    Ex x = a.bv(), y = b.bv();
    Ex e;
    if (!O.noLin) {
        bool ok = false;
        switch (p) {
            case CmpInst::ICMP_EQ: ok = linCmp(L_EQ, x, y, e); break;
            case CmpInst::ICMP_NE: ok = linCmp(L_EQ, x, y, e); if (ok) e = exNot(e); break;
            case CmpInst::ICMP_UGT: ok = linCmp(L_ULT, y, x, e); break;
            case CmpInst::ICMP_UGE: ok = linCmp(L_ULE, y, x, e); break;
            case CmpInst::ICMP_ULT: ok = linCmp(L_ULT, x, y, e); break;
            case CmpInst::ICMP_ULE: ok = linCmp(L_ULE, x, y, e); break;
            case CmpInst::ICMP_SGT: ok = linCmp(L_SLT, y, x, e); break;
            case CmpInst::ICMP_SGE: ok = linCmp(L_SLE, y, x, e); break;
            case CmpInst::ICMP_SLT: ok = linCmp(L_SLT, x, y, e); break;
            default: ok = linCmp(L_SLE, x, y, e); break;
        }
        if (ok) return Val::sym(exSimplify(e), 1);
        e = Ex();
    }
    switch (p) {
        case CmpInst::ICMP_EQ: e = exEq(x, y); break;
        case CmpInst::ICMP_NE: e = exNot(exEq(x, y)); break;
        case CmpInst::ICMP_UGT: e = Ex(Z3_mk_bvugt(C, x.a, y.a)); break;
        case CmpInst::ICMP_UGE: e = Ex(Z3_mk_bvuge(C, x.a, y.a)); break;
        case CmpInst::ICMP_ULT: e = Ex(Z3_mk_bvult(C, x.a, y.a)); break;
        case CmpInst::ICMP_ULE: e = Ex(Z3_mk_bvule(C, x.a, y.a)); break;
        case CmpInst::ICMP_SGT: e = Ex(Z3_mk_bvsgt(C, x.a, y.a)); break;
        case CmpInst::ICMP_SGE: e = Ex(Z3_mk_bvsge(C, x.a, y.a)); break;
        case CmpInst::ICMP_SLT: e = Ex(Z3_mk_bvslt(C, x.a, y.a)); break;
        default: e = Ex(Z3_mk_bvsle(C, x.a, y.a)); break;
    }
    return Val::sym(exSimplify(e), 1);
}
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.isAgg()) {
        std::vector<Val> v;
        for (size_t i = 0; i < a.agg->size(); i++) v.push_back(fcmp(p, (*a.agg)[i], (*b.agg)[i]));
        return Val::aggv(v);
    }
    if (p == CmpInst::FCMP_TRUE) return Val::conc(1, 1);
    if (p == CmpInst::FCMP_FALSE) return Val::conc(0, 1);
    if (a.isC() && b.isC()) {
        double x = a.w == 32 ? asF(a.c) : asD(a.c), y = b.w == 32 ? asF(b.c) : asD(b.c);
        bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (p) {
            case CmpInst::FCMP_OEQ: r = !un && x == y; break;
            case CmpInst::FCMP_OGT: r = !un && x > y; break;
            case CmpInst::FCMP_OGE: r = !un && x >= y; break;
            case CmpInst::FCMP_OLT: r = !un && x < y; break;
            case CmpInst::FCMP_OLE: r = !un && x <= y; break;
            case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break;
            case CmpInst::FCMP_UGE: r = un || x >= y; break;
            case CmpInst::FCMP_ULT: r = un || x < y; break;
            case CmpInst::FCMP_ULE: r = un || x <= y; break;
            case CmpInst::FCMP_UNE: r = un || x != y; break;
            default: break;
        }
        return Val::conc(r, 1);
    }
    Ex x = a.fp(), y = b.fp();
    Ex un = exOr(Ex(Z3_mk_fpa_is_nan(C, x.a)), Ex(Z3_mk_fpa_is_nan(C, y.a)));
    Ex e;
    switch (p) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: e = Ex(Z3_mk_fpa_eq(C, x.a, y.a)); break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: e = Ex(Z3_mk_fpa_gt(C, x.a, y.a)); break;
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: e = Ex(Z3_mk_fpa_geq(C, x.a, y.a)); break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: e = Ex(Z3_mk_fpa_lt(C, x.a, y.a)); break;
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: e = Ex(Z3_mk_fpa_leq(C, x.a, y.a)); break;
        default: break;
    }
    switch (p) {
        case CmpInst::FCMP_ORD: e = exNot(un); break;
        case CmpInst::FCMP_UNO: e = un; break;
        case CmpInst::FCMP_ONE: e = exAnd(exNot(un), exNot(e)); break;
        case CmpInst::FCMP_UNE: e = exNot(e); break;     // fp.eq is false on NaN
        case CmpInst::FCMP_UEQ: case CmpInst::FCMP_UGT: case CmpInst::FCMP_UGE: case CmpInst::FCMP_ULT: case CmpInst::FCMP_ULE: e = exOr(un, e); break;
        default: break;
    }
    return Val::sym(exSimplify(e), 1);
}
// x86 cvttss2si semantics: out of range gives the minimum integer of the conversion width
static bool castop(State& s, unsigned op, const Val& a, Type* from, Type* to, Val& r) {
    if (a.isAgg() && op == Instruction::BitCast) {
        if (to->isVectorTy() && cast<FixedVectorType>(to)->getNumElements() == a.agg->size()) { r = a; return true; }
        unsupported(s, "vector bitcast");
        return false;
    }
    if (a.isAgg()) {
        std::vector<Val> v(a.agg->size());
        for (size_t i = 0; i < v.size(); i++) if (!castop(s, op, (*a.agg)[i], from->getScalarType(), to->getScalarType(), v[i])) return false;
        r = Val::aggv(v);
        return true;
    }
    if (op == Instruction::BitCast && to->isVectorTy()) { unsupported(s, "bitcast to vector"); return false; }
    unsigned w = bitsOf(to);
    switch (op) {
        case Instruction::Trunc: r = truncV(a, w); return true;
        case Instruction::ZExt: r = zextV(a, w); return true;
        case Instruction::SExt: r = sextV(a, w); return true;
        case Instruction::PtrToInt: case Instruction::IntToPtr: r = truncV(a, w); return true;
        case Instruction::BitCast: r = a; return true;
        case Instruction::FPExt: case Instruction::FPTrunc:
            if (a.isC()) { r = a.w == 32 && w == 64 ? fromD((double)asF(a.c)) : a.w == 64 && w == 32 ? fromF((float)asD(a.c)) : a; return true; }
            r = symOf(Z3_mk_fpa_to_fp_float(C, rne().a, a.fp().a, fps(w)), w);
            return true;
        case Instruction::SIToFP:
            if (a.isC()) { r = w == 32 ? fromF((float)a.sc()) : fromD((double)a.sc()); return true; }
            r = symOf(Z3_mk_fpa_to_fp_signed(C, rne().a, a.bv().a, fps(w)), w);
            return true;
        case Instruction::UIToFP:
            if (a.isC()) { r = w == 32 ? fromF((float)a.c) : fromD((double)a.c); return true; }
            r = symOf(Z3_mk_fpa_to_fp_unsigned(C, rne().a, a.bv().a, fps(w)), w);
            return true;
        case Instruction::FPToSI: case Instruction::FPToUI: {
            unsigned cw = w <= 32 && op == Instruction::FPToSI ? 32 : 64;
            uint64_t mn = 1ull << (cw - 1);
            if (a.isC()) {
                double x = a.w == 32 ? asF(a.c) : asD(a.c);
                uint64_t v;
                if (op == Instruction::FPToUI && w == 64) v = x >= 9223372036854775808.0 ? (x < 18446744073709551616.0 ? (uint64_t)x : mn) : (x > -9223372036854775809.0 ? (uint64_t)(int64_t)x : mn);
                else if (cw == 32) v = (x > -2147483649.0 && x < 2147483648.0) ? (uint64_t)(int64_t)(int32_t)x : mn;
                else v = (x >= -9223372036854775808.0 && x < 9223372036854775808.0) ? (uint64_t)(int64_t)x : mn;
                r = Val::conc(v, w);
                return true;
            }
            Ex x = a.fp();
            if (op == Instruction::FPToUI && w == 64) {
                r = symOf(Z3_mk_fpa_to_ubv(C, rtz().a, x.a, 64), 64);
                return true;
            }
            Ex lo = a.w == 32 ? Ex(Z3_mk_fpa_numeral_float(C, cw == 32 ? -2147483648.0f : -9223372036854775808.0f, fps(32)))
                              : Ex(Z3_mk_fpa_numeral_double(C, cw == 32 ? -2147483648.0 : -9223372036854775808.0, fps(64)));
            Ex hi = a.w == 32 ? Ex(Z3_mk_fpa_numeral_float(C, cw == 32 ? 2147483648.0f : 9223372036854775808.0f, fps(32)))
                              : Ex(Z3_mk_fpa_numeral_double(C, cw == 32 ? 2147483648.0 : 9223372036854775808.0, fps(64)));
            Ex in = exAnd(Ex(Z3_mk_fpa_geq(C, x.a, lo.a)), Ex(Z3_mk_fpa_lt(C, x.a, hi.a)));
            Ex v(Z3_mk_fpa_to_sbv(C, rtz().a, x.a, cw));
            Ex e = exIte(in, v, bvc(mn, cw));
            r = truncV(Val::sym(e, cw), w);
            return true;
        }
    }
    unsupported(s, "cast");
    return false;
}
