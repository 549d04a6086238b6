// ---------------------------------------------------------------- calls
static void reg(const std::string& names, std::function<void(CallCtx&)> f) {
    Handler* h = new Handler{f};
    size_t i = 0;
    while (i < names.size()) {
        size_t j = names.find(' ', i);
        if (j == std::string::npos) j = names.size();
        handlers[names.substr(i, j - i)] = h;
        i = j + 1;
    }
}
static std::vector<std::pair<std::string, Handler*>> prefixHandlers;
static Handler* findHandler(Function* F) {
    std::string n = F->getName().str();
    auto it = handlers.find(n);
    if (it != handlers.end()) {
        // harness definitions override library models, not symx_*/allocation primitives
        if (!F->isDeclaration() && n.compare(0, 5, "symx_") != 0) return nullptr;
        return it->second;
    }
    if (F->isDeclaration()) for (auto& p : prefixHandlers) if (n.compare(0, p.first.size(), p.first) == 0) return p.second;
    return nullptr;
}
static Val vzero(Type* t) {
    if (t->isVoidTy()) return Val();
    return Val::conc(0, bitsOf(t));
}
static Val minmax(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.isAgg()) {
        std::vector<Val> r;
        for (size_t i = 0; i < a.agg->size(); i++) r.push_back(minmax(p, (*a.agg)[i], (*b.agg)[i]));
        return Val::aggv(r);
    }
    Val c = icmp(p, a, b);
    if (c.isC()) return c.c ? a : b;
    return iteVal(c.boolean(), a, b);
}
static Val bswapV(const Val& a) {
    unsigned n = a.w / 8;
    if (a.isC()) {
        uint64_t r = 0;
        for (unsigned i = 0; i < n; i++) r |= ((a.c >> (8 * i)) & 0xff) << (8 * (n - 1 - i));
        return Val::conc(r, a.w);
    }
    Ex e = a.bv(), acc;
    for (unsigned i = 0; i < n; i++) {
        Ex b = exExtract(8 * i + 7, 8 * i, e);
        acc = acc ? exConcat(acc, b) : b;
    }
    return Val::sym(acc, a.w);
}
static Val ovf(const Ex& e) { return Val::sym(exSimplify(e), 1); }
static bool execIntrinsic(State& s, Frame& f, InstInfo& ii, Intrinsic::ID id, std::vector<Val>& a) {
    auto set = [&](const Val& v) { completeCall(s, &v); };
    auto nop = [&]() { completeCall(s, nullptr); };
    switch (id) {
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove:
            if (!memCopy(s, a[0], a[1], a[2])) return true;
            nop(); return true;
        case Intrinsic::memset: case Intrinsic::memset_inline:
            if (!memSet(s, a[0], a[1], a[2])) return true;
            nop(); return true;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::prefetch:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::donothing:
        case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::vaend: case Intrinsic::vacopy:
            nop(); return true;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: set(Val::conc(0, 64)); return true;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
            set(a[0]); return true;
        case Intrinsic::is_constant: set(Val::conc(0, 1)); return true;
        case Intrinsic::objectsize: set(Val::conc(~0ull, ii.w)); return true;
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fatalPath(s, "trap", "trap executed"); return true;
        case Intrinsic::eh_typeid_for: set(Val::conc(a[0].c ? addrId(a[0].c) : 1, 32)); return true;
        case Intrinsic::smax: case Intrinsic::smin:
            if (s.thr.size() > 1 && a[0].w == 64 && !a[0].isAgg()) {   // see Select
                Val x = a[0], y = a[1], k = icmp(id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT, x, y);
                if (!k.isC()) { branchOn(s, k.boolean(), [x, y](State& n, bool v) { completeCall(n, v ? &x : &y); }); return true; }
            }
            set(minmax(id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT, a[0], a[1])); return true;
        case Intrinsic::umax: set(minmax(CmpInst::ICMP_UGT, a[0], a[1])); return true;
        case Intrinsic::umin: set(minmax(CmpInst::ICMP_ULT, a[0], a[1])); return true;
        case Intrinsic::abs: {
            Val n;
            binop(s, Instruction::Sub, Val::conc(0, a[0].w), a[0], n);
            Val c = icmp(CmpInst::ICMP_SLT, a[0], Val::conc(0, a[0].w));
            set(c.isC() ? (c.c ? n : a[0]) : iteVal(c.boolean(), n, a[0]));
            return true;
        }
        case Intrinsic::bswap: set(bswapV(a[0])); return true;
        case Intrinsic::bitreverse: {
            unsigned w = a[0].w;
            if (a[0].isC()) { uint64_t r = 0; for (unsigned i = 0; i < w; i++) if (a[0].c >> i & 1) r |= 1ull << (w - 1 - i); set(Val::conc(r, w)); return true; }
            Ex acc, e = a[0].bv();
            for (unsigned i = 0; i < w; i++) { Ex b = exExtract(i, i, e); acc = acc ? exConcat(acc, b) : b; }
            set(Val::sym(acc, w)); return true;
        }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            unsigned w = a[0].w;
            if (a[0].isC()) {
                uint64_t v = a[0].c, r;
                if (id == Intrinsic::ctpop) r = __builtin_popcountll(v);
                else if (id == Intrinsic::ctlz) r = v ? __builtin_clzll(v) - (64 - w) : w;
                else r = v ? __builtin_ctzll(v) : w;
                set(Val::conc(r, w));
                return true;
            }
            Ex e = a[0].bv(), r;
            if (id == Intrinsic::ctpop) {
                r = bvc(0, w);
                for (unsigned i = 0; i < w; i++) r = Ex(Z3_mk_bvadd(C, r.a, exZext(exExtract(i, i, e), w).a));
            } else {
                r = bvc(w, w);
                for (unsigned k = 0; k < w; k++) {
                    unsigned i = id == Intrinsic::ctlz ? k : w - 1 - k;
                    unsigned res = id == Intrinsic::ctlz ? w - 1 - k : i;
                    r = exIte(exEq(exExtract(i, i, e), bvc(1, 1)), bvc(res, w), r);
                }
            }
            set(Val::sym(r, w));
            return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            unsigned w = a[0].w;
            if (!a[2].isC()) {
                // rotate by symbolic amount
                Ex sh(Z3_mk_bvurem(C, a[2].bv().a, bvc(w, w).a));
                Ex cat = exConcat(a[0].bv(), a[1].bv());
                Ex shw = exZext(sh, 2 * w);
                Ex r = id == Intrinsic::fshl ? exExtract(2 * w - 1, w, Ex(Z3_mk_bvshl(C, cat.a, shw.a))) : exExtract(w - 1, 0, Ex(Z3_mk_bvlshr(C, cat.a, shw.a)));
                set(Val::sym(r, w));
                return true;
            }
            unsigned k = a[2].c % w;
            Val hi, lo, r;
            if (k == 0) { set(id == Intrinsic::fshl ? a[0] : a[1]); return true; }
            unsigned l = id == Intrinsic::fshl ? k : w - k;
            binop(s, Instruction::Shl, a[0], Val::conc(l, w), hi);
            binop(s, Instruction::LShr, a[1], Val::conc(w - l, w), lo);
            binop(s, Instruction::Or, hi, lo, r);
            set(r);
            return true;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned w = a[0].w;
            unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add
                        : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            Val r;
            if (!binop(s, op, a[0], a[1], r)) return true;
            if (a[0].isC() && a[1].isC()) {
                bool o;
                if (sg) {
                    __int128 x = a[0].sc(), y = a[1].sc(), z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
                    o = z != (__int128)r.sc();
                } else {
                    unsigned __int128 x = a[0].c, y = a[1].c;
                    if (op == Instruction::Sub) o = x < y;
                    else { unsigned __int128 z = op == Instruction::Add ? x + y : x * y; o = z != (unsigned __int128)r.c; }
                }
                set(Val::aggv({r, Val::conc(o, 1)}));
                return true;
            }
            Ex x = a[0].bv(), y = a[1].bv();
            // exact in double width
            unsigned W = op == Instruction::Mul ? 2 * w : w + 1;
            Ex xe = sg ? exSext(x, W) : exZext(x, W), ye = sg ? exSext(y, W) : exZext(y, W);
            Ex z = Ex(op == Instruction::Add ? Z3_mk_bvadd(C, xe.a, ye.a) : op == Instruction::Sub ? Z3_mk_bvsub(C, xe.a, ye.a) : Z3_mk_bvmul(C, xe.a, ye.a));
            Ex re = sg ? exSext(r.bv(), W) : exZext(r.bv(), W);
            set(Val::aggv({r, ovf(exNot(exEq(z, re)))}));
            return true;
        }
        case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
            Val r;
            binop(s, id == Intrinsic::uadd_sat ? Instruction::Add : Instruction::Sub, a[0], a[1], r);
            Val o = id == Intrinsic::uadd_sat ? icmp(CmpInst::ICMP_ULT, r, a[0]) : icmp(CmpInst::ICMP_ULT, a[0], a[1]);
            Val sat = Val::conc(id == Intrinsic::uadd_sat ? ~0ull : 0, a[0].w);
            set(o.isC() ? (o.c ? sat : r) : iteVal(o.boolean(), sat, r));
            return true;
        }
        case Intrinsic::fabs:
            if (a[0].isC()) set(Val::conc(a[0].c & ~(1ull << (a[0].w - 1)), a[0].w));
            else set(Val::sym(Ex(Z3_mk_fpa_abs(C, a[0].fp().a)), a[0].w));
            return true;
        case Intrinsic::fmuladd: case Intrinsic::fma: {
            Val m, r;
            fbinop(s, Instruction::FMul, a[0], a[1], m);
            fbinop(s, Instruction::FAdd, m, a[2], r);
            set(r);
            return true;
        }
        case Intrinsic::sqrt:
            if (a[0].isC()) set(a[0].w == 32 ? fromF(sqrtf(asF(a[0].c))) : fromD(sqrt(asD(a[0].c))));
            else set(Val::sym(Ex(Z3_mk_fpa_sqrt(C, rne().a, a[0].fp().a)), a[0].w));
            return true;
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: {
            if (a[0].isC()) {
                double x = a[0].w == 32 ? asF(a[0].c) : asD(a[0].c);
                double y = id == Intrinsic::floor ? floor(x) : id == Intrinsic::ceil ? ceil(x) : id == Intrinsic::trunc ? trunc(x) : id == Intrinsic::round ? round(x) : rint(x);
                set(a[0].w == 32 ? fromF((float)y) : fromD(y));
                return true;
            }
            Ex rm(id == Intrinsic::floor ? Z3_mk_fpa_rtn(C) : id == Intrinsic::ceil ? Z3_mk_fpa_rtp(C) : id == Intrinsic::trunc ? Z3_mk_fpa_rtz(C) : id == Intrinsic::round ? Z3_mk_fpa_rna(C) : Z3_mk_fpa_rne(C));
            set(Val::sym(Ex(Z3_mk_fpa_round_to_integral(C, rm.a, a[0].fp().a)), a[0].w));
            return true;
        }
        case Intrinsic::maxnum: case Intrinsic::minnum: {
            Val c = fcmp(id == Intrinsic::maxnum ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a[0], a[1]);
            set(c.isC() ? (c.c ? a[0] : a[1]) : iteVal(c.boolean(), a[0], a[1]));
            return true;
        }
        case Intrinsic::vastart: nop(); return true;
        default: return false;
    }
}
static void execCall(State& s, Frame& f, InstInfo& ii) {
    auto* cb = cast<CallBase>(ii.I);
    Function* F = ii.callee;
    unsigned n = cb->arg_size();
    std::vector<Val> a(n);
    for (unsigned i = 0; i < n; i++) a[i] = getOp(s, f, ii, i);
    Handler* h = ii.h;
    if (!F) {
        if (cb->isInlineAsm()) {
            if (ii.dst < 0) { completeCall(s, nullptr); return; }
            unsupported(s, "inline asm");
            return;
        }
        Val fp = getOp(s, f, ii, n);
        uint64_t fa;
        if (!concretize(s, fp, fa)) return;
        auto it = addrFn.find(fa);
        if (it == addrFn.end()) { fatalPath(s, "bad-call", fa == 0 ? "call through null pointer" : "call through an invalid function pointer"); return; }
        F = it->second;
        h = findHandler(F);
    }
    if (F->isIntrinsic()) {
        if (execIntrinsic(s, f, ii, F->getIntrinsicID(), a)) return;
        unsupported(s, "intrinsic " + F->getName().str());
        return;
    }
    if (h) {
        CallCtx c{s, &ii, cb, a};
        h->f(c);
        if (s.done || c.again || c.jumped) return;
        if (!c.hasRet && !cb->getType()->isVoidTy()) c.set(vzero(cb->getType()));
        completeCall(s, c.hasRet && !cb->getType()->isVoidTy() ? &c.ret : nullptr);
        return;
    }
    if (F->isDeclaration()) { unsupported(s, "call to unmodelled external " + F->getName().str() + " (" + demangle(F->getName().str()).substr(0, 120) + ")"); return; }
    if (s.T().st.size() > 400) { fatalPath(s, "stack-overflow", "recursion deeper than the bound"); return; }
    // byval arguments are copied
    for (unsigned i = 0; i < n && i < F->arg_size(); i++) {
        if (cb->isByValArgument(i)) {
            uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
            uint64_t t = allocObj(s, sz, OK_STACK, "byval");
            if (!memCopy(s, Val::conc(t, 64), a[i], Val::conc(sz, 64))) return;
            a[i] = Val::conc(t, 64);
        }
    }
    pushFrame(s, F, a);
}

// ---------------------------------------------------------------- library models
static bool cstr(CallCtx& c, unsigned i, std::string& out) {
    uint64_t p;
    if (!concretize(c.s, c.a[i], p)) return false;
    return readCStr(c.s, p, out);
}
static void addInput(State& s, int sym, int n, const std::string& name) { s.inputs.push_back({sym, n, name}); }
static Val newSym(State& s, const std::string& name, unsigned w) {
    int y = freshSym(s, name, w);
    addInput(s, y, 1, name);
    return Val::sym(syms[y].e, w);
}
static void doAlloc(CallCtx& c, const Val& n, bool arr, bool mal, uint8_t def) {
    State& s = c.s;
    uint64_t sz;
    Ex symSz;
    if (n.isC()) sz = n.c;
    else {
        uint64_t hi;
        if (!maxOf(s, n, hi, 1ull << 31)) {
            // negative or absurd sizes: operator new throws / aborts
            Ex big(Z3_mk_bvugt(C, n.bv().a, bvc(1ull << 31, 64).a));
            ModelP m;
            if (check(s, big, &m) == SAT) { report(s, "huge-alloc", "allocation of more than 2 GiB requested", m); }
            if (!assumeC(s, exNot(big))) { c.again = true; return; }
            if (!maxOf(s, n, hi, 1ull << 31)) { unsupported(s, "allocation size"); return; }
        }
        sz = hi;
        symSz = n.bv();
    }
    if (sz > (1ull << 31)) { fatalPath(s, "huge-alloc", "allocation of more than 2 GiB requested"); return; }
    uint64_t p = allocObj(s, sz, OK_HEAP, "heap", def);
    Object* o = s.mem.getW(addrId(p));
    o->isNewArr = arr; o->isMalloc = mal; o->symSize = symSz;
    c.set(Val::conc(p, 64));
}
static void throwH(CallCtx& c, const char* ti) { c.jumped = true; throwStd(c.s, ti); }
static void visibleOp(CallCtx& c, std::function<void()> f) { if (visible(c)) f(); }

static void setupHandlers() {
    // ---- harness API
    reg("symx_u64", [](CallCtx& c) { std::string n; if (!cstr(c, 0, n)) return; c.set(newSym(c.s, n, 64)); });
    reg("symx_u32", [](CallCtx& c) { std::string n; if (!cstr(c, 0, n)) return; c.set(newSym(c.s, n, 32)); });
    reg("symx_u16", [](CallCtx& c) { std::string n; if (!cstr(c, 0, n)) return; c.set(newSym(c.s, n, 16)); });
    reg("symx_u8", [](CallCtx& c) { std::string n; if (!cstr(c, 0, n)) return; c.set(newSym(c.s, n, 8)); });
    reg("symx_f32", [](CallCtx& c) { std::string n; if (!cstr(c, 0, n)) return; c.set(newSym(c.s, n, 32)); });
    reg("symx_f64", [](CallCtx& c) { std::string n; if (!cstr(c, 0, n)) return; c.set(newSym(c.s, n, 64)); });
    reg("symx_range", [](CallCtx& c) {
        std::string n; if (!cstr(c, 2, n)) return;
        State& s = c.s;
        int64_t lo = c.a[0].sc(), hi = c.a[1].sc();
        if (!c.a[0].isC() || !c.a[1].isC()) { unsupported(s, "symbolic range"); return; }
        if (hi < lo) { kill(s); return; }
        if (lo == hi) {                     // still an input, of one value
            Input in{-1, 1, n}; in.conc = (uint64_t)lo; s.inputs.push_back(in);
            c.set(Val::conc((uint64_t)lo, 64));
            return;
        }
        // narrow symbol, offset from lo when the range is not a plain small unsigned one
        i128 base = (lo >= 0 && hi < (1ll << 31)) ? 0 : lo, mx = (i128)hi - base, mn = (i128)lo - base;
        unsigned w = ubits(mx);
        w = w <= 8 ? 8 : w <= 16 ? 16 : w <= 32 ? 32 : 64;
        int y = freshSym(s, n + "[" + std::to_string(lo) + "," + std::to_string(hi) + "]", w);
        Ex e = syms[y].e;
        symBound[e.id()] = {mn, mx};
        addInput(s, y, 1, n);
        s.inputs.back().conc = (uint64_t)(int64_t)base;
        auto nm = std::make_shared<ModelBox>(); nm->a = s.model->a; nm->a[y] = (uint64_t)mn; s.model = nm;
        if (mn) addPC(s, exSimplify(Ex(Z3_mk_bvuge(C, e.a, bvc((uint64_t)mn, w).a))));
        if (mx < p2(w) - 1) addPC(s, exSimplify(Ex(Z3_mk_bvule(C, e.a, bvc((uint64_t)mx, w).a))));
        Ex z = exZext(e, 64);
        if (base) z = Ex(Z3_mk_bvadd(C, z.a, bvcS(base, 64).a));
        c.set(Val::sym(z, 64));
    });
    reg("symx_choose", [](CallCtx& c) {
        std::string n; if (!cstr(c, 2, n)) return;
        State& s = c.s;
        int64_t lo = c.a[0].sc(), hi = c.a[1].sc();
        if (!c.a[0].isC() || !c.a[1].isC()) { unsupported(s, "symbolic choose range"); return; }
        if (hi < lo) { kill(s); return; }
        int y = freshSym(s, n, 64);
        addInput(s, y, 1, n);
        for (int64_t v = hi; v >= lo; v--) {
            State* x = v > lo ? cloneState(s) : &s;
            auto nm = std::make_shared<ModelBox>(); nm->a = x->model->a; nm->a[y] = (uint64_t)v; x->model = nm;
            addPC(*x, exEq(syms[y].e, bvc((uint64_t)v, 64)));
            Val r = Val::conc((uint64_t)v, 64);
            if (v > lo) { completeCall(*x, &r); push(x); }
            else c.set(r);
        }
    });
    reg("symx_bytes", [](CallCtx& c) {
        std::string n; if (!cstr(c, 2, n)) return;
        uint64_t p, k;
        if (!concretize(c.s, c.a[0], p) || !concretize(c.s, c.a[1], k)) return;
        for (uint64_t i = 0; i < k; i++) {
            int y = freshSym(c.s, n, 8);
            addInput(c.s, y, 1, n);
            if (!writeMem(c.s, Val::conc(p + i, 64), Val::sym(syms[y].e, 8), 1)) return;
        }
    });
    reg("symx_assume", [](CallCtx& c) {
        Val v = icmp(CmpInst::ICMP_NE, c.a[0], Val::conc(0, c.a[0].w));
        if (v.isC()) { if (!v.c) { S.assumeKilled++; kill(c.s); } return; }
        assumeC(c.s, v.boolean());
    });
    reg("symx_assert_", [](CallCtx& c) {
        std::string m; if (!cstr(c, 1, m)) return;
        S.asserts++;
        Val v = icmp(CmpInst::ICMP_NE, c.a[0], Val::conc(0, c.a[0].w));
        if (v.isC()) { if (!v.c) fatalPath(c.s, "assert", m); return; }
        S.assertsSym++;
        mustHold(c.s, v.boolean(), "assert", m);
    });
    reg("symx_fail", [](CallCtx& c) { std::string m; if (!cstr(c, 0, m)) return; fatalPath(c.s, "assert", m); });
    reg("symx_reach", [](CallCtx& c) { std::string m; if (!cstr(c, 0, m)) return; c.s.reached.insert(m); reachedTags.insert(m); });
    reg("symx_observe", [](CallCtx& c) { c.s.observes.push_back({0, c.a[0]}); });
    reg("symx_concretize", [](CallCtx& c) { uint64_t v; if (!concretize(c.s, c.a[0], v)) return; c.set(Val::conc(v, 64)); });
    reg("symx_is_symbolic", [](CallCtx& c) { c.set(Val::conc(c.a[0].isS(), 32)); });
    reg("symx_case", [](CallCtx& c) { c.set(Val::conc(O.caseNo, 32)); });
    reg("symx_live_heap", [](CallCtx& c) { c.set(Val::conc(c.s.liveHeap, 64)); });
    reg("symx_obj_size", [](CallCtx& c) {
        uint64_t p; if (!concretize(c.s, c.a[0], p)) return;
        Object* o = c.s.mem.get(addrId(p));
        if (!o) { c.set(Val::conc(0, 64)); return; }
        c.set(o->symSize ? Val::sym(o->symSize, 64) : Val::conc(o->size, 64));
    });
    reg("symx_silent_exit", [](CallCtx& c) { finishPath(c.s); });
    reg("symx_preempt", [](CallCtx& c) { c.s.preemptLeft = (int)c.a[0].sc(); });
    reg("symx_yield", [](CallCtx& c) { visible(c); });

    // ---- allocation
    reg("_Znwm _ZnwmSt11align_val_t _ZnwmRKSt9nothrow_t", [](CallCtx& c) { doAlloc(c, c.a[0], false, false, 0); });
    reg("_Znam _ZnamSt11align_val_t _ZnamRKSt9nothrow_t", [](CallCtx& c) { doAlloc(c, c.a[0], true, false, 0); });
    reg("malloc av_malloc", [](CallCtx& c) { doAlloc(c, c.a[0], false, true, 0); });
    reg("calloc", [](CallCtx& c) { Val m; binop(c.s, Instruction::Mul, c.a[0], c.a[1], m); doAlloc(c, m, false, true, 1); });
    reg("realloc", [](CallCtx& c) {
        uint64_t p; if (!concretize(c.s, c.a[0], p)) return;
        uint64_t n; if (!concretize(c.s, c.a[1], n)) return;
        doAlloc(c, Val::conc(n, 64), false, true, 0);
        if (c.s.done || !p) return;
        Object* o = c.s.mem.get(addrId(p));
        if (!o) return;
        if (!memCopy(c.s, c.ret, Val::conc(p, 64), Val::conc(std::min(o->size, n), 64))) return;
        freeObj(c.s, Val::conc(p, 64), "free");
    });
    reg("_ZdlPv _ZdlPvm _ZdlPvSt11align_val_t _ZdlPvmSt11align_val_t _ZdlPvRKSt9nothrow_t", [](CallCtx& c) { freeObj(c.s, c.a[0], "delete"); });
    reg("_ZdaPv _ZdaPvm", [](CallCtx& c) { freeObj(c.s, c.a[0], "delete[]"); });
    reg("free", [](CallCtx& c) { freeObj(c.s, c.a[0], "free"); });
    reg("memcpy memmove", [](CallCtx& c) { if (memCopy(c.s, c.a[0], c.a[1], c.a[2])) c.set(c.a[0]); });
    reg("memset", [](CallCtx& c) { if (memSet(c.s, c.a[0], truncV(c.a[1], 8), c.a[2])) c.set(c.a[0]); });

    // ---- process
    reg("abort _ZSt9terminatev __clang_call_terminate", [](CallCtx& c) { fatalPath(c.s, "abort", "abnormal termination"); });
    reg("exit _exit quick_exit", [](CallCtx& c) { fatalPath(c.s, "exit", "the process exits"); });
    reg("__assert_fail", [](CallCtx& c) { std::string m; cstr(c, 0, m); fatalPath(c.s, "assert-fail", "assert(" + m + ")"); });
    reg("__cxa_pure_virtual", [](CallCtx& c) { fatalPath(c.s, "pure-virtual", "pure virtual call"); });
    reg("__errno_location", [](CallCtx& c) {
        if (!c.s.errnoAddr) c.s.errnoAddr = allocObj(c.s, 4, OK_GLOBAL, "errno", 1);
        c.set(Val::conc(c.s.errnoAddr, 64));
    });
    reg("__cxa_atexit", [](CallCtx& c) { c.set(Val::conc(0, 32)); });
    reg("__cxa_guard_acquire", [](CallCtx& c) {
        Val v; if (!readMem(c.s, c.a[0], 1, v)) return;
        c.set(Val::conc(v.isC() && v.c ? 0 : 1, 32));
    });
    reg("__cxa_guard_release", [](CallCtx& c) { writeMem(c.s, c.a[0], Val::conc(1, 8), 1); });
    reg("__cxa_guard_abort", [](CallCtx& c) {});
    reg("rand random", [](CallCtx& c) { c.set(Val::sym(exZext(exExtract(30, 0, newSym(c.s, "rand", 32).bv()), 32), 32)); });
    reg("srand srandom", [](CallCtx& c) {});
    // output: ignored
    reg("printf puts putchar fprintf fputs fputc fflush perror fwrite vprintf vfprintf av_log", [](CallCtx& c) {});
    reg("_ZNSt8ios_base4InitC1Ev _ZNSt8ios_base4InitD1Ev", [](CallCtx& c) {});

    // ---- exceptions
    reg("__cxa_allocate_exception", [](CallCtx& c) { uint64_t p = allocObj(c.s, c.a[0].c + 64, OK_HEAP, "exception"); c.s.liveHeap--; c.set(Val::conc(p, 64)); });
    reg("__cxa_free_exception", [](CallCtx& c) {});
    reg("__cxa_throw", [](CallCtx& c) { c.s.excType[c.a[0].c] = c.a[1].c; c.jumped = true; unwind(c.s, c.a[0].c, true); });
    reg("__cxa_begin_catch", [](CallCtx& c) { c.s.T().caught.push_back(c.a[0].c); c.set(c.a[0]); });
    reg("__cxa_get_exception_ptr", [](CallCtx& c) { c.set(c.a[0]); });
    reg("__cxa_end_catch", [](CallCtx& c) { if (!c.s.T().caught.empty()) c.s.T().caught.pop_back(); });
    reg("__cxa_rethrow", [](CallCtx& c) {
        c.jumped = true;
        if (c.s.T().caught.empty()) { fatalPath(c.s, "abort", "rethrow without exception"); return; }
        uint64_t e = c.s.T().caught.back();
        c.s.T().caught.pop_back();
        unwind(c.s, e, true);
    });
    reg("_Unwind_Resume", [](CallCtx& c) { c.jumped = true; uint64_t e = c.a[0].c; popFrame(c.s); unwind(c.s, e, false); });
    reg("__cxa_bad_cast", [](CallCtx& c) { throwH(c, "_ZTISt8bad_cast"); });
    reg("__cxa_throw_bad_array_new_length _ZSt28__throw_bad_array_new_lengthv", [](CallCtx& c) { throwH(c, "_ZTISt20bad_array_new_length"); });
    reg("_ZSt17__throw_bad_allocv", [](CallCtx& c) { throwH(c, "_ZTISt9bad_alloc"); });
    reg("_ZSt16__throw_bad_castv", [](CallCtx& c) { throwH(c, "_ZTISt8bad_cast"); });
    reg("_ZSt20__throw_length_errorPKc", [](CallCtx& c) { throwH(c, "_ZTISt12length_error"); });
    reg("_ZSt19__throw_logic_errorPKc", [](CallCtx& c) { throwH(c, "_ZTISt11logic_error"); });
    reg("_ZSt20__throw_out_of_rangePKc _ZSt24__throw_out_of_range_fmtPKcz", [](CallCtx& c) { throwH(c, "_ZTISt12out_of_range"); });
    reg("_ZSt24__throw_invalid_argumentPKc", [](CallCtx& c) { throwH(c, "_ZTISt16invalid_argument"); });
    reg("_ZSt25__throw_bad_function_callv", [](CallCtx& c) { throwH(c, "_ZTISt17bad_function_call"); });
    reg("_ZSt20__throw_system_errori", [](CallCtx& c) { throwH(c, "_ZTISt12system_error"); });
    // exception objects: construction and destruction carry no behaviour of interest
    for (const char* p : {"_ZNSt11logic_error", "_ZNSt13runtime_error", "_ZNSt12out_of_range", "_ZNSt16invalid_argument", "_ZNSt9exception", "_ZNSt12length_error", "_ZNSt12domain_error", "_ZNSt9bad_alloc", "_ZNSt20bad_array_new_length"})
        prefixHandlers.push_back({p, new Handler{[](CallCtx& c) {}}});
    for (const char* p : {"_ZNKSt11logic_error4whatEv", "_ZNKSt13runtime_error4whatEv", "_ZNKSt9exception4whatEv"})
        prefixHandlers.push_back({p, new Handler{[](CallCtx& c) {
            uint64_t a = allocObj(c.s, 16, OK_GLOBAL, "what", 1); c.set(Val::conc(a, 64)); }}});
    reg("__dynamic_cast", [](CallCtx& c) {
        State& s = c.s;
        uint64_t p; if (!concretize(s, c.a[0], p)) return;
        if (!p) { c.set(Val::conc(0, 64)); return; }
        Val vpv; if (!readMem(s, Val::conc(p, 64), 8, vpv)) return;
        uint64_t vp; if (!concretize(s, vpv, vp)) return;
        int64_t top = (int64_t)readPtr(s, vp - 16);
        uint64_t ti = readPtr(s, vp - 8);
        uint64_t want = c.a[2].c;
        std::vector<std::pair<uint64_t, int64_t>> b;
        bases(s, ti, 0, b);
        std::string wn = symName(want);
        for (auto& x : b) if (x.first == want || (!wn.empty() && symName(x.first) == wn)) { c.set(Val::conc(p + top + x.second, 64)); return; }
        c.set(Val::conc(0, 64));
    });

    // ---- threads
    auto lock = [](CallCtx& c) {
        State& s = c.s;
        uint64_t m; if (!concretize(s, c.a[0], m)) return;
        Val probe; if (!readMem(s, Val::conc(m, 64), 1, probe)) return;   // memory must be alive
        if (!visible(c)) return;
        if (!mutexFree(s, m)) {
            if (s.mutexes[m] == (uint64_t)s.cur + 1) { fatalPath(s, "deadlock", "mutex locked twice by the same thread"); return; }
            s.T().stat = T_MUTEX; s.T().waitOn = m;
            c.again = true;
            scheduleNext(s, false);
            return;
        }
        s.mutexes[m] = s.cur + 1;
        c.set(Val::conc(0, 32));
    };
    reg("pthread_mutex_lock pthread_rwlock_wrlock pthread_rwlock_rdlock", lock);
    reg("pthread_mutex_trylock", [](CallCtx& c) {
        State& s = c.s;
        uint64_t m; if (!concretize(s, c.a[0], m)) return;
        if (!visible(c)) return;
        if (!mutexFree(s, m)) { c.set(Val::conc(16, 32)); return; }
        s.mutexes[m] = s.cur + 1;
        c.set(Val::conc(0, 32));
    });
    reg("pthread_mutex_unlock pthread_rwlock_unlock", [](CallCtx& c) {
        State& s = c.s;
        uint64_t m; if (!concretize(s, c.a[0], m)) return;
        Val probe; if (!readMem(s, Val::conc(m, 64), 1, probe)) return;
        s.mutexes[m] = 0;
        c.set(Val::conc(0, 32));
    });
    reg("pthread_mutex_init pthread_mutex_destroy pthread_cond_init pthread_cond_destroy pthread_mutexattr_init pthread_mutexattr_settype pthread_setschedparam _ZNSt18condition_variableC1Ev _ZNSt18condition_variableD1Ev", [](CallCtx& c) {});
    auto timespecNs = [](CallCtx& c, uint64_t a, Val& ns) -> bool {
        Val x, y; if (!readMem(c.s, Val::conc(a, 64), 8, x) || !readMem(c.s, Val::conc(a + 8, 64), 8, y)) return false;
        Val z; return binop(c.s, Instruction::Mul, x, Val::conc(1000000000, 64), z) && binop(c.s, Instruction::Add, z, y, ns);
    };
    auto condWait = [](CallCtx& c, uint64_t cv, uint64_t m, bool timed, Val deadline = Val::conc(0, 64)) -> bool {   // true: returned; phase says how
        State& s = c.s;
        Thread& T = s.T();
        if (T.phase == 0) {
            if (!visible(c)) return false;
            s.mutexes[m] = 0;
            s.T().stat = T_COND; s.T().waitOn = cv; s.T().timed = timed; s.T().deadline = deadline;
            c.again = true;
            scheduleNext(s, false);
            return false;
        }
        // woken: reacquire
        if (!mutexFree(s, m)) {
            T.stat = T_MUTEX; T.waitOn = m;
            c.again = true;
            scheduleNext(s, false);
            return false;
        }
        s.mutexes[m] = s.cur + 1;
        return true;
    };
    reg("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", [condWait](CallCtx& c) {
        uint64_t m = readPtr(c.s, c.a[1].c);
        if (condWait(c, c.a[0].c, m, false)) c.s.T().phase = 0;
    });
    reg("pthread_cond_wait", [condWait](CallCtx& c) { if (condWait(c, c.a[0].c, c.a[1].c, false)) { c.s.T().phase = 0; c.set(Val::conc(0, 32)); } });
    auto timedWait = [condWait, timespecNs](CallCtx& c, int arg) {
        Val dl = Val::conc(0, 64); if (c.s.T().phase == 0 && !timespecNs(c, c.a[arg].c, dl)) return;
        if (condWait(c, c.a[0].c, c.a[1].c, true, dl)) { int ph = c.s.T().phase; c.s.T().phase = 0; c.set(Val::conc(ph == 2 ? 110 : 0, 32)); }
    };
    reg("pthread_cond_timedwait", [timedWait](CallCtx& c) { timedWait(c, 2); });
    reg("pthread_cond_clockwait", [timedWait](CallCtx& c) { timedWait(c, 3); });
    reg("_ZNSt18condition_variable10notify_oneEv pthread_cond_signal", [](CallCtx& c) {
        State& s = c.s;
        if (!visible(c)) return;
        std::vector<int> w;
        for (int t = 0; t < (int)s.thr.size(); t++) if (s.thr[t].stat == T_COND && s.thr[t].waitOn == c.a[0].c) w.push_back(t);
        auto wakeup = [](State& x, int t) { x.thr[t].stat = T_RUN; x.thr[t].phase = 1; };
        if (w.empty()) { c.set(Val::conc(0, 32)); return; }
        if (w.size() > 1) {
            int y = freshSym(s, "wake", 8);
            s.inputs.push_back({y, 1, "wake", true, 0});
            for (size_t i = w.size(); i-- > 0;) {
                State* n = i ? cloneState(s) : &s;
                auto nm = std::make_shared<ModelBox>(); nm->a = n->model->a; nm->a[y] = w[i]; n->model = nm;
                addPC(*n, exEq(syms[y].e, bvc(w[i], 8)));
                wakeup(*n, w[i]);
                if (i) { Val z = Val::conc(0, 32); completeCall(*n, &z); push(n); }
            }
        } else wakeup(s, w[0]);
        c.set(Val::conc(0, 32));
    });
    reg("_ZNSt18condition_variable10notify_allEv pthread_cond_broadcast", [](CallCtx& c) {
        State& s = c.s;
        if (!visible(c)) return;
        for (auto& t : s.thr) if (t.stat == T_COND && t.waitOn == c.a[0].c) { t.stat = T_RUN; t.phase = 1; }
        c.set(Val::conc(0, 32));
    });
    reg("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", [](CallCtx& c) {
        State& s = c.s;
        // a[0]: std::thread*, a[1]: unique_ptr<_State>*
        uint64_t st = readPtr(s, c.a[1].c);
        uint64_t vp = readPtr(s, st);
        uint64_t run = readPtr(s, vp + 16);       // D1, D0, _M_run
        auto it = addrFn.find(run);
        if (it == addrFn.end()) { unsupported(s, "thread entry"); return; }
        // release the state from the unique_ptr (owned by the thread)
        if (!writeMem(s, c.a[1], Val::conc(0, 64), 8)) return;
        int tid = s.thr.size();
        if (!writeMem(s, c.a[0], Val::conc(tid + 1, 64), 8)) return;
        int cur = s.cur;
        s.thr.emplace_back();
        s.cur = tid;
        pushFrame(s, it->second, {Val::conc(st, 64)});
        s.cur = cur;
        s.thr[cur].schedDone = false;
    });
    reg("_ZNSt6thread4joinEv", [](CallCtx& c) {
        State& s = c.s;
        Val id; if (!readMem(s, c.a[0], 8, id)) return;
        if (!id.isC() || id.c == 0) { throwH(c, "_ZTISt12system_error"); return; }
        int t = id.c - 1;
        if (!visible(c)) return;
        if (s.thr[t].stat != T_DONE) {
            s.T().stat = T_JOIN; s.T().waitOn = t;
            c.again = true;
            scheduleNext(s, false);
            return;
        }
        writeMem(s, c.a[0], Val::conc(0, 64), 8);
    });
    reg("_ZNSt6thread6detachEv", [](CallCtx& c) { writeMem(c.s, c.a[0], Val::conc(0, 64), 8); });
    reg("_ZNSt6thread20hardware_concurrencyEv", [](CallCtx& c) { c.set(Val::conc(2, 32)); });
    reg("_ZNSt6thread6_StateD2Ev _ZNSt6thread6_StateD1Ev", [](CallCtx& c) {});
    reg("pthread_self", [](CallCtx& c) { c.set(Val::conc(c.s.cur + 1, 64)); });
    reg("sched_yield", [](CallCtx& c) { if (visible(c)) c.set(Val::conc(0, 32)); });
    auto sleepFor = [](CallCtx& c, Val ns) {
        State& s = c.s;
        Val now, end; if (!clockGet(s, now) || !binop(s, Instruction::Add, now, ns, end)) return;
        if (liveThreads(s) == 1) { clockSet(s, end); c.set(Val::conc(0, 32)); return; }
        if (s.T().phase == 0) {
            if (!visible(c)) return;
            s.T().stat = T_COND; s.T().waitOn = ~0ull; s.T().timed = true; s.T().deadline = end;
            c.again = true;
            scheduleNext(s, false);
            return;
        }
        s.T().phase = 0;
        c.set(Val::conc(0, 32));
    };
    reg("nanosleep", [sleepFor, timespecNs](CallCtx& c) { Val ns; if (timespecNs(c, c.a[0].c, ns)) sleepFor(c, ns); });
    reg("usleep", [sleepFor](CallCtx& c) { Val ns; if (binop(c.s, Instruction::Mul, zextV(truncV(c.a[0], 32), 64), Val::conc(1000, 64), ns)) sleepFor(c, ns); });
    reg("pthread_create", [](CallCtx& c) { unsupported(c.s, "pthread_create"); });
}

// ---------------------------------------------------------------- driver
static std::string jsonStr(const std::string& x) {
    std::string o = "\"";
    for (unsigned char ch : x) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}
static uint64_t samplesSeen = 0;
static void finishPath(State& s) {
    S.done++;
    kill(s);
    // reservoir of completed paths for native re-execution
    samplesSeen++;
    bool take = sampleJson.size() < O.samples;
    size_t slot = sampleJson.size();
    if (!take && O.samples) {
        static uint64_t rng = 88172645463325252ull ^ O.seed;
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        uint64_t r = rng % samplesSeen;
        if (r < O.samples) { take = true; slot = r; }
    }
    if (!take) return;
    std::string j = "{\"inputs\":[";
    bool first = true;
    for (auto& kv : inputsOf(s, s.model)) {
        j += (first ? "" : ",") + std::string("[") + jsonStr(kv.first) + ",\"" + hexs(kv.second) + "\"]";
        first = false;
    }
    j += "],\"observes\":[";
    first = true;
    for (auto& o : s.observes) {
        uint64_t v = 0;
        evalU64(s.model, o.second, v);
        j += (first ? "\"" : ",\"") + hexs(v) + "\"";
        first = false;
    }
    j += "]}";
    if (slot < sampleJson.size()) sampleJson[slot] = j; else sampleJson.push_back(j);
}
static void writeOut(bool complete) {
    std::ofstream o(O.out);
    o << "{\n\"complete\":" << (complete && inconclusive.empty() ? "true" : "false") << ",\n";
    o << "\"case\":" << O.caseNo << ",\n";
    o << "\"stats\":{\"paths\":" << S.paths << ",\"completed\":" << S.done << ",\"assume_killed\":" << S.assumeKilled << ",\"error_paths\":" << S.errors
      << ",\"forks\":" << S.forks << ",\"instructions\":" << S.insts << ",\"queries\":" << S.queries << ",\"sat\":" << S.sat << ",\"unsat\":" << S.unsat
      << ",\"unknown\":" << S.unknown << ",\"cache_hits\":" << S.cacheHits << ",\"model_hits\":" << S.modelHits << ",\"asserts\":" << S.asserts << ",\"asserts_symbolic\":" << S.assertsSym
      << ",\"memory_checks\":" << S.memChecks << ",\"havocs\":" << S.havocs << ",\"solver_s\":" << S.solver << ",\"wall_s\":" << now() - tStart << "},\n";
    o << "\"inconclusive\":[";
    for (size_t i = 0; i < inconclusive.size(); i++) o << (i ? "," : "") << jsonStr(inconclusive[i]);
    o << "],\n\"reached\":[";
    bool first = true;
    for (auto& t : reachedTags) { o << (first ? "" : ",") << jsonStr(t); first = false; }
    o << "],\n\"errors\":[";
    for (size_t i = 0; i < errors.size(); i++) {
        auto& e = errors[i];
        o << (i ? ",\n" : "\n") << "{\"kind\":" << jsonStr(e.kind) << ",\"msg\":" << jsonStr(e.msg) << ",\"loc\":" << jsonStr(e.loc) << ",\"func\":" << jsonStr(e.func) << ",\"stack\":" << jsonStr(e.stack) << ",\"inputs\":[";
        for (size_t k = 0; k < e.inputs.size(); k++) o << (k ? "," : "") << "[" << jsonStr(e.inputs[k].first) << ",\"" << hexs(e.inputs[k].second) << "\"]";
        o << "]}";
    }
    o << "],\n\"samples\":[";
    for (size_t i = 0; i < sampleJson.size(); i++) o << (i ? ",\n" : "\n") << sampleJson[i];
    o << "],\n\"functions\":[";
    first = true;
    for (auto& kv : fnInfos) {
        FnInfo* f = kv.second;
        if (!f->fromRepo) continue;
        unsigned seen = 0;
        for (bool b : f->blockSeen) seen += b;
        o << (first ? "\n" : ",\n") << "[" << jsonStr(demangle(f->F->getName().str())) << "," << jsonStr(f->repoFile.substr(O.repo.size())) << "," << seen << "," << f->blocks.size() << "," << f->visits << "]";
        first = false;
    }
    o << "]\n}\n";
}
static void onTerm(int) { _exit(3); }
int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") O.entry = val();
        else if (a == "--out") O.out = val();
        else if (a == "--max-time") O.maxTime = atof(val().c_str());
        else if (a == "--max-steps") O.maxSteps = strtoull(val().c_str(), 0, 10);
        else if (a == "--solver-ms") O.solverMs = atoi(val().c_str());
        else if (a == "--max-errors") O.maxErrors = atoi(val().c_str());
        else if (a == "--samples") O.samples = atoi(val().c_str());
        else if (a == "--case") O.caseNo = atoi(val().c_str());
        else if (a == "--no-lin") O.noLin = true;
        else if (a == "--after-error") O.afterError = atof(val().c_str());
        else if (a == "--seed") O.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--enum-cap") O.enumCap = atoi(val().c_str());
        else if (a == "--repo") O.repo = val();
        else if (a == "-v") O.verbose = true;
        else if (a == "-p") O.progress = true;
        else O.file = a;
    }
    signal(SIGTERM, onTerm);
    tStart = now();
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) {
        fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    });
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> mod = parseIRFile(O.file, err, ctx);
    if (!mod) { err.print("symx", errs()); return 2; }
    M = mod.get();
    DL = &M->getDataLayout();
    setupHandlers();
    curState.reset(new State);
    State& s0 = *curState;
    s0.model = std::make_shared<ModelBox>();
    s0.thr.emplace_back();
    s0.mem.add(nullptr);       // id 1 unused
    for (auto& F : *M) {
        if (F.isIntrinsic()) continue;
        uint64_t a = allocObj(s0, 1, OK_FUNC, F.getName().str());
        gaddr[&F] = a;
        addrFn[a] = &F;
    }
    for (auto& G : M->globals()) {
        uint64_t sz = DL->getTypeAllocSize(G.getValueType());
        bool ext = G.isDeclaration();
        uint64_t a = allocObj(s0, ext ? std::max<uint64_t>(sz, 512) : sz, ext ? OK_EXTERN : OK_GLOBAL, G.getName().str(), 1);
        gaddr[&G] = a;
    }
    for (auto& G : M->globals()) {
        if (G.isDeclaration()) continue;
        uint64_t id = addrId(gaddr[&G]);
        writeInit(s0, id, 0, G.getInitializer());
        if (G.isConstant()) s0.mem.getW(id)->ro = true;
    }
    // global constructors run first (concretely), then the entry
    std::vector<Function*> ctors;
    if (GlobalVariable* gc = M->getNamedGlobal("llvm.global_ctors")) {
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<uint64_t, Function*>> v;
            for (auto& o : ca->operands()) {
                auto* cs = cast<ConstantStruct>(o);
                if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
            }
            std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
            for (auto& x : v) ctors.push_back(x.second);
        }
    }
    Function* E = M->getFunction(O.entry);
    if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); return 2; }
    pushFrame(s0, E, {});
    for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) {
        // run ctor frames on top of the entry frame: their return must not advance the entry
        pushFrame(s0, *it, {});
        while (!s0.done && s0.T().st.size() > 1) {
            Frame& f = s0.F();
            InstInfo& ii = f.fn->blocks[f.bb].insts[f.pc];
            if (ii.op == Instruction::Ret && s0.T().st.size() == 2) { popFrame(s0); break; }
            step(s0);
        }
    }
    if (s0.done) { incon("global constructor failed"); writeOut(false); return 2; }
    s0.liveHeap = 0;
    bool complete = true;
    double lastP = now();
    while (true) {
        State& s = *curState;
        unsigned n = 0;
        while (!s.done) {
            step(s);
            if ((++n & 0x3ff) == 0) {
                if (now() - tStart > O.maxTime) break;
            }
        }
        if (!s.done) { incon("time budget exhausted"); complete = false; break; }
        S.paths++;
        if (O.progress && now() - lastP > 5) {
            lastP = now();
            fprintf(stderr, "[%.0fs] paths=%lu pending=%zu queries=%lu solver=%.1fs insts=%lu errors=%zu\n", now() - tStart, S.paths, work.size(), S.queries, S.solver, S.insts, errors.size());
        }
        curState.reset();
        if (errorKeyCount >= O.maxErrors) { complete = false; incon("error limit reached"); break; }
        if (work.empty()) break;
        if (now() - tStart > O.maxTime) { incon("time budget exhausted"); complete = false; break; }
        curState = std::move(work.back());
        work.pop_back();
    }
    writeOut(complete);
    fflush(stdout);
    _exit(0);
}
