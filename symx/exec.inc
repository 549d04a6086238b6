// ---------------------------------------------------------------- constants and functions
static Val evalConst(State& s, const Constant* c);
static void writeInit(State& s, uint64_t id, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;   // zero filled
    if (isa<UndefValue>(c)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout* sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) writeInit(s, id, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) writeInit(s, id, off + es * i, ca->getOperand(i));
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = cd->getElementByteSize();
        for (unsigned i = 0; i < cd->getNumElements(); i++) writeInit(s, id, off + es * i, cd->getElementAsConstant(i));
        return;
    }
    Val v = evalConst(s, c);
    if (v.isAgg()) { incon("aggregate initialiser"); return; }
    writeBytes(s, id, off, v, DL->getTypeStoreSize(t));
}
static Val evalConst(State& s, const Constant* c) {
    auto it = constCache.find(c);
    if (it != constCache.end()) return it->second;
    Val r;
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) r = Val::conc(ci->getZExtValue(), ci->getBitWidth());
        else {
            SmallString<40> str;
            ci->getValue().toStringUnsigned(str);
            r = Val::sym(Ex(Z3_mk_numeral(C, str.c_str(), Z3_mk_bv_sort(C, ci->getBitWidth()))), ci->getBitWidth());
        }
    } else if (auto* cf = dyn_cast<ConstantFP>(c)) {
        r = Val::conc(cf->getValueAPF().bitcastToAPInt().getZExtValue(), bitsOf(t));
    } else if (isa<ConstantPointerNull>(c)) r = Val::conc(0, 64);
    else if (auto* gv = dyn_cast<GlobalValue>(c)) {
        const GlobalValue* g = gv;
        if (auto* ga = dyn_cast<GlobalAlias>(gv)) g = cast<GlobalValue>(ga->getAliasee()->stripPointerCasts());
        auto gi = gaddr.find(g);
        r = Val::conc(gi == gaddr.end() ? 0 : gi->second, 64);
    } else if (isa<UndefValue>(c)) {
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            std::vector<Val> v;
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; i++) {
                Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
                v.push_back(evalConst(s, UndefValue::get(et)));
            }
            r = Val::aggv(v);
        } else r = Val::conc(0, bitsOf(t));
    } else if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        std::vector<Val> v;
        for (auto& o : ca->operands()) v.push_back(evalConst(s, cast<Constant>(o)));
        r = Val::aggv(v);
    } else if (isa<ConstantAggregateZero>(c)) {
        std::vector<Val> v;
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) v.push_back(evalConst(s, c->getAggregateElement(i)));
        r = Val::aggv(v);
    } else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(evalConst(s, cd->getElementAsConstant(i)));
        r = Val::aggv(v);
    } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        unsigned op = ce->getOpcode();
        if (op == Instruction::GetElementPtr) {
            auto* gep = cast<GEPOperator>(ce);
            APInt off(64, 0);
            gep->accumulateConstantOffset(*DL, off);
            r = Val::conc(evalConst(s, cast<Constant>(gep->getPointerOperand())).c + off.getSExtValue(), 64);
        } else if (ce->isCast()) {
            castop(s, op, evalConst(s, ce->getOperand(0)), ce->getOperand(0)->getType(), t, r);
        } else if (Instruction::isBinaryOp(op)) {
            binop(s, op, evalConst(s, ce->getOperand(0)), evalConst(s, ce->getOperand(1)), r);
        } else if (op == Instruction::ICmp) {
            r = icmp((CmpInst::Predicate)ce->getPredicate(), evalConst(s, ce->getOperand(0)), evalConst(s, ce->getOperand(1)));
        } else if (op == Instruction::Select) {
            r = evalConst(s, ce->getOperand(0)).c ? evalConst(s, ce->getOperand(1)) : evalConst(s, ce->getOperand(2));
        } else incon("constant expression");
    } else incon("constant kind");
    constCache[c] = r;
    return r;
}
struct Handler;
struct CallCtx {
    State& s; InstInfo* ii; CallBase* cb; std::vector<Val>& a;
    Val ret; bool hasRet = false;
    bool again = false;        // do not advance (re-execute later)
    bool jumped = false;       // handler changed control flow itself
    void set(const Val& v) { ret = v; hasRet = true; }
};
struct Handler { std::function<void(CallCtx&)> f; };
static std::map<std::string, Handler*> handlers;
static Handler* findHandler(Function* F);

static FnInfo* fnInfo(State& s, Function* F) {
    auto it = fnInfos.find(F);
    if (it != fnInfos.end()) return it->second;
    FnInfo* fi = new FnInfo;
    fi->F = F;
    if (DISubprogram* sp = F->getSubprogram()) {
        std::string fn = sp->getFilename().str(), dir = sp->getDirectory().str();
        std::string full = (!fn.empty() && fn[0] == '/') ? fn : dir + "/" + fn;
        if (full.compare(0, O.repo.size(), O.repo) == 0) { fi->fromRepo = true; fi->repoFile = full; }
    }
    std::unordered_map<const Value*, int> num;
    for (auto& a : F->args()) num[&a] = fi->nregs++;
    std::unordered_map<const BasicBlock*, int> bnum;
    int bi = 0;
    for (auto& B : *F) {
        bnum[&B] = bi++;
        for (auto& I : B) if (!I.getType()->isVoidTy()) num[&I] = fi->nregs++;
    }
    for (auto& B : *F) {
        BlockInfo b;
        b.B = &B;
        for (auto& I : B) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            InstInfo ii;
            ii.I = &I; ii.op = I.getOpcode();
            if (!I.getType()->isVoidTy()) ii.dst = num[&I];
            ii.w = bitsOf(I.getType());
            if (isa<PHINode>(&I)) b.nphi++;
            unsigned nops = I.getNumOperands();
            if (auto* cb = dyn_cast<CallBase>(&I)) {
                nops = cb->arg_size();
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                ii.callee = dyn_cast<Function>(cv);
                if (ii.callee) ii.h = findHandler(ii.callee);
            }
            for (unsigned k = 0; k < nops; k++) {
                Value* v = isa<CallBase>(&I) ? cast<CallBase>(&I)->getArgOperand(k) : I.getOperand(k);
                Opnd o;
                if (isa<Constant>(v)) {
                    o.cv = evalConst(s, cast<Constant>(v));
                    if (isa<UndefValue>(v) && !v->getType()->isAggregateType() && !v->getType()->isVectorTy()) o.undef = true;
                } else {
                    auto f = num.find(v);
                    if (f != num.end()) o.reg = f->second;
                }
                ii.ops.push_back(o);
            }
            if (auto* ci = dyn_cast<CallBase>(&I)) {
                if (!ii.callee) {
                    Opnd o;
                    Value* v = ci->getCalledOperand();
                    if (isa<Constant>(v)) o.cv = evalConst(s, cast<Constant>(v)); else o.reg = num[v];
                    ii.ops.push_back(o);
                }
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { ii.succ[0] = bnum[iv->getNormalDest()]; ii.succ[1] = bnum[iv->getUnwindDest()]; }
            }
            if (auto* br = dyn_cast<BranchInst>(&I)) {
                for (unsigned k = 0; k < br->getNumSuccessors(); k++) ii.succ[k] = bnum[br->getSuccessor(k)];
            }
            if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
                unsigned k = 1;
                for (gep_type_iterator gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi, ++k) {
                    if (StructType* st = gi.getStructTypeOrNull()) {
                        unsigned idx = cast<ConstantInt>(gi.getOperand())->getZExtValue();
                        ii.gepConst += DL->getStructLayout(st)->getElementOffset(idx);
                    } else {
                        uint64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) ii.gepConst += ci->getSExtValue() * (int64_t)sc;
                        else ii.gepVar.push_back({(int)k, sc});
                    }
                }
            }
            b.insts.push_back(ii);
        }
        fi->blocks.push_back(std::move(b));
    }
    fi->blockSeen.assign(fi->blocks.size(), false);
    fnInfos[F] = fi;
    return fi;
}
static int blockIndex(FnInfo* fi, BasicBlock* B) {
    for (size_t i = 0; i < fi->blocks.size(); i++) if (fi->blocks[i].B == B) return i;
    return -1;
}
static Val getOp(State& s, Frame& f, const InstInfo& ii, unsigned k) {
    const Opnd& o = ii.ops[k];
    if (o.reg >= 0) return f.regs[o.reg];
    if (o.undef && ii.op != Instruction::PHI && ii.op != Instruction::InsertValue && ii.op != Instruction::InsertElement) {
        int y = freshSym(s, "undef", o.cv.w);
        if (o.cv.w == 1) return Val::sym(bvToBool(syms[y].e), 1);
        return Val::sym(syms[y].e, o.cv.w);
    }
    return o.cv;
}
static void gotoBlock(State& s, Frame& f, int b) {
    f.prev = f.bb;
    f.bb = b;
    f.pc = 0;
    if (!f.fn->blockSeen[b]) f.fn->blockSeen[b] = true;
    BlockInfo& bi = f.fn->blocks[b];
    if (bi.nphi) {
        BasicBlock* pb = f.fn->blocks[f.prev].B;
        std::vector<Val> vals(bi.nphi);
        for (unsigned i = 0; i < bi.nphi; i++) {
            PHINode* p = cast<PHINode>(bi.insts[i].I);
            int k = p->getBasicBlockIndex(pb);
            vals[i] = getOp(s, f, bi.insts[i], k);
        }
        for (unsigned i = 0; i < bi.nphi; i++) f.regs[bi.insts[i].dst] = vals[i];
        f.pc = bi.nphi;
    }
}
static void pushFrame(State& s, Function* F, const std::vector<Val>& args) {
    FnInfo* fi = fnInfo(s, F);
    fi->visits++;
    auto fr = std::make_shared<Frame>();
    fr->fn = fi;
    fr->regs.resize(fi->nregs);
    unsigned n = F->arg_size();
    for (unsigned i = 0; i < args.size(); i++) {
        if (i < n) fr->regs[i] = args[i]; else fr->varargs.push_back(args[i]);
    }
    fi->blockSeen[0] = true;
    s.T().st.push_back(fr);
}
static void popFrame(State& s) {
    Frame& f = *s.T().st.back();
    for (uint64_t a : f.allocas) {
        Object* o = s.mem.getW(addrId(a));
        o->freed = true;
        o->pages.clear();
    }
    s.T().st.pop_back();
}
static void finishPath(State& s);
static void scheduleNext(State& s, bool mustSwitch);
static void threadDone(State& s);
// after a call instruction completed with value v
static void completeCall(State& s, const Val* v) {
    Frame& f = s.F();
    InstInfo& ii = f.fn->blocks[f.bb].insts[f.pc];
    if (v && ii.dst >= 0) f.regs[ii.dst] = *v;
    if (ii.op == Instruction::Invoke) gotoBlock(s, f, ii.succ[0]);
    else f.pc++;
}
static void doReturn(State& s, const Val* v) {
    popFrame(s);
    if (s.T().st.empty()) { threadDone(s); return; }
    completeCall(s, v);
}

// ---------------------------------------------------------------- exceptions
static std::string symName(uint64_t addr) {
    for (auto& kv : gaddr) if (kv.second == addr) return kv.first->getName().str();
    return "";
}
static const std::map<std::string, std::string> stdBases = {
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
    {"_ZTISt12future_error", "_ZTISt11logic_error"}};
static uint64_t readPtr(State& s, uint64_t a) {
    uint64_t id = addrId(a);
    Object* o = s.mem.get(id);
    int64_t off = addrOff(a);
    if (!o || off < 0 || (uint64_t)off + 8 > o->size) return 0;
    Val v = readBytes(s, id, off, 8);
    return v.isC() ? v.c : 0;
}
static uint64_t globalAddr(const std::string& n) {
    GlobalValue* g = M->getNamedValue(n);
    if (!g) return 0;
    auto it = gaddr.find(g);
    return it == gaddr.end() ? 0 : it->second;
}
// collect (typeinfo, offset) pairs of all bases reachable
static void bases(State& s, uint64_t ti, int64_t off, std::vector<std::pair<uint64_t, int64_t>>& out, int depth = 0) {
    if (!ti || depth > 16) return;
    out.push_back({ti, off});
    std::string n = symName(ti);
    auto sb = stdBases.find(n);
    if (sb != stdBases.end()) {
        uint64_t b = globalAddr(sb->second);
        if (b) bases(s, b, off, out, depth + 1);
        return;
    }
    uint64_t vt = readPtr(s, ti);
    if (!vt) return;
    std::string vn = symName(vt - 16);
    if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") bases(s, readPtr(s, ti + 16), off, out, depth + 1);
    else if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
        Object* o = s.mem.get(addrId(ti));
        uint64_t base = addrOff(ti);
        Val cnt = readBytes(s, addrId(ti), base + 20, 4);
        (void)o;
        for (unsigned i = 0; i < cnt.c; i++) {
            uint64_t b = readPtr(s, ti + 24 + 16 * i), fl = readPtr(s, ti + 32 + 16 * i);
            if (fl & 1) continue;   // virtual base: not modelled
            bases(s, b, off + ((int64_t)fl >> 8), out, depth + 1);
        }
    }
}
static bool typeMatches(State& s, uint64_t thrown, uint64_t want) {
    if (want == 0 || thrown == want) return true;
    std::vector<std::pair<uint64_t, int64_t>> b;
    bases(s, thrown, 0, b);
    for (auto& x : b) if (x.first == want) return true;
    // typeinfo objects may be duplicated: compare by name
    std::string wn = symName(want);
    if (!wn.empty()) for (auto& x : b) if (symName(x.first) == wn) return true;
    return false;
}
static void unwind(State& s, uint64_t exc, bool search) {
    uint64_t ti = s.excType[exc];
    auto& st = s.T().st;
    auto matchLP = [&](Frame& f, int& sel, bool& cleanup) -> bool {
        InstInfo& ii = f.fn->blocks[f.bb].insts[f.pc];
        if (ii.op != Instruction::Invoke) return false;
        LandingPadInst* lp = cast<InvokeInst>(ii.I)->getLandingPadInst();
        cleanup = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            if (lp->isCatch(i)) {
                uint64_t want = evalConst(s, lp->getClause(i)).c;
                if (typeMatches(s, ti, want)) { sel = (int)(want ? addrId(want) : 1); return true; }
            } else {
                // filter: an empty filter (throw()) matches everything
                sel = -1;
                return true;
            }
        }
        return false;
    };
    if (search) {
        bool found = false;
        for (int i = (int)st.size() - 1; i >= 0 && !found; i--) {
            int sel; bool cl;
            if (matchLP(*st[i], sel, cl)) found = true;
            if (st[i]->fn->F->doesNotThrow() && !found && i < (int)st.size() - 1) break;
        }
        if (!found) {
            std::string n = symName(ti);
            fatalPath(s, "uncaught-exception", "exception of type " + (n.size() > 4 ? demangle("_Z" + n.substr(4)) : n) + " leaves the program");
            return;
        }
    }
    while (!st.empty()) {
        int sel = 0; bool cl = false;
        bool m = matchLP(*st.back(), sel, cl);
        if (m || cl) {
            Frame& f = s.F();
            InstInfo ii = f.fn->blocks[f.bb].insts[f.pc];
            gotoBlock(s, f, ii.succ[1]);
            InstInfo& lp = f.fn->blocks[f.bb].insts[f.pc];
            if (lp.op != Instruction::LandingPad) { unsupported(s, "landing pad layout"); return; }
            f.regs[lp.dst] = Val::aggv({Val::conc(exc, 64), Val::conc(m ? (uint32_t)sel : 0, 32)});
            f.pc++;
            return;
        }
        popFrame(s);
    }
    fatalPath(s, "uncaught-exception", "exception leaves the program");
}
static void throwStd(State& s, const char* tiName) {
    uint64_t ti = globalAddr(tiName);
    uint64_t e = allocObj(s, 64, OK_HEAP, "exception", 1);
    s.liveHeap--;
    if (!ti) {
        // type not referenced by the program: only a catch-all can see it
        static std::map<std::string, uint64_t> fake;
        ti = 1;
    }
    s.excType[e] = ti;
    unwind(s, e, true);
}

// ---------------------------------------------------------------- threads
static bool mutexFree(State& s, uint64_t a) { auto it = s.mutexes.find(a); return it == s.mutexes.end() || it->second == 0; }
static bool runnable(State& s, int t) {
    Thread& T = s.thr[t];
    switch (T.stat) {
        case T_RUN: return true;
        case T_MUTEX: return mutexFree(s, T.waitOn);
        case T_COND: return false;       // time passes only when nobody can run
        case T_JOIN: return s.thr[T.waitOn].stat == T_DONE;
        default: return false;
    }
}
static void wake(State& s, int t) {
    Thread& T = s.thr[t];
    if (T.stat == T_COND) T.phase = 2;      // timed out
    T.stat = T_RUN;
    T.schedDone = true;
}
// the harness's clock (rt/clock.cpp)
static uint64_t clockAddr() {
    static uint64_t a = ~0ull;
    if (a == ~0ull) a = M->getNamedValue("symx_now_ns") ? globalAddr("symx_now_ns") : 0;
    return a;
}
static bool clockGet(State& s, Val& v) {
    v = Val::conc(0, 64); if (!clockAddr()) return true;
    return readMem(s, Val::conc(clockAddr(), 64), 8, v);
}
static void clockSet(State& s, const Val& v) { if (clockAddr()) writeMem(s, Val::conc(clockAddr(), 64), v, 8); }
// Nobody can run: time passes until the earliest deadline. Which one that is, whether several share it and whether
// it has passed already may depend on symbolic times: every possible outcome becomes a path.
static void passTime(State& s, const std::vector<int>& w) {
    Val now; if (!clockGet(s, now)) return;
    struct Alt { Ex cond; int t; bool tie, adv; ModelP m; };
    std::vector<Alt> alts;
    for (int i : w) {
        const Val di = s.thr[i].deadline;
        Ex strict = exTrue(), least = exTrue(), shared = exFalse();
        for (int j : w) if (j != i) {
            const Val& dj = s.thr[j].deadline;
            strict = exAnd(strict, icmp(CmpInst::ICMP_SLT, di, dj).boolean());
            least = exAnd(least, icmp(CmpInst::ICMP_SLE, di, dj).boolean());
            shared = exOr(shared, icmp(CmpInst::ICMP_EQ, di, dj).boolean());
        }
        Ex later = icmp(CmpInst::ICMP_SGT, di, now).boolean();
        for (int tie = 0; tie < (w.size() > 1 ? 2 : 1); tie++) for (int adv = 0; adv < 2; adv++) {
            Alt a; a.t = i; a.tie = tie; a.adv = adv;
            a.cond = exSimplify(exAnd(tie ? exAnd(least, shared) : strict, adv ? later : exNot(later)));
            if (Z3_get_bool_value(C, a.cond.a) == Z3_L_FALSE) continue;
            if (Z3_get_bool_value(C, a.cond.a) == Z3_L_TRUE) { alts.push_back(a); continue; }
            QR r = check(s, a.cond, &a.m);
            if (getenv("SYMX_DBG")) fprintf(stderr, "ALT %d %s\n", r, Z3_ast_to_string(C, a.cond.a));
            if (r == UNSAT) continue;
            if (r != SAT) { incon("which deadline comes first"); continue; }
            alts.push_back(a);
        }
    }
    if (alts.empty()) { fatalPath(s, "deadlock", "no thread can make progress"); return; }
    for (size_t k = alts.size(); k-- > 0;) {
        State* n = k ? cloneState(s) : &s;
        Alt& a = alts[k];
        if (Z3_get_bool_value(C, a.cond.a) != Z3_L_TRUE) constrain(*n, a.cond, a.m);
        if (a.tie) {
            int y = freshSym(*n, "sched", 8);
            n->inputs.push_back({y, 1, "sched", true, 0});
            auto nm = std::make_shared<ModelBox>(); nm->a = n->model->a; nm->a[y] = a.t; n->model = nm;
            addPC(*n, exEq(syms[y].e, bvc(a.t, 8)));
        }
        if (a.adv) clockSet(*n, n->thr[a.t].deadline);
        n->cur = a.t;
        wake(*n, a.t);
        if (k) push(n);
    }
}
// choose the next thread; the choice is a symbolic variable
static void scheduleNext(State& s, bool curCanRun) {
    std::vector<int> cand;
    if (curCanRun) cand.push_back(s.cur);
    for (int t = 0; t < (int)s.thr.size(); t++) {
        if (t == s.cur && curCanRun) continue;
        if (t == s.cur && !curCanRun && !runnable(s, t)) continue;
        if (t != s.cur && !runnable(s, t)) continue;
        cand.push_back(t);
    }
    if (cand.empty()) {             // let time pass until the next deadline
        for (int t = 0; t < (int)s.thr.size(); t++) if (s.thr[t].stat == T_COND && s.thr[t].timed) cand.push_back(t);
        if (!cand.empty()) { passTime(s, cand); return; }
    }
    if (cand.empty()) { fatalPath(s, "deadlock", "no thread can make progress"); return; }
    if (curCanRun && s.preemptLeft <= 0) cand.resize(1);
    if (cand.size() == 1) {
        // record for replay only when there is more than one thread
        s.cur = cand[0];
        wake(s, s.cur);
        return;
    }
    int y = freshSym(s, "sched", 8);
    s.inputs.push_back({y, 1, "sched", true, 0});
    for (size_t i = cand.size(); i-- > 0;) {
        State* n = i ? cloneState(s) : &s;
        auto nm = std::make_shared<ModelBox>();
        nm->a = n->model->a;
        nm->a[y] = cand[i];
        n->model = nm;
        addPC(*n, exEq(syms[y].e, bvc(cand[i], 8)));
        if (curCanRun && cand[i] != s.cur) n->preemptLeft--;
        n->cur = cand[i];
        wake(*n, n->cur);
        if (i) push(n);
    }
}
static int liveThreads(State& s) { int n = 0; for (auto& t : s.thr) n += t.stat != T_DONE; return n; }
// scheduling point in front of a visible operation. true: the operation may run now.
static bool visible(CallCtx& c) {
    State& s = c.s;
    if (s.thr.size() == 1 || liveThreads(s) == 1) return true;
    if (s.T().schedDone) { s.T().schedDone = false; return true; }
    int me = s.cur;
    scheduleNext(s, true);
    if (s.done) { c.again = true; return false; }
    if (s.cur == me) { s.T().schedDone = false; return true; }
    c.again = true;
    return false;
}
static void threadDone(State& s) {
    if (s.cur == 0) { finishPath(s); return; }
    s.T().stat = T_DONE;
    scheduleNext(s, false);
}

// ---------------------------------------------------------------- step
static void execCall(State& s, Frame& f, InstInfo& ii);
static uint64_t pathStepLimitHits = 0;

static void branchOn(State& s, const Ex& cond, std::function<void(State&, bool)> go) {
    bool ok;
    bool cur = evalBool(s.model, cond, ok);
    if (!ok) { unsupported(s, "cannot evaluate branch"); return; }
    Ex mine = cur ? cond : exNot(cond), other = exNot(mine);
    ModelP m;
    QR r = check(s, other, &m);
    if (r == SAT) {
        if (s.depth >= O.maxDepth) { incon("fork depth limit"); }
        else {
            State* n = cloneState(s);
            constrain(*n, other, m);
            go(*n, !cur);
            push(n);
        }
        addPC(s, mine);
    }
    // UNSAT: the condition is implied, nothing to add
    go(s, cur);
}
static void step(State& s) {
    Frame& f = s.F();
    InstInfo& ii = f.fn->blocks[f.bb].insts[f.pc];
    S.insts++;
    if (++s.steps > O.maxSteps) {
        S.limit++;
        report(s, "step-limit", "path does not terminate within the instruction bound", s.model);
        kill(s);
        return;
    }
    Instruction* I = ii.I;
    auto setDst = [&](const Val& v) { Frame& g = s.F(); g.regs[ii.dst] = v; g.pc++; };
    switch (ii.op) {
        case Instruction::Ret: {
            if (ii.ops.empty()) doReturn(s, nullptr);
            else { Val v = getOp(s, f, ii, 0); doReturn(s, &v); }
            return;
        }
        case Instruction::Br: {
            if (ii.succ[1] < 0) { gotoBlock(s, f, ii.succ[0]); return; }
            // operand order of br: cond, false, true
            Val c = getOp(s, f, ii, 0);
            if (c.isC()) { gotoBlock(s, f, c.c ? ii.succ[0] : ii.succ[1]); return; }
            int t = ii.succ[0], e = ii.succ[1];
            branchOn(s, c.boolean(), [t, e](State& x, bool v) { gotoBlock(x, x.F(), v ? t : e); });
            return;
        }
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(I);
            Val v = getOp(s, f, ii, 0);
            if (!v.isC()) {
                // which cases are feasible? fork per distinct successor value
                uint64_t cur;
                if (!evalU64(s.model, v, cur)) { unsupported(s, "switch"); return; }
                BasicBlock* dest = sw->getDefaultDest();
                for (auto& c : sw->cases()) if (c.getCaseValue()->getZExtValue() == cur) dest = c.getCaseSuccessor();
                // condition that selects dest
                Ex cond;
                if (dest == sw->getDefaultDest()) {
                    cond = exTrue();
                    for (auto& c : sw->cases()) if (c.getCaseSuccessor() != dest) cond = exAnd(cond, exNot(exEq(v.bv(), bvc(c.getCaseValue()->getZExtValue(), v.w))));
                } else {
                    cond = exFalse();
                    for (auto& c : sw->cases()) if (c.getCaseSuccessor() == dest) cond = exOr(cond, exEq(v.bv(), bvc(c.getCaseValue()->getZExtValue(), v.w)));
                }
                cond = exSimplify(cond);
                ModelP m;
                if (check(s, exNot(cond), &m) == SAT) {
                    State* n = cloneState(s);
                    constrain(*n, exNot(cond), m);
                    push(n);    // re-executes the switch
                    addPC(s, cond);
                }
                gotoBlock(s, s.F(), blockIndex(f.fn, dest));
                return;
            }
            BasicBlock* dest = sw->getDefaultDest();
            for (auto& c : sw->cases()) if (c.getCaseValue()->getZExtValue() == v.c) { dest = c.getCaseSuccessor(); break; }
            gotoBlock(s, f, blockIndex(f.fn, dest));
            return;
        }
        case Instruction::Unreachable:
            fatalPath(s, "unreachable", "control reaches undefined behaviour");
            return;
        case Instruction::Alloca: {
            auto* al = cast<AllocaInst>(I);
            Val n = getOp(s, f, ii, 0);
            uint64_t k;
            if (!concretize(s, n, k)) return;
            uint64_t a = allocObj(s, DL->getTypeAllocSize(al->getAllocatedType()) * k, OK_STACK, "local");
            s.F().allocas.push_back(a);
            setDst(Val::conc(a, 64));
            return;
        }
        case Instruction::Load: {
            if (cast<LoadInst>(I)->isAtomic() || cast<LoadInst>(I)->isVolatile()) {}
            Val v;
            if (!loadTy(s, getOp(s, f, ii, 0), I->getType(), v)) return;
            Frame& g = s.F();
            g.regs[ii.dst] = v; g.pc++;
            return;
        }
        case Instruction::Store: {
            Val v = getOp(s, f, ii, 0), p = getOp(s, f, ii, 1);
            if (!storeTy(s, p, v, I->getOperand(0)->getType())) return;
            s.F().pc++;
            return;
        }
        case Instruction::GetElementPtr: {
            Val p = getOp(s, f, ii, 0);
            if (p.isAgg()) { unsupported(s, "vector gep"); return; }
            if (p.isC()) {
                uint64_t a = p.c + ii.gepConst;
                Ex se;
                for (auto& kv : ii.gepVar) {
                    Val x = getOp(s, f, ii, kv.first);
                    if (x.isAgg()) { unsupported(s, "vector gep"); return; }
                    if (x.isC()) a += (uint64_t)x.sc() * kv.second;
                    else {
                        Val sx = sextV(x, 64), m;
                        binop(s, Instruction::Mul, sx, Val::conc(kv.second, 64), m);
                        se = se ? Ex(Z3_mk_bvadd(C, se.a, m.bv().a)) : m.bv();
                    }
                }
                if (!se) setDst(Val::conc(a, 64));
                else setDst(Val::sym(Ex(Z3_mk_bvadd(C, bvc(a, 64).a, se.a)), 64));
            } else {
                Ex e = p.bv();
                uint64_t a = ii.gepConst;
                for (auto& kv : ii.gepVar) {
                    Val x = getOp(s, f, ii, kv.first);
                    if (x.isC()) a += (uint64_t)x.sc() * kv.second;
                    else {
                        Val sx = sextV(x, 64), m;
                        binop(s, Instruction::Mul, sx, Val::conc(kv.second, 64), m);
                        e = Ex(Z3_mk_bvadd(C, e.a, m.bv().a));
                    }
                }
                if (a) e = exSimplify(Ex(Z3_mk_bvadd(C, e.a, bvc(a, 64).a)));
                setDst(Val::sym(e, 64));
            }
            return;
        }
        case Instruction::ICmp: setDst(icmp(cast<ICmpInst>(I)->getPredicate(), getOp(s, f, ii, 0), getOp(s, f, ii, 1))); return;
        case Instruction::FCmp: setDst(fcmp(cast<FCmpInst>(I)->getPredicate(), getOp(s, f, ii, 0), getOp(s, f, ii, 1))); return;
        case Instruction::Select: {
            Val c = getOp(s, f, ii, 0), a = getOp(s, f, ii, 1), b = getOp(s, f, ii, 2);
            if (c.isAgg()) {
                std::vector<Val> r;
                for (size_t i = 0; i < c.agg->size(); i++) {
                    const Val& ci = (*c.agg)[i];
                    r.push_back(ci.isC() ? (ci.c ? (*a.agg)[i] : (*b.agg)[i]) : iteVal(ci.boolean(), (*a.agg)[i], (*b.agg)[i]));
                }
                setDst(Val::aggv(r));
                return;
            }
            if (c.isC()) setDst(c.c ? a : b);
            else if (s.thr.size() > 1 && a.w == 64 && !c.isAgg()) {   // times choose between threads: keep them linear
                int d = ii.dst;
                branchOn(s, c.boolean(), [a, b, d](State& x, bool v) { Frame& g = x.F(); g.regs[d] = v ? a : b; g.pc++; });
            } else setDst(iteVal(c.boolean(), a, b));
            return;
        }
        case Instruction::Call: case Instruction::Invoke: execCall(s, f, ii); return;
        case Instruction::ExtractValue: {
            Val v = getOp(s, f, ii, 0);
            for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; }
            setDst(v);
            return;
        }
        case Instruction::InsertValue: {
            Val v = getOp(s, f, ii, 0), x = getOp(s, f, ii, 1);
            auto idx = cast<InsertValueInst>(I)->getIndices();
            std::function<Val(const Val&, unsigned)> ins = [&](const Val& a, unsigned d) -> Val {
                if (d == idx.size()) return x;
                std::vector<Val> r = *a.agg;
                r[idx[d]] = ins(r[idx[d]], d + 1);
                return Val::aggv(r);
            };
            setDst(ins(v, 0));
            return;
        }
        case Instruction::ExtractElement: {
            Val v = getOp(s, f, ii, 0), i = getOp(s, f, ii, 1);
            uint64_t k;
            if (!concretize(s, i, k)) return;
            if (k >= v.agg->size()) { unsupported(s, "extractelement index"); return; }
            setDst((*v.agg)[k]);
            return;
        }
        case Instruction::InsertElement: {
            Val v = getOp(s, f, ii, 0), x = getOp(s, f, ii, 1), i = getOp(s, f, ii, 2);
            uint64_t k;
            if (!concretize(s, i, k)) return;
            std::vector<Val> r = *v.agg;
            r[k] = x;
            setDst(Val::aggv(r));
            return;
        }
        case Instruction::ShuffleVector: {
            Val a = getOp(s, f, ii, 0), b = getOp(s, f, ii, 1);
            std::vector<Val> r;
            for (int k : cast<ShuffleVectorInst>(I)->getShuffleMask()) {
                if (k < 0) r.push_back((*a.agg)[0]);
                else if (k < (int)a.agg->size()) r.push_back((*a.agg)[k]);
                else r.push_back((*b.agg)[k - a.agg->size()]);
            }
            setDst(Val::aggv(r));
            return;
        }
        case Instruction::Freeze: setDst(getOp(s, f, ii, 0)); return;
        case Instruction::FNeg: {
            Val v = getOp(s, f, ii, 0);
            if (v.isC()) setDst(Val::conc(v.c ^ (1ull << (v.w - 1)), v.w));
            else setDst(Val::sym(Ex(Z3_mk_fpa_neg(C, v.fp().a)), v.w));
            return;
        }
        case Instruction::Resume: {
            Val v = getOp(s, f, ii, 0);
            uint64_t exc = (*v.agg)[0].c;
            popFrame(s);
            unwind(s, exc, false);
            return;
        }
        case Instruction::Fence: f.pc++; return;
        case Instruction::AtomicRMW: {
            auto* rm = cast<AtomicRMWInst>(I);
            Val p = getOp(s, f, ii, 0), v = getOp(s, f, ii, 1), old, nv;
            if (!loadTy(s, p, I->getType(), old)) return;
            switch (rm->getOperation()) {
                case AtomicRMWInst::Xchg: nv = v; break;
                case AtomicRMWInst::Add: if (!binop(s, Instruction::Add, old, v, nv)) return; break;
                case AtomicRMWInst::Sub: if (!binop(s, Instruction::Sub, old, v, nv)) return; break;
                case AtomicRMWInst::And: if (!binop(s, Instruction::And, old, v, nv)) return; break;
                case AtomicRMWInst::Or: if (!binop(s, Instruction::Or, old, v, nv)) return; break;
                case AtomicRMWInst::Xor: if (!binop(s, Instruction::Xor, old, v, nv)) return; break;
                default: unsupported(s, "atomicrmw"); return;
            }
            if (!storeTy(s, p, nv, I->getType())) return;
            Frame& g = s.F();
            g.regs[ii.dst] = old; g.pc++;
            return;
        }
        case Instruction::AtomicCmpXchg: {
            Val p = getOp(s, f, ii, 0), e = getOp(s, f, ii, 1), nv = getOp(s, f, ii, 2), old;
            Type* t = I->getOperand(1)->getType();
            if (!loadTy(s, p, t, old)) return;
            Val eq = icmp(CmpInst::ICMP_EQ, old, e);
            Val w = eq.isC() ? (eq.c ? nv : old) : iteVal(eq.boolean(), nv, old);
            if (!storeTy(s, p, w, t)) return;
            Frame& g = s.F();
            g.regs[ii.dst] = Val::aggv({old, eq}); g.pc++;
            return;
        }
        case Instruction::VAArg: unsupported(s, "va_arg"); return;
        default: break;
    }
    if (Instruction::isBinaryOp(ii.op)) {
        Val r;
        bool fpop = ii.op == Instruction::FAdd || ii.op == Instruction::FSub || ii.op == Instruction::FMul || ii.op == Instruction::FDiv || ii.op == Instruction::FRem;
        if (fpop ? !fbinop(s, ii.op, getOp(s, f, ii, 0), getOp(s, f, ii, 1), r) : !binop(s, ii.op, getOp(s, f, ii, 0), getOp(s, f, ii, 1), r)) return;
        setDst(r);
        return;
    }
    if (Instruction::isCast(ii.op)) {
        Val r;
        if (!castop(s, ii.op, getOp(s, f, ii, 0), I->getOperand(0)->getType(), I->getType(), r)) return;
        setDst(r);
        return;
    }
    unsupported(s, std::string("instruction ") + I->getOpcodeName());
}
#include "intrinsics.inc"
