// symx: bounded symbolic execution of LLVM bitcode, decided by z3.
#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <fstream>
#include <iostream>
#include <cstdio>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>

typedef std::chrono::steady_clock Clk;
static double now() { return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

struct Opts {
    std::string file, entry = "harness", out = "/dev/stdout", repo = "/repo/";
    double maxTime = 300; uint64_t maxSteps = 20000000; uint64_t maxPaths = 10000000;
    unsigned solverMs = 60000; unsigned maxErrors = 8; unsigned samples = 8; int caseNo = 0;
    unsigned maxDepth = 100000; bool verbose = false; unsigned enumCap = 64; bool progress = false;
    uint64_t seed = 1; double afterError = 0; bool noLin = false;
} O;

struct Stats {
    uint64_t paths = 0, done = 0, assumeKilled = 0, errors = 0, limit = 0, forks = 0, insts = 0;
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, asserts = 0, assertsSym = 0, memChecks = 0, modelHits = 0, havocs = 0;
    double solver = 0;
} S;
static std::vector<std::string> inconclusive;
static std::set<std::string> reachedTags;
static std::vector<ErrorRec> errors;
static std::map<std::string, int> errorKeys;
static unsigned errorKeyCount = 0, stepLimits = 0;
static std::vector<std::string> sampleJson;
static Module* M;
static const DataLayout* DL;
static double tStart;

static void incon(const std::string& s) {
    if (inconclusive.size() < 20 && std::find(inconclusive.begin(), inconclusive.end(), s) == inconclusive.end()) inconclusive.push_back(s);
}

// ---------------------------------------------------------------- symbols
struct SymInfo { std::string name; unsigned w; Ex e; Z3_func_decl d; };
static std::vector<SymInfo> syms;
static std::map<std::string, int> symByName;
static std::unordered_map<unsigned, int> symByAst;
static int getSym(const std::string& name, unsigned w) {
    auto it = symByName.find(name);
    if (it != symByName.end()) return it->second;
    int id = syms.size();
    Ex e(Z3_mk_const(C, Z3_mk_string_symbol(C, name.c_str()), Z3_mk_bv_sort(C, w)));
    Z3_func_decl d = Z3_get_app_decl(C, Z3_to_app(C, e.a));
    syms.push_back({name, w, e, d});
    symByName[name] = id;
    symByAst[e.id()] = id;
    return id;
}
static int freshSym(State& s, const std::string& base, unsigned w) {
    int k = s.nameCount[base]++;
    return getSym(base + "!" + std::to_string(k) + "." + std::to_string(w), w);
}
struct SymSet { std::vector<int> v; bool fp; };
static std::unordered_map<unsigned, std::pair<Ex, SymSet>> symSetCache;
static const SymSet& symSet(const Ex& e) {
    unsigned id = e.id();
    auto it = symSetCache.find(id);
    if (it != symSetCache.end()) return it->second.second;
    // iterative post-order
    std::vector<Ex> stack{e};
    while (!stack.empty()) {
        Ex x = stack.back();
        unsigned xid = x.id();
        if (symSetCache.count(xid)) { stack.pop_back(); continue; }
        SymSet r; r.fp = false;
        if (Z3_get_ast_kind(C, x.a) == Z3_APP_AST) {
            auto sb = symByAst.find(xid);
            if (sb != symByAst.end()) { r.v.push_back(sb->second); symSetCache[xid] = {x, r}; stack.pop_back(); continue; }
            unsigned n = Z3_get_app_num_args(C, Z3_to_app(C, x.a));
            bool ready = true;
            for (unsigned i = 0; i < n; i++) {
                Ex c(Z3_get_app_arg(C, Z3_to_app(C, x.a), i));
                if (!symSetCache.count(c.id())) { stack.push_back(c); ready = false; }
            }
            if (!ready) continue;
            r.fp = isFPs(x);
            for (unsigned i = 0; i < n; i++) {
                Ex c(Z3_get_app_arg(C, Z3_to_app(C, x.a), i));
                auto& cs = symSetCache[c.id()].second;
                r.fp |= cs.fp;
                if (cs.v.empty()) continue;
                if (r.v.empty()) r.v = cs.v;
                else {
                    std::vector<int> m;
                    std::set_union(r.v.begin(), r.v.end(), cs.v.begin(), cs.v.end(), std::back_inserter(m));
                    r.v.swap(m);
                }
            }
        }
        symSetCache[xid] = {x, r};
        stack.pop_back();
    }
    return symSetCache[id].second;
}

// ---------------------------------------------------------------- models and solver
static Z3_model buildModel(ModelBox& mb) {
    if (mb.m) return mb.m;
    mb.m = Z3_mk_model(C);
    Z3_model_inc_ref(C, mb.m);
    for (auto& kv : mb.a) {
        Ex v = bvc(kv.second, syms[kv.first].w);
        Z3_add_const_interp(C, mb.m, syms[kv.first].d, v.a);
    }
    return mb.m;
}
static Ex evalModel(const ModelP& mp, const Ex& e) {
    Z3_ast r;
    if (!Z3_model_eval(C, buildModel(*mp), e.a, true, &r)) return Ex();
    return Ex(r);
}
static bool evalBool(const ModelP& mp, const Ex& e, bool& ok) {
    Ex r = evalModel(mp, e);
    ok = r && (isTrue(r) || isFalse(r));
    return ok && isTrue(r);
}
static bool evalU64(const ModelP& mp, const Val& v, uint64_t& out) {
    if (v.isC()) { out = v.c; return true; }
    Ex r = evalModel(mp, v.bv());
    if (!r) return false;
    if (bvNum(r, out)) return true;
    r = exSimplify(r);
    return bvNum(r, out);
}
enum QR { UNSAT, SAT, UNK };
struct CacheEnt { QR r; Assign a; std::vector<Ex> keep; };
struct VecHash { size_t operator()(const std::vector<unsigned>& v) const { size_t h = v.size(); for (unsigned x : v) h = h * 1000003u ^ x; return h; } };
static std::unordered_map<std::vector<unsigned>, CacheEnt, VecHash> qcache;

static QR solve(const std::vector<Ex>& cs, bool fp, const std::vector<int>& need, Assign& out) {
    double t0 = now();
    S.queries++;
    Z3_solver sol;
    if (fp) {
        Z3_tactic t = Z3_mk_tactic(C, "qffp");
        Z3_tactic_inc_ref(C, t);
        sol = Z3_mk_solver_from_tactic(C, t);
        Z3_solver_inc_ref(C, sol);
        Z3_tactic_dec_ref(C, t);
    } else {
        static Z3_tactic t = nullptr;
        if (!t) { t = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, t); }
        sol = Z3_mk_solver_from_tactic(C, t);
        Z3_solver_inc_ref(C, sol);
    }
    double remaining = O.maxTime - (now() - tStart);
    unsigned ms = std::min<double>(O.solverMs, std::max<double>(remaining, 1) * 1000);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
    Z3_solver_set_params(C, sol, p);
    Z3_params_dec_ref(C, p);
    for (auto& c : cs) Z3_solver_assert(C, sol, c.a);
    Z3_lbool r = Z3_solver_check(C, sol);
    QR res = UNK;
    if (r == Z3_L_TRUE) {
        res = SAT;
        Z3_model m = Z3_solver_get_model(C, sol);
        Z3_model_inc_ref(C, m);
        for (int id : need) {
            Z3_ast v;
            if (Z3_model_eval(C, m, syms[id].e.a, true, &v)) {
                Ex ev(v); uint64_t x = 0;
                if (bvNum(ev, x)) out[id] = x;
            }
        }
        Z3_model_dec_ref(C, m);
        S.sat++;
    } else if (r == Z3_L_FALSE) { res = UNSAT; S.unsat++; }
    else S.unknown++;
    double dt = now() - t0;
    if (dt > 2 && getenv("SYMX_DUMP")) {
        static int nd = 0;
        FILE* f = fopen((std::string(getenv("SYMX_DUMP")) + "/q" + std::to_string(nd++) + ".smt2").c_str(), "w");
        if (f) { fprintf(f, "; %.1fs r=%d fp=%d\n%s\n(check-sat)\n", dt, (int)res, (int)fp, Z3_solver_to_string(C, sol)); fclose(f); }
    }
    Z3_solver_dec_ref(C, sol);
    S.solver += dt;
    if (O.verbose && dt > 1) fprintf(stderr, "slow query %.2fs r=%d n=%zu fp=%d\n", dt, (int)res, cs.size(), (int)fp);
    return res;
}
// is PC /\ cond satisfiable?  on SAT, mout = full model (slice merged into the state's model)
static QR check(State& s, const Ex& cond0, ModelP* mout) {
    Ex cond = cond0;
    if (isTrue(cond)) { if (mout) *mout = s.model; return SAT; }
    if (isFalse(cond)) return UNSAT;
    bool ok;
    if (evalBool(s.model, cond, ok) && ok) { S.modelHits++; if (mout) *mout = s.model; return SAT; }
    const SymSet& cs = symSet(cond);
    std::vector<char> inS(syms.size(), 0);
    std::vector<int> work;
    for (int v : cs.v) { inS[v] = 1; work.push_back(v); }
    std::vector<char> used(s.pc.size(), 0);
    bool changed = true, fp = cs.fp;
    std::vector<Ex> q;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < s.pc.size(); i++) {
            if (used[i]) continue;
            bool hit = false;
            for (int v : *s.pc[i].syms) if (inS[v]) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; changed = true; fp |= s.pc[i].fp;
            for (int v : *s.pc[i].syms) if (!inS[v]) { inS[v] = 1; work.push_back(v); }
        }
    }
    std::vector<unsigned> key;
    for (size_t i = 0; i < s.pc.size(); i++) if (used[i]) { q.push_back(s.pc[i].e); key.push_back(s.pc[i].e.id()); }
    q.push_back(cond);
    key.push_back(cond.id());
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = qcache.find(key);
    if (it == qcache.end()) {
        CacheEnt ce;
        ce.r = solve(q, fp, work, ce.a);
        ce.keep = q;
        it = qcache.emplace(key, std::move(ce)).first;
        if (it->second.r == UNK) { qcache.erase(it); incon("solver returned unknown (timeout)"); return UNK; }
    } else S.cacheHits++;
    if (it->second.r == SAT && mout) {
        auto nm = std::make_shared<ModelBox>();
        nm->a = s.model->a;
        for (auto& kv : it->second.a) nm->a[kv.first] = kv.second;
        *mout = nm;
    }
    return it->second.r;
}
static void addPC(State& s, const Ex& e) {
    if (isTrue(e)) return;
    const SymSet& ss = symSet(e);
    for (auto& c : s.pc) if (c.e.a == e.a) return;
    s.pc.push_back({e, &ss.v, ss.fp});
}

// ---------------------------------------------------------------- engine core
static std::vector<StateP> work;
static StateP curState;
static std::unordered_map<const Function*, FnInfo*> fnInfos;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function*> addrFn;
static std::unordered_map<const Constant*, Val> constCache;

static unsigned bitsOf(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static State* cloneState(State& s) {
    S.forks++;
    State* n = new State(s);
    n->depth++;
    return n;
}
static void push(State* n) { work.emplace_back(n); }

static std::string locOf(State& s, std::string* func = nullptr, std::string* stack = nullptr) {
    std::string loc;
    auto& st = s.T().st;
    bool first = true;
    std::string repoLoc, repoFn;
    for (int i = (int)st.size() - 1; i >= 0; i--) {
        Frame& f = *st[i];
        int pcx = f.pc;
        if (pcx >= (int)f.fn->blocks[f.bb].insts.size()) pcx = f.fn->blocks[f.bb].insts.size() - 1;
        Instruction* I = f.fn->blocks[f.bb].insts[pcx].I;
        std::string l;
        if (const DILocation* d = I->getDebugLoc().get()) {
            // innermost inlined location, then walk out to repo code
            const DILocation* x = d;
            while (x) {
                std::string fn = x->getScope()->getFilename().str();
                std::string dir = x->getScope()->getDirectory().str();
                std::string full = (!fn.empty() && fn[0] == '/') ? fn : dir + "/" + fn;
                std::string one = full + ":" + std::to_string(x->getLine());
                std::string sub = x->getScope()->getSubprogram() ? x->getScope()->getSubprogram()->getName().str() : "";
                if (l.empty()) l = one;
                if (repoLoc.empty() && full.compare(0, O.repo.size(), O.repo) == 0) { repoLoc = one; repoFn = sub; }
                if (stack) *stack += (stack->empty() ? "" : " <- ") + sub + "@" + full.substr(full.rfind('/') + 1) + ":" + std::to_string(x->getLine());
                x = x->getInlinedAt();
            }
        } else if (stack) *stack += (stack->empty() ? "" : " <- ") + demangle(f.fn->F->getName().str()).substr(0, 80);
        if (first) { loc = l; first = false; if (func) *func = f.fn->F->getName().str(); }
    }
    if (!repoLoc.empty()) { if (func) *func = repoFn; return repoLoc; }
    return loc;
}
static std::vector<std::pair<std::string, uint64_t>> inputsOf(State& s, const ModelP& m) {
    std::vector<std::pair<std::string, uint64_t>> r;
    for (auto& in : s.inputs) {
        for (int k = 0; k < in.n; k++) {
            uint64_t v = in.conc;
            if (in.sym >= 0) { auto it = m->a.find(in.sym + k); v = (it == m->a.end() ? 0 : it->second) + in.conc; }
            r.push_back({(in.sched ? "@" : "") + in.name, v});
        }
    }
    return r;
}
static void report(State& s, const std::string& kind, const std::string& msg, const ModelP& m) {
    S.errors++;
    ErrorRec e;
    e.kind = kind; e.msg = msg;
    e.loc = locOf(s, &e.func, &e.stack);
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : e.loc);
    int seen = errorKeys[key]++;
    if (kind == "step-limit") { if (++stepLimits >= 4) O.maxTime = 0; }
    if (seen == 0) errorKeyCount++;
    if (seen >= 3) return;
    if (errors.empty() && O.afterError > 0) O.maxTime = std::min(O.maxTime, now() - tStart + O.afterError);
    e.inputs = inputsOf(s, m);
    if (e.stack.size() > 3000) e.stack.resize(3000);
    errors.push_back(e);
    if (O.verbose) fprintf(stderr, "ERROR %s: %s at %s [%s]\n", kind.c_str(), msg.c_str(), e.loc.c_str(), e.stack.c_str());
}
static void kill(State& s) { s.done = true; }
static void fatalPath(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, s.model); kill(s); }
static void unsupported(State& s, const std::string& msg) {
    std::string st;
    std::string l = locOf(s, nullptr, &st);
    incon("unsupported: " + msg + " at " + l + " [" + st.substr(0, 600) + "]");
    kill(s);
}
// add a constraint known to be consistent with model m
static void constrain(State& s, const Ex& e, const ModelP& m) { addPC(s, e); s.model = m; }

// returns false if the path died
static bool assumeC(State& s, const Ex& e) {
    if (isTrue(e)) return true;
    ModelP m;
    QR r = check(s, e, &m);
    if (r != SAT) { if (r == UNSAT) S.assumeKilled++; kill(s); return false; }
    constrain(s, e, m);
    return true;
}
// check that cond must hold; report otherwise; continue with cond assumed
static bool mustHold(State& s, const Ex& cond, const std::string& kind, const std::string& msg) {
    if (isTrue(cond)) return true;
    ModelP m;
    QR r = check(s, exNot(cond), &m);
    if (r == SAT) report(s, kind, msg, m);
    if (r == UNSAT) return true;
    return assumeC(s, cond);
}
// unique-ify a symbolic value: forks the state; returns concrete value in this state
static bool concretize(State& s, const Val& v, uint64_t& out) {
    if (v.isC()) { out = v.c; return true; }
    if (!evalU64(s.model, v, out)) { unsupported(s, "cannot evaluate value"); return false; }
    Ex eq = exEq(v.bv(), bvc(out, v.w));
    ModelP m;
    QR r = check(s, exNot(eq), &m);
    if (r == SAT) {
        State* n = cloneState(s);
        constrain(*n, exNot(eq), m);
        push(n);
    }
    addPC(s, eq);
    return true;
}

// ---------------------------------------------------------------- memory
static uint64_t allocObj(State& s, uint64_t size, ObjKind k, const std::string& name, uint8_t def = 0) {
    auto o = std::make_shared<Object>();
    o->size = size; o->kind = k; o->name = name; o->defKind = def;
    if (k == OK_HEAP) s.liveHeap++;
    return baseAddr(s.mem.add(o));
}
struct Res { uint64_t id; bool conc; uint64_t off; Ex offE; };

static std::string hexs(uint64_t v) { char b[32]; snprintf(b, 32, "0x%lx", v); return b; }

// resolve an access of n bytes.  false: path ended or was killed.
static bool resolve(State& s, const Val& p, uint64_t n, bool write, Res& r, const char* what = nullptr) {
    uint64_t cp;
    if (p.isC()) cp = p.c;
    else {
        if (!evalU64(s.model, p, cp)) { unsupported(s, "symbolic pointer"); return false; }
        uint64_t id = addrId(cp);
        Ex pe = p.bv();
        Ex top = exExtract(63, SLOT_BITS, pe);
        Ex same = exEq(top, bvc(id, 64 - SLOT_BITS));
        ModelP m;
        QR q = check(s, exNot(same), &m);
        if (q == SAT) {
            State* c = cloneState(s);
            constrain(*c, exNot(same), m);
            push(c);
        }
        addPC(s, same);
    }
    uint64_t id = addrId(cp);
    Object* o = s.mem.get(id);
    const char* acc = write ? "write" : "read";
    if (cp < 65536 || id == 0) {
        fatalPath(s, "null-deref", std::string("null pointer ") + acc);
        return false;
    }
    if (!o) { fatalPath(s, "bad-pointer", std::string("wild pointer ") + acc); return false; }
    if (o->kind == OK_FUNC) { fatalPath(s, "bad-pointer", std::string("function address ") + acc); return false; }
    if (o->freed) { fatalPath(s, "use-after-free", std::string("use of freed or dead object ") + acc); return false; }
    if (write && o->ro) { fatalPath(s, "write-const", "write to constant object"); return false; }
    r.id = id;
    if (p.isC() && !o->symSize) {
        int64_t off = addrOff(cp);
        S.memChecks++;
        if (off < 0 || (uint64_t)off + n > o->size) {
            fatalPath(s, std::string("oob-") + acc, std::string("out-of-bounds ") + acc);
            if (O.verbose) fprintf(stderr, "  off=%ld n=%lu size=%lu obj=%s\n", off, n, o->size, o->name.c_str());
            return false;
        }
        r.conc = true; r.off = off;
        return true;
    }
    Ex pe = p.bv();
    Ex off = Ex(Z3_mk_bvsub(C, pe.a, bvc(baseAddr(id), 64).a));
    if (p.isC()) off = bvc(cp - baseAddr(id), 64);
    Ex ok;
    if (o->symSize) {
        // off + n <= size, no wrap (sizes < 2^32)
        Ex sum = Ex(Z3_mk_bvadd(C, off.a, bvc(n, 64).a));
        ok = exAnd(Ex(Z3_mk_bvule(C, sum.a, o->symSize.a)), Ex(Z3_mk_bvule(C, off.a, bvc(0xffffffffull, 64).a)));
    } else {
        if (o->size < n) { fatalPath(s, std::string("oob-") + acc, std::string("out-of-bounds ") + acc); return false; }
        ok = Ex(Z3_mk_bvule(C, off.a, bvc(o->size - n, 64).a));
    }
    ok = exSimplify(ok);
    S.memChecks++;
    if (!mustHold(s, ok, std::string("oob-") + acc, std::string("out-of-bounds ") + acc)) return false;
    if (p.isC()) { r.conc = true; r.off = cp - baseAddr(id); return true; }
    off = exSimplify(off);
    uint64_t k;
    if (bvNum(off, k)) { r.conc = true; r.off = k; return true; }
    r.conc = false; r.offE = off;
    return true;
}
static SymByte byteOf(State& s, uint64_t id, uint64_t off, bool& conc, uint8_t& cv) {
    Object* o = s.mem.get(id);
    uint8_t k = o->kindAt(off);
    if (k == 1) { conc = true; cv = o->concAt(off); return {}; }
    conc = false;
    if (k == 2) return o->symAt(off);
    int y = freshSym(s, "uninit", 8);
    SymByte b{syms[y].e, 0, 1};
    s.mem.getW(id)->setSym(off, b);
    return b;
}
static Ex byteEx(const SymByte& b) {
    Ex e = b.e;
    if (isFPs(e)) e = fpToBv(e, b.n * 8);
    else if (isBool(e)) e = boolToBv(e, 8);
    if (b.n == 1) return e;
    return exExtract(b.idx * 8 + 7, b.idx * 8, e);
}
// read n bytes at concrete offset
static Val readBytes(State& s, uint64_t id, uint64_t off, unsigned n) {
    Object* o = s.mem.get(id);
    bool allc = true;
    for (unsigned i = 0; i < n; i++) if (o->kindAt(off + i) != 1) { allc = false; break; }
    if (allc && n <= 8) {
        uint64_t v = 0;
        for (unsigned i = 0; i < n; i++) v |= (uint64_t)o->concAt(off + i) << (8 * i);
        return Val::conc(v, n * 8);
    }
    // whole-expression fast path
    if (o->kindAt(off) == 2) {
        const SymByte b0 = o->symAt(off);
        if (b0.idx == 0 && b0.n == n) {
            bool same = true;
            for (unsigned i = 1; i < n && same; i++) {
                if (o->kindAt(off + i) != 2) { same = false; break; }
                const SymByte& b = o->symAt(off + i);
                same = b.e.a == b0.e.a && b.idx == i;
            }
            if (same) return Val::sym(b0.e, n * 8);
        }
    }
    // uninitialised as a whole: one fresh symbol
    bool allU = n <= 8;
    for (unsigned i = 0; i < n && allU; i++) if (o->kindAt(off + i) != 0) allU = false;
    if (allU) {
        int y = freshSym(s, "uninit", n * 8);
        Object* ow = s.mem.getW(id);
        for (unsigned i = 0; i < n; i++) ow->setSym(off + i, {syms[y].e, i, n});
        return Val::sym(syms[y].e, n * 8);
    }
    Ex acc;
    // concat maximal runs of the same expression
    for (int i = (int)n - 1; i >= 0; ) {
        bool c; uint8_t cv = 0;
        SymByte b = byteOf(s, id, off + i, c, cv);
        Ex part;
        int lo = i;
        if (c) {
            part = bvc(cv, 8);
            lo = i;
        } else {
            int hiIdx = b.idx, loIdx = b.idx;
            while (lo > 0 && loIdx > 0) {
                bool c2; uint8_t cv2;
                SymByte b2 = byteOf(s, id, off + lo - 1, c2, cv2);
                if (c2 || b2.e.a != b.e.a || (int)b2.idx != loIdx - 1 || b2.n != b.n) break;
                lo--; loIdx--;
            }
            Ex e = b.e;
            if (isFPs(e)) e = fpToBv(e, b.n * 8);
            else if (isBool(e)) e = boolToBv(e, 8);
            part = exExtract(hiIdx * 8 + 7, loIdx * 8, e);
        }
        acc = acc ? exConcat(acc, part) : part;
        i = lo - 1;
    }
    return Val::sym(acc, n * 8);
}
static void writeBytes(State& s, uint64_t id, uint64_t off, const Val& v, unsigned n) {
    Object* o = s.mem.getW(id);
    if (v.isC() && n <= 8) {
        for (unsigned i = 0; i < n; i++) o->setConc(off + i, (uint8_t)(v.c >> (8 * i)));
        return;
    }
    Ex e = v.e;
    if (v.isC()) e = bvc(v.c, v.w);
    if (!isFPs(e)) {
        if (isBool(e)) e = boolToBv(e, 8 * n);
        else if (bvw(e) < n * 8) e = exZext(e, n * 8);
    }
    for (unsigned i = 0; i < n; i++) o->setSym(off + i, {e, i, n});
}
// feasible values of a symbolic offset, capped
static bool enumOffsets(State& s, const Ex& off, std::vector<uint64_t>& vals, unsigned cap) {
    Ex excl = exTrue();
    ModelP m = s.model;
    Val ov = Val::sym(off, 64);
    while (true) {
        uint64_t v;
        if (!evalU64(m, ov, v)) return false;
        vals.push_back(v);
        if (vals.size() > cap) return false;
        excl = exAnd(excl, exNot(exEq(off, bvc(v, 64))));
        QR r = check(s, excl, &m);
        if (r == UNSAT) break;
        if (r == UNK) return false;
    }
    std::sort(vals.begin(), vals.end());
    return true;
}
static Val iteVal(const Ex& c, const Val& a, const Val& b) {
    if (a.isAgg()) {
        std::vector<Val> r;
        for (size_t i = 0; i < a.agg->size(); i++) r.push_back(iteVal(c, (*a.agg)[i], (*b.agg)[i]));
        return Val::aggv(r);
    }
    if (a.isC() && b.isC() && a.c == b.c) return a;
    if (a.w == 1) return Val::sym(exIte(c, a.boolean(), b.boolean()), 1);
    bool fa = a.isS() && isFPs(a.e), fb = b.isS() && isFPs(b.e);
    if (fa || fb) return Val::sym(exIte(c, a.fp(), b.fp()), a.w);
    return Val::sym(exIte(c, a.bv(), b.bv()), a.w);
}
static bool readMem(State& s, const Val& p, unsigned n, Val& out) {
    Res r;
    if (!resolve(s, p, n, false, r)) return false;
    if (r.conc) { out = readBytes(s, r.id, r.off, n); return true; }
    std::vector<uint64_t> vals;
    if (!enumOffsets(s, r.offE, vals, O.enumCap)) {
        // all offsets of a small object
        Object* o = s.mem.get(r.id);
        if (o->size > 2048) {      // over-approximation: any value
            S.havocs++;
            out = Val::sym(syms[freshSym(s, "uninit", n * 8)].e, n * 8);
            return true;
        }
        vals.clear();
        for (uint64_t i = 0; i + n <= o->size; i++) vals.push_back(i);
    }
    out = readBytes(s, r.id, vals.back(), n);
    for (int i = (int)vals.size() - 2; i >= 0; i--)
        out = iteVal(exEq(r.offE, bvc(vals[i], 64)), readBytes(s, r.id, vals[i], n), out);
    return true;
}
static bool writeMem(State& s, const Val& p, const Val& v, unsigned n) {
    Res r;
    if (!resolve(s, p, n, true, r)) return false;
    if (r.conc) { writeBytes(s, r.id, r.off, v, n); return true; }
    std::vector<uint64_t> vals;
    if (!enumOffsets(s, r.offE, vals, O.enumCap)) {
        Object* o = s.mem.get(r.id);
        if (o->size > 512) { S.havocs++; Object* w = s.mem.getW(r.id); w->pages.clear(); w->defKind = 0; return true; }   // contents become arbitrary
        vals.clear();
        for (uint64_t i = 0; i + n <= o->size; i++) vals.push_back(i);
    }
    for (uint64_t off : vals) {
        Val old = readBytes(s, r.id, off, n);
        writeBytes(s, r.id, off, iteVal(exEq(r.offE, bvc(off, 64)), v, old), n);
    }
    return true;
}
// typed load/store
static bool loadTy(State& s, const Val& p, Type* t, Val& out);
static Val ptrAdd(const Val& p, uint64_t k) {
    if (k == 0) return p;
    if (p.isC()) return Val::conc(p.c + k, 64);
    return Val::sym(Ex(Z3_mk_bvadd(C, p.bv().a, bvc(k, 64).a)), 64);
}
static Val truncV(const Val& v, unsigned w);
static bool loadTy(State& s, const Val& p, Type* t, Val& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
        std::vector<Val> r(st->getNumElements());
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < r.size(); i++) if (!loadTy(s, ptrAdd(p, sl->getElementOffset(i)), st->getElementType(i), r[i])) return false;
        out = Val::aggv(r);
        return true;
    }
    if (t->isArrayTy() || isa<FixedVectorType>(t)) {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t es = DL->getTypeAllocSize(et);
        std::vector<Val> r(n);
        for (unsigned i = 0; i < n; i++) if (!loadTy(s, ptrAdd(p, es * i), et, r[i])) return false;
        out = Val::aggv(r);
        return true;
    }
    unsigned w = bitsOf(t), n = DL->getTypeStoreSize(t);
    if (!readMem(s, p, n, out)) return false;
    if (out.w != w) out = truncV(out, w);
    return true;
}
static bool storeTy(State& s, const Val& p, const Val& v, Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) if (!storeTy(s, ptrAdd(p, sl->getElementOffset(i)), (*v.agg)[i], st->getElementType(i))) return false;
        return true;
    }
    if (t->isArrayTy() || isa<FixedVectorType>(t)) {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        uint64_t es = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < v.agg->size(); i++) if (!storeTy(s, ptrAdd(p, es * i), (*v.agg)[i], et)) return false;
        return true;
    }
    return writeMem(s, p, v, DL->getTypeStoreSize(t));
}
// concrete-range copy
static void copyBytes(State& s, uint64_t di, uint64_t doff, uint64_t si, uint64_t soff, uint64_t n) {
    if (!n) return;
    bool back = di == si && doff > soff;
    Object* d = s.mem.getW(di);
    Object* o = di == si ? d : s.mem.get(si);
    for (uint64_t k = 0; k < n; k++) {
        uint64_t i = back ? n - 1 - k : k;
        uint8_t kd = o->kindAt(soff + i);
        if (kd == 1) d->setConc(doff + i, o->concAt(soff + i));
        else if (kd == 2) { SymByte b = o->symAt(soff + i); d->setSym(doff + i, b); }
        else {
            // give the source byte an identity so that both copies agree
            int y = freshSym(s, "uninit", 8);
            SymByte b{syms[y].e, 0, 1};
            if (di == si) d->setSym(soff + i, b); else { s.mem.getW(si)->setSym(soff + i, b); o = s.mem.get(si); d = s.mem.getW(di); }
            d->setSym(doff + i, b);
        }
    }
}
static const uint64_t SYMLEN_CAP = 4096;
// upper bound of a symbolic value by binary search
static bool maxOf(State& s, const Val& v, uint64_t& hi, uint64_t cap) {
    uint64_t cur;
    if (!evalU64(s.model, v, cur)) return false;
    Ex e = v.bv();
    ModelP m;
    QR r = check(s, Ex(Z3_mk_bvugt(C, e.a, bvc(cap, v.w).a)), &m);
    if (r != UNSAT) return false;
    uint64_t lo = cur; hi = cap;       // max in [lo,hi]
    while (lo < hi) {
        uint64_t mid = lo + (hi - lo) / 2;
        r = check(s, Ex(Z3_mk_bvugt(C, e.a, bvc(mid, v.w).a)), &m);
        if (r == UNK) return false;
        if (r == UNSAT) hi = mid;
        else { uint64_t x; if (!evalU64(m, v, x)) return false; lo = std::max(x, mid + 1); }
    }
    return true;
}
static bool inBounds(State& s, const Val& p, const Val& n, bool write, Res& r) {
    // n symbolic: resolve base with size 0, then check off+n <= size
    if (!resolve(s, p, 0, write, r)) return false;
    Object* o = s.mem.get(r.id);
    Ex off = r.conc ? bvc(r.off, 64) : r.offE;
    Ex sz = o->symSize ? o->symSize : bvc(o->size, 64);
    Ex nn = n.bv();
    Ex ok = exAnd(Ex(Z3_mk_bvule(C, nn.a, sz.a)), Ex(Z3_mk_bvule(C, off.a, Ex(Z3_mk_bvsub(C, sz.a, nn.a)).a)));
    ok = exSimplify(ok);
    const char* acc = write ? "write" : "read";
    return mustHold(s, ok, std::string("oob-") + acc, std::string("out-of-bounds ") + acc + " (block)");
}
static bool memCopy(State& s, const Val& d, const Val& src, const Val& n) {
    if (n.isC()) {
        if (n.c == 0) return true;
        Res rs, rd;
        if (!resolve(s, src, n.c, false, rs)) return false;
        if (!resolve(s, d, n.c, true, rd)) return false;
        if (rs.conc && rd.conc) { copyBytes(s, rd.id, rd.off, rs.id, rs.off, n.c); return true; }
        if (n.c > 256) {
            // pin the offsets instead
            uint64_t x;
            if (!rs.conc) { if (!concretize(s, Val::sym(rs.offE, 64), x)) return false; rs.off = x; }
            if (!rd.conc) { if (!concretize(s, Val::sym(rd.offE, 64), x)) return false; rd.off = x; }
            copyBytes(s, rd.id, rd.off, rs.id, rs.off, n.c);
            return true;
        }
        std::vector<Val> tmp(n.c);
        for (uint64_t i = 0; i < n.c; i++) if (!readMem(s, ptrAdd(src, i), 1, tmp[i])) return false;
        for (uint64_t i = 0; i < n.c; i++) if (!writeMem(s, ptrAdd(d, i), tmp[i], 1)) return false;
        return true;
    }
    // zero length is always fine: split it off when the pointers may be bad
    Res rs, rd;
    ModelP m;
    {
        Ex z = exEq(n.bv(), bvc(0, n.w));
        QR r = check(s, z, &m);
        if (r == SAT) {
            bool mustZ = check(s, exNot(z), nullptr) == UNSAT;
            if (mustZ) return true;
        }
        if ((src.isC() && src.c < 65536) || (d.isC() && d.c < 65536))
            return mustHold(s, z, "null-deref", "null pointer in block copy");
    }
    if (!inBounds(s, src, n, false, rs)) return false;
    if (!inBounds(s, d, n, true, rd)) return false;
    uint64_t hi;
    if (!rs.conc || !rd.conc || !maxOf(s, n, hi, SYMLEN_CAP)) {
        // fall back to one path per length
        uint64_t x;
        std::vector<uint64_t> vals;
        if (!enumOffsets(s, n.bv(), vals, 128)) {
            if (rd.id == rs.id) { unsupported(s, "block copy with unbounded symbolic length"); return false; }
            Object* o = s.mem.getW(rd.id); o->pages.clear(); o->defKind = 0; S.havocs++;    // contents become arbitrary
            return true;
        }
        if (!concretize(s, n, x)) return false;
        return memCopy(s, d, src, Val::conc(x, 64));
    }
    std::vector<Val> tmp(hi);
    for (uint64_t i = 0; i < hi; i++) tmp[i] = readBytes(s, rs.id, rs.off + i, 1);
    Ex ne = n.bv();
    for (uint64_t i = 0; i < hi; i++) {
        Ex c = exSimplify(Ex(Z3_mk_bvugt(C, ne.a, bvc(i, n.w).a)));
        if (rd.off + i >= s.mem.get(rd.id)->size && !s.mem.get(rd.id)->symSize) break;
        Val old = readBytes(s, rd.id, rd.off + i, 1);
        writeBytes(s, rd.id, rd.off + i, iteVal(c, tmp[i], old), 1);
    }
    return true;
}
static bool memSet(State& s, const Val& d, const Val& v, const Val& n) {
    if (n.isC()) {
        if (n.c == 0) return true;
        Res r;
        if (!resolve(s, d, n.c, true, r)) return false;
        if (!r.conc) { uint64_t x; if (!concretize(s, Val::sym(r.offE, 64), x)) return false; r.off = x; }
        Object* o = s.mem.getW(r.id);
        if (v.isC() && v.c == 0 && r.off == 0 && n.c == o->size && n.c > PSZ) { o->pages.clear(); o->defKind = 1; return true; }
        for (uint64_t i = 0; i < n.c; i++) writeBytes(s, r.id, r.off + i, v, 1);
        return true;
    }
    Res r;
    if (!inBounds(s, d, n, true, r)) return false;
    uint64_t hi;
    if (!r.conc || !maxOf(s, n, hi, SYMLEN_CAP)) {
        uint64_t x;
        std::vector<uint64_t> vals;
        Object* o0 = s.mem.get(r.id);
        if (r.conc && r.off == 0 && o0->symSize && v.isC() && (o0->symSize.a == n.bv().a || check(s, exNot(exEq(n.bv(), o0->symSize)), nullptr) == UNSAT)) {
            Object* o = s.mem.getW(r.id);      // the whole object is filled
            o->pages.clear(); o->defKind = v.c == 0 ? 1 : 0;
            return true;
        }
        if (!enumOffsets(s, n.bv(), vals, 16)) { Object* o = s.mem.getW(r.id); o->pages.clear(); o->defKind = 0; S.havocs++; return true; }   // contents become arbitrary
        if (!concretize(s, n, x)) return false;
        return memSet(s, d, v, Val::conc(x, 64));
    }
    Ex ne = n.bv();
    for (uint64_t i = 0; i < hi; i++) {
        Ex c = exSimplify(Ex(Z3_mk_bvugt(C, ne.a, bvc(i, n.w).a)));
        if (r.off + i >= s.mem.get(r.id)->size) break;
        Val old = readBytes(s, r.id, r.off + i, 1);
        writeBytes(s, r.id, r.off + i, iteVal(c, v, old), 1);
    }
    return true;
}
static bool freeObj(State& s, const Val& pv, const char* what) {
    uint64_t p;
    if (!concretize(s, pv, p)) return false;
    if (p == 0) return true;
    Object* o = s.mem.get(addrId(p));
    if (!o || o->kind != OK_HEAP || addrOff(p) != 0) { fatalPath(s, "bad-free", std::string("free of a pointer that is not a heap block (") + what + ")"); return false; }
    if (o->freed) { fatalPath(s, "double-free", "double free"); return false; }
    o = s.mem.getW(addrId(p));
    bool arr = !strcmp(what, "delete[]"), mal = !strcmp(what, "free");
    if (o->isNewArr != arr || o->isMalloc != mal) { fatalPath(s, "alloc-mismatch", std::string("deallocation by ") + what + " does not match allocation"); return false; }
    o->freed = true;
    o->pages.clear();
    s.liveHeap--;
    return true;
}
static bool readCStr(State& s, uint64_t p, std::string& out) {
    for (unsigned i = 0; i < 4096; i++) {
        Val v;
        if (!readMem(s, Val::conc(p + i, 64), 1, v)) return false;
        if (!v.isC()) { out += '?'; continue; }
        if (v.c == 0) return true;
        out += (char)v.c;
    }
    return true;
}
#include "lin.inc"
#include "ops.inc"
#include "exec.inc"
