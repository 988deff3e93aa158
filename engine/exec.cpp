#include <fcntl.h>
#include <sys/stat.h>
#include <time.h>
#include <poll.h>
#include <errno.h>
#include <sys/wait.h>
#include <unistd.h>
// xsym: symbolic executor over LLVM IR (one process per harness entry point).
#include "solver.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <math.h>
#include <deque>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

Pool P;
static Solver* SV;
static const DataLayout* DL;
static Module* MOD;

struct Agg;
struct Val { E e = nullptr; union { u64 c; const Agg* agg; }; Val() : c(0) {} explicit Val(u64 x) : c(x) {} };
struct Agg { std::vector<Val> f; };
static inline Val mkAgg(std::vector<Val> v) { Val r; r.agg = new Agg{std::move(v)}; return r; }
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
static inline Val fromE(E e) { Val r; if (e->k == K_CONST && e->w <= 64) r.c = (u64)e->v; else r.e = e; return r; }

enum OK : u8 { O_GLOBAL, O_STACK, O_NEW, O_NEWARR, O_MALLOC, O_EXC, O_FUNC };
struct Obj {
    u64 size = 0; OK kind = O_GLOBAL; bool alive = true, ro = false; u64 seq = 0;
    const Instruction* site = nullptr; const GlobalVariable* gv = nullptr; bool ext = false;
    std::vector<u8> b, st; std::vector<E> s;
    void init(u64 n, u8 state) { size = n; b.assign(n, 0); st.assign(n, state); }
};
struct Chunk { std::shared_ptr<Obj> o[64]; };
static const u64 BIAS = 0x40000000ull;
static inline u64 addrOf(u32 idx) { return ((u64)idx << 32) + BIAS; }

struct FnInfo;
struct Op { int slot = -1; Val v; };
struct PhiD { int dst; unsigned w; std::vector<std::pair<int, Op>> in; };
struct DI {
    const Instruction* I = nullptr; unsigned opc = 0; int dst = -1; unsigned w = 0, w2 = 0; bool agg = false;
    Type* ty = nullptr; std::vector<Op> ops;
    int64_t off = 0; std::vector<std::pair<Op, std::pair<int64_t, unsigned>>> scaled; // gep
    std::vector<int> succ; FnInfo* callee = nullptr; std::vector<std::pair<u64, int>> cases;
};
struct Blk { std::vector<PhiD> phis; std::vector<DI> ins; const BasicBlock* bb; bool hit = false; };
struct FnInfo { Function* F = nullptr; std::vector<Blk> blks; int nslots = 0; bool decoded = false; bool decl = false; int bid = -1; u64 calls = 0; std::string name; std::vector<unsigned> argw; };

struct Frame { FnInfo* fn; int blk = 0, ip = 0; std::vector<Val> regs; std::vector<u32> allocas; u32 freeOnRet = 0; bool ctorTop = false; std::vector<Val> varargs; };
struct ExcInfo { u64 ti, dtor; int handlers; bool rethrown; };
struct Input { std::string name; std::vector<E> bytes; };

struct State {
    std::vector<Frame> st;
    std::vector<std::shared_ptr<Chunk>> mem; u32 nobj = 0;
    std::vector<E> pc; Model model;
    std::vector<Input> inputs;
    std::map<u32, ExcInfo> exc; std::vector<u32> caught; int uncaught = 0;
    u64 steps = 0, seq = 0; u32 forks = 0;
    std::vector<std::string> reached;
    std::vector<std::pair<std::string, E>> obs;
    u32 frozen = 0; int locks = 0; // objects below index frozen are shared by readers; locks held or static initialisation in progress
    std::vector<E> due; // terms compared with themselves since the last assertion
};

struct Report { std::string kind, msg, fn, trace; std::vector<std::pair<std::string, std::vector<u8>>> inputs; };
struct Stop {}; // terminates the current path

static std::vector<Report> reports; static std::map<std::string, int> repCount;
static std::map<std::string, u64> incomplete;
static std::map<std::string, u64> reachCount;
static std::map<std::string, std::vector<std::pair<std::string, std::vector<u8>>>> reachModel;
static u64 nPaths = 0, nForks = 0, nInstr = 0, nAssert = 0, nAssertSolver = 0, nAssume = 0, nMemChecks = 0, nPruned = 0;
static double deadline; static u64 maxSteps = 30000000, maxReports = 24;
static std::vector<std::vector<std::pair<std::string, std::vector<u8>>>> pathModels; static std::vector<std::string> pathObs;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static std::vector<State*> work;
static std::map<const Function*, FnInfo*> fns;
static std::map<u32, Function*> fnByObj;
static std::map<const GlobalValue*, u64> gaddr;
static std::map<u64, int> typeIds;
static std::map<u64, const GlobalVariable*> gvByAddr;

// ------------------------------------------------------------------ memory
static Obj* objR(State& S, u32 idx) { if (idx == 0 || idx >= S.nobj) return nullptr; auto& c = S.mem[idx >> 6]; return c ? c->o[idx & 63].get() : nullptr; }
static Obj* objW(State& S, u32 idx)
{
    auto& c = S.mem[idx >> 6];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto& o = c->o[idx & 63];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o.get();
}
static u32 newObj(State& S, u64 size, OK kind, u8 init)
{
    u32 idx = S.nobj++;
    if ((idx >> 6) >= S.mem.size()) S.mem.push_back(std::make_shared<Chunk>());
    auto& c = S.mem[idx >> 6];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto o = std::make_shared<Obj>(); o->init(size, init); o->kind = kind; o->seq = S.seq++;
    c->o[idx & 63] = o; return idx;
}
static void killObj(State& S, u32 idx)
{
    Obj* o = objW(S, idx); o->alive = false;
    std::vector<u8>().swap(o->b); std::vector<u8>().swap(o->st); std::vector<E>().swap(o->s);
}

static std::string srcLoc(const Instruction* I)
{
    if (!I) return "?";
    if (const DebugLoc& dl = I->getDebugLoc())
    {
        std::string f = dl->getFilename().str(); size_t p = f.find("include/xtypes"); if (p != std::string::npos) f = f.substr(p);
        return f + ":" + std::to_string(dl.getLine());
    }
    return "?";
}
static std::string fnName(const Function* F)
{
    std::string n = demangle(F->getName().str());
    return n;
}
static std::string modelInputsStr(const State& S) { return ""; }
static std::vector<std::pair<std::string, std::vector<u8>>> inputsOf(State& S)
{
    std::vector<std::pair<std::string, std::vector<u8>>> r; P.newgen();
    for (auto& in : S.inputs) { std::vector<u8> b; for (E e : in.bytes) b.push_back((u8)P.eval_rec(e, S.model)); r.push_back({in.name, b}); }
    return r;
}
static std::string traceOf(State& S)
{
    std::string t; int n = 0;
    for (size_t i = S.st.size(); i-- > 0 && n < 14; ++n)
    {
        Frame& f = S.st[i]; const Instruction* I = nullptr;
        if (f.blk < (int)f.fn->blks.size() && f.ip < (int)f.fn->blks[f.blk].ins.size()) I = f.fn->blks[f.blk].ins[f.ip].I;
        std::string nm = fnName(f.fn->F); if (nm.size() > 140) nm = nm.substr(0, 140) + "...";
        t += (n ? " <- " : "") + nm + " (" + srcLoc(I) + ")";
    }
    return t;
}
static std::string innerFn(State& S)
{
    for (size_t i = S.st.size(); i-- > 0; ) { std::string n = fnName(S.st[i].fn->F); if (n.find("eprosima::") != std::string::npos) return n.substr(0, 200); }
    return S.st.empty() ? "?" : fnName(S.st.back().fn->F);
}
// After the first report of any process of this check the exploration goes on for a limited time only.
static std::string stopFile; static double stopGrace = 90;
static bool timeUp()
{
    double t = now(); if (t > deadline) return true;
    static double last = 0, seen = 0; if (stopFile.empty()) return false;
    if (!seen && t - last > 1) { last = t; struct stat sb; if (!stat(stopFile.c_str(), &sb)) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); seen = t - std::max(0.0, (ts.tv_sec - sb.st_mtim.tv_sec) + (ts.tv_nsec - sb.st_mtim.tv_nsec) / 1e9); if (!seen) seen = 1e-9; } }
    return seen && t > seen + stopGrace;
}
static void report(State& S, const std::string& kind, const std::string& msg)
{
    std::string in = innerFn(S), key = kind + "|" + msg + "|" + (kind == "assert" ? "" : in);
    if (repCount[key]++ >= 2 || reports.size() >= maxReports) return;
    Report r; r.kind = kind; r.msg = msg; r.fn = in; r.trace = traceOf(S); r.inputs = inputsOf(S);
    reports.push_back(r);
    if (!stopFile.empty()) { int fd = open(stopFile.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644); if (fd >= 0) close(fd); }
    if (getenv("XSYM_VERBOSE"))
    {
        fprintf(stderr, "REPORT %s: %s\n   in %s\n   trace %s\n", kind.c_str(), msg.c_str(), in.c_str(), r.trace.c_str());
        for (auto& i : r.inputs) { fprintf(stderr, "     %s =", i.first.c_str()); for (u8 b : i.second) fprintf(stderr, " %02x", b); fprintf(stderr, "\n"); }
    }
}
[[noreturn]] static void fail(State& S, const std::string& kind, const std::string& msg) { report(S, kind, msg); throw Stop(); }
[[noreturn]] static void incompl(State& S, const std::string& why)
{
    if (!incomplete[why]++ && getenv("XSYM_VERBOSE")) fprintf(stderr, "INCOMPLETE %s\n  trace %s\n", why.c_str(), traceOf(S).c_str());
    throw Stop();
}

static void addPC(State& S, E c) { if (c->k == K_CONST) return; for (E e : S.pc) if (e == c) return; S.pc.push_back(c); }

static u64 concretize(State& S, const Val& v, unsigned w)
{
    if (!v.e) return v.c;
    for (E e : S.pc) if (e->k == K_EQ && e->a == v.e && e->b->k == K_CONST) return (u64)e->b->v;
    u64 m = (u64)P.eval(v.e, S.model);
    E c = P.mkEq(v.e, P.cst(m, w)), nc = P.mkNot(c); Model om;
    SatRes r = SV->check(S.pc, nc, S.model, om);
    if (r == UNKNOWN) incomplete["solver timeout (concretisation)"]++;
    if (r == SAT)
    {
        if (work.size() > 20000) incompl(S, "too many pending paths");
        State* o = new State(S); o->pc.push_back(nc); o->model = om; work.push_back(o); ++nForks; ++S.forks; ++o->forks;
    }
    addPC(S, c);
    return m;
}
// decide a symbolic condition: returns taken direction, forks the other
static bool decide(State& S, E c)
{
    if (c->k == K_CONST) return c->v != 0;
    if (c->taint) { report(S, "uninit", "control flow depends on uninitialised memory at " + srcLoc(S.st.back().fn->blks[S.st.back().blk].ins[S.st.back().ip].I)); }
    E nc = P.mkNot(c);
    for (E e : S.pc) { if (e == c) return true; if (e == nc) return false; }
    bool t = P.eval(c, S.model) != 0; Model om;
    SatRes r = SV->check(S.pc, t ? nc : c, S.model, om);
    if (r == UNKNOWN) incomplete["solver timeout (branch)"]++;
    if (r == SAT)
    {
        if (work.size() > 20000) incompl(S, "too many pending paths");
        State* o = new State(S); o->pc.push_back(t ? nc : c); o->model = om; work.push_back(o); ++nForks; ++S.forks; ++o->forks;
    }
    addPC(S, t ? c : nc);
    return t;
}

static std::string objDesc(State& S, u32 idx)
{
    Obj* o = objR(S, idx); if (!o) return "unmapped";
    static const char* k[] = {"global", "stack object", "heap object (new)", "heap object (new[])", "heap object (malloc)", "exception object", "function"};
    return std::string(k[o->kind]) + " of " + std::to_string(o->size) + " bytes";
}
static bool atomicAccess = false;
struct AtomicScope { AtomicScope(bool on) { atomicAccess = on; } ~AtomicScope() { atomicAccess = false; } };
static void markReachable(State& S, std::vector<char>& mark, std::vector<u32>& q)
{
    while (!q.empty())
    {
        u32 i = q.back(); q.pop_back(); Obj* o = objR(S, i);
        for (u64 k = 0; k + 8 <= o->b.size(); k += 8)
        {
            u64 p; memcpy(&p, o->b.data() + k, 8); u32 t = p >> 32;
            if (t && t < S.nobj && !mark[t]) { Obj* x = objR(S, t); if (x && x->alive) { mark[t] = 1; q.push_back(t); } }
        }
    }
}
static void checkFrozen(State& S, u32 idx, Obj* o)
{
    if (S.locks > 0 || o->kind == O_STACK || o->kind == O_EXC || (o->gv && o->gv->isThreadLocal())) return;
    std::vector<char> mark(S.nobj, 0); std::vector<u32> q; // memory of thread-local objects
    for (u32 i = 1; i < S.nobj; ++i) { Obj* g = objR(S, i); if (g && g->gv && g->gv->isThreadLocal()) { mark[i] = 1; q.push_back(i); } }
    if (!q.empty()) { markReachable(S, mark, q); if (mark[idx]) return; }
    fail(S, "race", "data shared by readers is written");
}
// resolve an access; result: object index and offset
static void resolve(State& S, const Val& p, u64 n, bool write, u32& idx, u64& off)
{
    u64 a = concretize(S, p, 64);
    ++nMemChecks;
    idx = (u32)(a >> 32); off = (u64)((int64_t)(a & 0xffffffffull) - (int64_t)BIAS);
    if (idx == 0) fail(S, "memory", a < 4096 ? "null pointer access" : "wild pointer access");
    Obj* o = objR(S, idx);
    if (!o) fail(S, "memory", "wild pointer access");
    if (!o->alive) fail(S, "memory", std::string(o->kind == O_STACK ? "use of a dead stack object" : "use after free") + (write ? " (write)" : " (read)"));
    if (o->kind == O_FUNC) fail(S, "memory", "data access to code");
    if (o->ext) { incompl(S, "access to external global " + (o->gv ? o->gv->getName().str() : std::string("?"))); }
    if (off > o->size || n > o->size - off) fail(S, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " on " + (o->kind == O_STACK ? "stack" : o->kind == O_GLOBAL ? "global" : "heap"));
    if (write && o->ro) fail(S, "memory", "write to read-only memory");
    if (write && idx < S.frozen && !atomicAccess) checkFrozen(S, idx, o);
}
static E byteE(State& S, u32 idx, u64 off)
{
    Obj* o = objR(S, idx);
    if (o->st[off] == 1) return P.cst(o->b[off], 8);
    if (o->st[off] == 2) return o->s[off];
    Obj* w = objW(S, idx);
    E v = P.var("undef" + std::to_string(P.vars.size()), 8, true); SV->varexprs.resize(P.vars.size()); SV->varexprs[P.vars.size() - 1] = v;
    if (w->s.empty()) w->s.assign(w->size, nullptr);
    w->s[off] = v; w->st[off] = 2; return v;
}
static Val loadInt(State& S, u32 idx, u64 off, unsigned w) // w bits
{
    unsigned n = (w + 7) / 8; Obj* o = objR(S, idx);
    if (n <= 8)
    {
        bool conc = true; const u8* st = o->st.data() + off;
        for (unsigned i = 0; i < n; ++i) if (st[i] != 1) { conc = false; break; }
        if (conc) { u64 x = 0; memcpy(&x, o->b.data() + off, n); return Val(x & m64(w)); }
    }
    E acc = byteE(S, idx, off);
    for (unsigned i = 1; i < n; ++i) acc = P.mkConcat(byteE(S, idx, off + i), acc);
    if (acc->w != w) acc = P.mkExtract(acc, 0, w);
    return fromE(acc);
}
static void storeInt(State& S, u32 idx, u64 off, const Val& v, unsigned w)
{
    unsigned n = (w + 7) / 8; Obj* o = objW(S, idx);
    if (!v.e) { u64 x = v.c; memcpy(o->b.data() + off, &x, std::min(n, 8u)); memset(o->st.data() + off, 1, n); return; }
    E e = v.e; if (e->w < n * 8) e = P.mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; ++i)
    {
        E x = P.mkExtract(e, i * 8, 8);
        if (x->k == K_CONST) { o->b[off + i] = (u8)x->v; o->st[off + i] = 1; }
        else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off + i] = x; o->st[off + i] = 2; }
    }
}
static unsigned tw(Type* t) { return (unsigned)DL->getTypeSizeInBits(t).getFixedValue(); }
static Val loadTy(State& S, u32 idx, u64 off, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t))
    { auto* sl = DL->getStructLayout(st); std::vector<Val> f; for (unsigned i = 0; i < st->getNumElements(); ++i) f.push_back(loadTy(S, idx, off + sl->getElementOffset(i), st->getElementType(i))); return mkAgg(f); }
    if (auto* at = dyn_cast<ArrayType>(t))
    { u64 sz = DL->getTypeAllocSize(at->getElementType()); std::vector<Val> f; for (u64 i = 0; i < at->getNumElements(); ++i) f.push_back(loadTy(S, idx, off + i * sz, at->getElementType())); return mkAgg(f); }
    if (auto* vt = dyn_cast<FixedVectorType>(t))
    { u64 sz = tw(vt->getElementType()) / 8; if (!sz) incompl(S, "bit vector type"); std::vector<Val> f; for (u64 i = 0; i < vt->getNumElements(); ++i) f.push_back(loadTy(S, idx, off + i * sz, vt->getElementType())); return mkAgg(f); }
    return loadInt(S, idx, off, tw(t));
}
static void storeTy(State& S, u32 idx, u64 off, const Val& v, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t))
    { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(S, idx, off + sl->getElementOffset(i), v.agg->f[i], st->getElementType(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(t))
    { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) storeTy(S, idx, off + i * sz, v.agg->f[i], at->getElementType()); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t))
    { u64 sz = tw(vt->getElementType()) / 8; if (!sz) incompl(S, "bit vector type"); for (u64 i = 0; i < vt->getNumElements(); ++i) storeTy(S, idx, off + i * sz, v.agg->f[i], vt->getElementType()); return; }
    storeInt(S, idx, off, v, tw(t));
}
static void copyBytes(State& S, u64 dst, u64 src, u64 n, bool mayOverlap)
{
    if (!n) return;
    u32 si, di; u64 so, dof;
    resolve(S, Val(src), n, false, si, so); resolve(S, Val(dst), n, true, di, dof);
    if (!mayOverlap && si == di && so != dof && so < dof + n && dof < so + n) report(S, "memory", "memcpy with overlapping ranges");
    if (si == di && so == dof) return;
    Obj* s = objR(S, si);
    std::vector<u8> b(s->b.begin() + so, s->b.begin() + so + n), st(s->st.begin() + so, s->st.begin() + so + n); std::vector<E> se;
    if (!s->s.empty()) se.assign(s->s.begin() + so, s->s.begin() + so + n);
    Obj* d = objW(S, di);
    memcpy(d->b.data() + dof, b.data(), n); memcpy(d->st.data() + dof, st.data(), n);
    if (!se.empty()) { if (d->s.empty()) d->s.assign(d->size, nullptr); std::copy(se.begin(), se.end(), d->s.begin() + dof); }
}
static std::string readCStr(State& S, u64 a)
{
    std::string r;
    for (int i = 0; i < 400; ++i) { u32 idx; u64 off; resolve(S, Val(a + i), 1, false, idx, off); Obj* o = objR(S, idx); if (o->st[off] != 1) { r += '?'; continue; } if (!o->b[off]) break; r += (char)o->b[off]; }
    return r;
}

// ------------------------------------------------------------------ constants / globals
static u64 evalConstAddr(const Constant* C);
static Val constVal(const Constant* C)
{
    if (auto* ci = dyn_cast<ConstantInt>(C))
    {
        unsigned w = ci->getBitWidth(); if (w <= 64) return Val(ci->getZExtValue());
        u128 v = ci->getValue().getRawData()[0]; if (w > 64) v |= (u128)ci->getValue().getRawData()[1] << 64; return fromE(P.cst(v, w));
    }
    if (auto* cf = dyn_cast<ConstantFP>(C))
    {
        APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return Val(a.getZExtValue());
        return fromE(P.cst((u128)a.getRawData()[0] | ((u128)a.getRawData()[1] << 64), a.getBitWidth()));
    }
    Type* t = C->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
    {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        std::vector<Val> f; for (unsigned i = 0; i < n; ++i) f.push_back(constVal(C->getAggregateElement(i))); return mkAgg(f);
    }
    if (isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) { unsigned w = tw(t); return w > 64 ? fromE(P.cst(0, w)) : Val(0); }
    return Val(evalConstAddr(C));
}
static u64 evalConstAddr(const Constant* C)
{
    if (auto* g = dyn_cast<GlobalAlias>(C)) return evalConstAddr(g->getAliasee());
    if (auto* g = dyn_cast<GlobalValue>(C))
    { auto it = gaddr.find(g); if (it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; exit(3); } return it->second; }
    if (auto* ci = dyn_cast<ConstantInt>(C)) return ci->getZExtValue();
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
    if (auto* ce = dyn_cast<ConstantExpr>(C))
    {
        switch (ce->getOpcode())
        {
            case Instruction::GetElementPtr:
            { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return evalConstAddr(ce->getOperand(0)) + off.getZExtValue(); }
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: return evalConstAddr(ce->getOperand(0));
            case Instruction::Trunc: return evalConstAddr(ce->getOperand(0)) & m64(tw(ce->getType()));
            case Instruction::Add: return evalConstAddr(ce->getOperand(0)) + evalConstAddr(ce->getOperand(1));
            case Instruction::Sub: return evalConstAddr(ce->getOperand(0)) - evalConstAddr(ce->getOperand(1));
            case Instruction::Xor: return evalConstAddr(ce->getOperand(0)) ^ evalConstAddr(ce->getOperand(1));
            default: break;
        }
    }
    errs() << "unsupported constant " << *C << "\n"; exit(3);
}

enum BI { B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DEL, B_DELARR, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_MEMCHR, B_STRLEN,
    B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_UNWIND_RESUME, B_GETEXC, B_UNCAUGHT, B_CURTYPE, B_GUARD_ACQ, B_GUARD_REL, B_GUARD_ABORT, B_ATEXIT, B_ABORT, B_PURE,
    B_SYM, B_ASSUME, B_ASSERT, B_REACH, B_PICK, B_UNSUP, B_OBS, B_CONC, B_ISSYM, B_ISREPLAY, B_LIVE, B_EQUAL, B_NOP, B_LOCK, B_UNLOCK, B_FREEZE };
static const std::map<std::string, int> builtins = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
    {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR},
    {"_ZnwmSt11align_val_t", B_NEW}, {"_ZnamSt11align_val_t", B_NEWARR},
    {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"_ZdlPvSt11align_val_t", B_DEL}, {"_ZdlPvmSt11align_val_t", B_DEL},
    {"_ZdlPvRKSt9nothrow_t", B_DEL}, {"_ZdaPvRKSt9nothrow_t", B_DELARR},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"memchr", B_MEMCHR}, {"strlen", B_STRLEN},
    {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN},
    {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW}, {"_Unwind_Resume", B_UNWIND_RESUME}, {"__cxa_get_exception_ptr", B_GETEXC},
    {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT}, {"__cxa_current_exception_type", B_CURTYPE},
    {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_GUARD_ABORT}, {"__cxa_atexit", B_ATEXIT}, {"__cxa_thread_atexit", B_ATEXIT}, {"__cxa_thread_atexit_impl", B_ATEXIT}, {"atexit", B_ATEXIT},
    {"abort", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"exit", B_ABORT}, {"__assert_fail", B_ABORT}, {"__stack_chk_fail", B_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT},
    {"__cxa_pure_virtual", B_PURE}, {"__cxa_call_unexpected", B_ABORT}, {"__cxa_bad_typeid", B_ABORT}, {"__cxa_throw_bad_array_new_length", B_ABORT},
    {"vx_make_symbolic", B_SYM}, {"vx_assume", B_ASSUME}, {"vx_assert", B_ASSERT}, {"vx_reach", B_REACH}, {"vx_pick", B_PICK}, {"vx_unsupported", B_UNSUP},
    {"vx_observe", B_OBS}, {"vx_equal", B_EQUAL}, {"vx_concretize", B_CONC}, {"vx_is_replay", B_ISREPLAY}, {"vx_is_symbolic", B_ISSYM}, {"vx_live_heap", B_LIVE}, {"pthread_mutex_lock", B_LOCK}, {"pthread_mutex_unlock", B_UNLOCK}, {"pthread_rwlock_wrlock", B_LOCK}, {"pthread_rwlock_unlock", B_UNLOCK}, {"vx_freeze", B_FREEZE},
};

static FnInfo* fnInfo(Function* F)
{
    auto& r = fns[F]; if (r) return r;
    r = new FnInfo(); r->F = F; r->name = F->getName().str();
    auto it = builtins.find(r->name); if (it != builtins.end()) r->bid = it->second;
    r->decl = F->isDeclaration();
    return r;
}
static void decode(FnInfo* fi)
{
    if (fi->decoded) return; fi->decoded = true;
    Function* F = fi->F;
    std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bidx; int n = 0;
    for (auto& a : F->args()) { slot[&a] = n++; fi->argw.push_back(a.getType()->isAggregateType() || a.getType()->isVectorTy() ? 0 : tw(a.getType())); }
    int bi = 0;
    for (auto& bb : *F) { bidx[&bb] = bi++; for (auto& I : bb) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
    fi->nslots = n;
    auto op = [&](const Value* v) -> Op {
        Op o; if (auto* c = dyn_cast<Constant>(v)) { o.v = constVal(c); return o; }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return o;
        o.slot = slot.at(v); return o; };
    for (auto& bb : *F)
    {
        fi->blks.emplace_back(); Blk& b = fi->blks.back(); b.bb = &bb;
        for (auto& I : bb)
        {
            if (auto* ph = dyn_cast<PHINode>(&I))
            { PhiD p; p.dst = slot[&I]; p.w = 0; for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) p.in.push_back({bidx[ph->getIncomingBlock(i)], op(ph->getIncomingValue(i))}); b.phis.push_back(p); continue; }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            DI d; d.I = &I; d.opc = I.getOpcode(); d.ty = I.getType();
            if (!I.getType()->isVoidTy()) { d.dst = slot[&I]; if (I.getType()->isAggregateType() || I.getType()->isVectorTy()) d.agg = true; else d.w = tw(I.getType()); }
            if (auto* g = dyn_cast<GetElementPtrInst>(&I))
            {
                if (g->getType()->isVectorTy()) { d.opc = 0; b.ins.push_back(d); continue; }
                d.ops.push_back(op(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi)
                {
                    const Value* ix = gi.getOperand();
                    if (auto* st = gi.getStructTypeOrNull()) { d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(ix)) d.off += ci->getSExtValue() * sc;
                    else d.scaled.push_back({op(ix), {sc, tw(ix->getType())}});
                }
            }
            else if (auto* br = dyn_cast<BranchInst>(&I))
            { if (br->isConditional()) d.ops.push_back(op(br->getCondition())); for (unsigned q = 0; q < br->getNumSuccessors(); ++q) d.succ.push_back(bidx[br->getSuccessor(q)]); }
            else if (auto* sw = dyn_cast<SwitchInst>(&I))
            { d.ops.push_back(op(sw->getCondition())); d.w2 = tw(sw->getCondition()->getType()); d.succ.push_back(bidx[sw->getDefaultDest()]); for (auto& c : sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]}); }
            else if (auto* cb = dyn_cast<CallBase>(&I))
            {
                for (auto& a : cb->args()) d.ops.push_back(op(a.get()));
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                if (auto* cf = dyn_cast<Function>(cv)) d.callee = fnInfo(cf); else d.ops.push_back(op(cb->getCalledOperand()));
                if (auto* inv = dyn_cast<InvokeInst>(&I)) { d.succ = { bidx[inv->getNormalDest()], bidx[inv->getUnwindDest()] }; }
            }
            else
            {
                for (auto& o : I.operands()) d.ops.push_back(op(o.get()));
                if (I.getNumOperands() && !I.getOperand(0)->getType()->isAggregateType() && !I.getOperand(0)->getType()->isVectorTy() && I.getOperand(0)->getType()->isSized()) d.w2 = tw(I.getOperand(0)->getType());
            }
            b.ins.push_back(d);
        }
    }
}

static void initConst(Obj& o, u64 off, const Constant* C)
{
    Type* t = C->getType(); u64 sz = DL->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) { memset(o.b.data() + off, 0, sz); memset(o.st.data() + off, 1, sz); return; }
    if (isa<UndefValue>(C)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(C)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); ++i) initConst(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); memcpy(o.b.data() + off, r.data(), r.size()); memset(o.st.data() + off, 1, r.size()); return; }
    if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) { u64 es = DL->getTypeAllocSize(C->getOperand(0)->getType()); for (unsigned i = 0; i < C->getNumOperands(); ++i) initConst(o, off + i * es, cast<Constant>(C->getOperand(i))); return; }
    Val v = constVal(C); unsigned n = (tw(t) + 7) / 8; u128 x = v.e ? v.e->v : v.c; memcpy(o.b.data() + off, &x, n); memset(o.st.data() + off, 1, n);
}
static void setupGlobals(State& S)
{
    S.nobj = 1; S.mem.push_back(std::make_shared<Chunk>());
    for (auto& F : *MOD)
    {
        if (F.isIntrinsic()) continue;
        if (F.isDeclaration() && F.hasExternalWeakLinkage()) { gaddr[&F] = 0; continue; }
        u32 i = newObj(S, 1, O_FUNC, 1); gaddr[&F] = addrOf(i); fnByObj[i] = &F;
    }
    for (auto& G : MOD->globals())
    {
        if (G.isDeclaration() && G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64;
        bool ext = G.isDeclaration();
        if (ext && sz < 64) sz = 64;
        u32 i = newObj(S, sz, O_GLOBAL, 1); gaddr[&G] = addrOf(i); gvByAddr[addrOf(i)] = &G;
        Obj* o = objW(S, i); o->gv = &G; o->ro = G.isConstant(); 
        StringRef n = G.getName();
        o->ext = ext && !(n.starts_with("_ZTVN10__cxxabiv1") || n.starts_with("_ZTI") || n == "__dso_handle" || n.starts_with("_ZTS") || n.starts_with("_ZTV"));
    }
    for (auto& G : MOD->globals()) if (!G.isDeclaration()) { Obj* o = objW(S, gaddr[&G] >> 32); initConst(*o, 0, G.getInitializer()); }
}

// ------------------------------------------------------------------ exceptions
static u64 rd64(State& S, u64 a) { u32 i; u64 o; resolve(S, Val(a), 8, false, i, o); Val v = loadInt(S, i, o, 64); return concretize(S, v, 64); }
static u64 vtAddr(const char* n) { auto* g = MOD->getNamedGlobal(n); return g ? gaddr[g] + 16 : 1; }
static bool tiMatch(State& S, u64 thrown, u64 want, int depth = 0)
{
    if (thrown == want) return true;
    if (depth > 10) return false;
    auto it = gvByAddr.find(thrown);
    if (it != gvByAddr.end() && it->second->isDeclaration())
        return false; // unknown hierarchy (fundamental types)
    u64 vt = rd64(S, thrown);
    if (vt == vtAddr("_ZTVN10__cxxabiv120__si_class_type_infoE")) return tiMatch(S, rd64(S, thrown + 16), want, depth + 1);
    if (vt == vtAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE"))
    {
        u32 i; u64 o; resolve(S, Val(thrown + 20), 4, false, i, o); u64 n = concretize(S, loadInt(S, i, o, 32), 32);
        for (u64 k = 0; k < n; ++k) if (tiMatch(S, rd64(S, thrown + 24 + 16 * k), want, depth + 1)) return true;
    }
    return false;
}
static int typeId(u64 a) { auto it = typeIds.find(a); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[a] = n; return n; }
static void enterBlock(State& S, Frame& f, int to)
{
    Blk& b = f.fn->blks[to]; int from = f.blk;
    if (!b.phis.empty())
    {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (b.phis.size() > 64) { big.resize(b.phis.size()); t = big.data(); }
        for (size_t i = 0; i < b.phis.size(); ++i)
        {
            bool ok = false;
            for (auto& in : b.phis[i].in) if (in.first == from) { t[i] = in.second.slot >= 0 ? f.regs[in.second.slot] : in.second.v; ok = true; break; }
            if (!ok) { fprintf(stderr, "phi without matching edge\n"); exit(3); }
        }
        for (size_t i = 0; i < b.phis.size(); ++i) f.regs[b.phis[i].dst] = t[i];
    }
    f.blk = to; f.ip = 0; f.fn->blks[to].hit = true;
}
static void popFrame(State& S) { for (u32 a : S.st.back().allocas) killObj(S, a); S.st.pop_back(); }
// unwinding starts at the innermost frame, whose current instruction is the throwing call/invoke
static void unwindFrom(State& S, u32 ex, bool searched)
{
    u64 ti = S.exc[ex].ti;
    auto clause = [&](const LandingPadInst* lp, int& sel) -> bool {
        for (unsigned i = 0; i < lp->getNumClauses(); ++i)
        {
            if (lp->isCatch(i)) { u64 c = evalConstAddr(lp->getClause(i)); if (c == 0 || tiMatch(S, ti, c)) { sel = typeId(c); return true; } }
            else { if (lp->getClause(i)->getType()->getArrayNumElements() == 0) { sel = -1; return true; } }
        }
        sel = 0; return false; };
    if (!searched)
    {
        bool found = false;
        for (size_t i = S.st.size(); i-- > 0 && !found; )
        {
            Frame& f = S.st[i]; DI& d = f.fn->blks[f.blk].ins[f.ip];
            if (d.opc == Instruction::Invoke) { int sel; if (clause(cast<InvokeInst>(d.I)->getLandingPadInst(), sel)) found = true; }
        }
        if (!found)
        {
            auto it = gvByAddr.find(ti);
            fail(S, "exception", "uncaught exception " + (it != gvByAddr.end() ? demangle(it->second->getName().str()) : std::string("?")));
        }
    }
    while (!S.st.empty())
    {
        Frame& f = S.st.back(); DI& d = f.fn->blks[f.blk].ins[f.ip];
        if (d.opc == Instruction::Invoke)
        {
            const LandingPadInst* lp = cast<InvokeInst>(d.I)->getLandingPadInst(); int sel; bool m = clause(lp, sel);
            if (m || lp->isCleanup())
            {
                enterBlock(S, f, d.succ[1]);
                DI& l = f.fn->blks[f.blk].ins[0]; // the landingpad
                f.regs[l.dst] = mkAgg({Val(addrOf(ex)), Val((u64)(u32)sel)});
                f.ip = 1; return;
            }
        }
        popFrame(S);
    }
    fail(S, "exception", "exception escaped");
}

// ------------------------------------------------------------------ leaks
static void leakCheck(State& S)
{
    std::vector<char> mark(S.nobj, 0); std::vector<u32> q;
    for (u32 i = 1; i < S.nobj; ++i) { Obj* o = objR(S, i); if (o && o->alive && o->kind == O_GLOBAL && !o->ext) { mark[i] = 1; q.push_back(i); } }
    markReachable(S, mark, q);
    u64 n = 0, bytes = 0; const Instruction* site = nullptr; OK k = O_NEW;
    for (u32 i = 1; i < S.nobj; ++i) { Obj* o = objR(S, i); if (o && o->alive && !mark[i] && (o->kind == O_NEW || o->kind == O_NEWARR || o->kind == O_MALLOC)) { ++n; bytes += o->size; if (!site) { site = o->site; k = o->kind; } } }
    if (n) report(S, "leak", "heap memory leaked; first block allocated in " + (site ? fnName(site->getFunction()).substr(0, 160) : std::string("?")));
}

// ------------------------------------------------------------------ execution
static inline Val get(Frame& f, const Op& o) { return o.slot >= 0 ? f.regs[o.slot] : o.v; }
static void pushCall(State& S, FnInfo* fi, const std::vector<Val>& args)
{
    if (S.st.size() > 4000) incompl(S, "call depth");
    decode(fi); ++fi->calls;
    S.st.emplace_back(); Frame& f = S.st.back(); f.fn = fi; f.regs.resize(fi->nslots);
    for (size_t i = 0; i < args.size() && i < fi->argw.size(); ++i) f.regs[i] = args[i];
}
// continue after a call instruction in the (now) top frame, delivering result
static void afterCall(State& S, const Val& r)
{
    Frame& f = S.st.back(); DI& d = f.fn->blks[f.blk].ins[f.ip];
    if (d.dst >= 0) f.regs[d.dst] = r;
    if (d.opc == Instruction::Invoke) enterBlock(S, f, d.succ[0]); else ++f.ip;
}
static E newVar(const std::string& n, unsigned w) { E v = P.var(n, w); SV->varexprs.resize(P.vars.size()); SV->varexprs[P.vars.size() - 1] = v; return v; }

static Val binop(State& S, unsigned opc, const Val& a, const Val& b, unsigned w, bool isfp)
{
    if (isfp)
    {
        E x = toE(a, w), y = toE(b, w);
        switch (opc)
        {
            case Instruction::FAdd: return fromE(P.mkF(K_FADD, x, y));
            case Instruction::FSub: return fromE(P.mkF(K_FSUB, x, y));
            case Instruction::FMul: return fromE(P.mkF(K_FMUL, x, y));
            case Instruction::FDiv: return fromE(P.mkF(K_FDIV, x, y));
            default: incompl(S, "frem");
        }
    }
    if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem)
    {
        E z = P.mkEq(toE(b, w), P.cst(0, w));
        if (z->k == K_CONST) { if (z->v) fail(S, "arith", "division by zero"); }
        else if (decide(S, z)) fail(S, "arith", "division by zero");
        if (opc == Instruction::SDiv || opc == Instruction::SRem)
        {
            E ov = P.mkAnd(P.mkEq(toE(a, w), P.cst((u128)1 << (w - 1), w)), P.mkEq(toE(b, w), P.cst(maskw(w), w)));
            if (ov->k == K_CONST) { if (ov->v) fail(S, "arith", "signed division overflow"); }
            else if (decide(S, ov)) fail(S, "arith", "signed division overflow");
        }
    }
    if (!a.e && !b.e && w <= 64)
    {
        u64 x = a.c, y = b.c, m = m64(w);
        switch (opc)
        {
            case Instruction::Add: return Val((x + y) & m);
            case Instruction::Sub: return Val((x - y) & m);
            case Instruction::Mul: return Val((x * y) & m);
            case Instruction::And: return Val(x & y);
            case Instruction::Or: return Val(x | y);
            case Instruction::Xor: return Val(x ^ y);
            case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m);
            case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
            case Instruction::AShr: return Val((u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m);
            case Instruction::UDiv: return Val(x / y);
            case Instruction::URem: return Val(x % y);
            case Instruction::SDiv: return Val((u64)(sx(x, w) / sx(y, w)) & m);
            case Instruction::SRem: return Val((u64)(sx(x, w) % sx(y, w)) & m);
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (opc)
    {
        case Instruction::Add: return fromE(P.mkAdd(x, y));
        case Instruction::Sub: return fromE(P.mkSub(x, y));
        case Instruction::Mul: return fromE(P.mkMul(x, y));
        case Instruction::And: return fromE(P.mkAnd(x, y));
        case Instruction::Or: return fromE(P.mkOr(x, y));
        case Instruction::Xor: return fromE(P.mkXor(x, y));
        case Instruction::Shl: return fromE(P.mkShl(x, y));
        case Instruction::LShr: return fromE(P.mkLShr(x, y));
        case Instruction::AShr: return fromE(P.mkAShr(x, y));
        case Instruction::UDiv: return fromE(P.mkDiv(K_UDIV, x, y));
        case Instruction::URem: return fromE(P.mkDiv(K_UREM, x, y));
        case Instruction::SDiv: return fromE(P.mkDiv(K_SDIV, x, y));
        case Instruction::SRem: return fromE(P.mkDiv(K_SREM, x, y));
    }
    incompl(S, "binop");
}
static Val icmp(State& S, CmpInst::Predicate p, const Val& a, const Val& b, unsigned w)
{
    if (!a.e && !b.e && w <= 64)
    {
        u64 x = a.c, y = b.c; int64_t sx_ = sx(x, w), sy = sx(y, w);
        switch (p)
        {
            case CmpInst::ICMP_EQ: return Val(x == y); case CmpInst::ICMP_NE: return Val(x != y);
            case CmpInst::ICMP_ULT: return Val(x < y); case CmpInst::ICMP_ULE: return Val(x <= y);
            case CmpInst::ICMP_UGT: return Val(x > y); case CmpInst::ICMP_UGE: return Val(x >= y);
            case CmpInst::ICMP_SLT: return Val(sx_ < sy); case CmpInst::ICMP_SLE: return Val(sx_ <= sy);
            case CmpInst::ICMP_SGT: return Val(sx_ > sy); case CmpInst::ICMP_SGE: return Val(sx_ >= sy);
            default: break;
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (p)
    {
        case CmpInst::ICMP_EQ: return fromE(P.mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(P.mkNot(P.mkEq(x, y)));
        case CmpInst::ICMP_ULT: return fromE(P.mkUlt(x, y)); case CmpInst::ICMP_ULE: return fromE(P.mkUle(x, y));
        case CmpInst::ICMP_UGT: return fromE(P.mkUlt(y, x)); case CmpInst::ICMP_UGE: return fromE(P.mkUle(y, x));
        case CmpInst::ICMP_SLT: return fromE(P.mkSlt(x, y)); case CmpInst::ICMP_SLE: return fromE(P.mkSle(x, y));
        case CmpInst::ICMP_SGT: return fromE(P.mkSlt(y, x)); case CmpInst::ICMP_SGE: return fromE(P.mkSle(y, x));
        default: incompl(S, "icmp");
    }
}
static Val fcmp(State& S, CmpInst::Predicate p, const Val& a, const Val& b, unsigned w)
{
    E x = toE(a, w), y = toE(b, w);
    auto uno = [&] { return P.mkFCmp(K_FUNO, x, y); };
    switch (p)
    {
        case CmpInst::FCMP_FALSE: return Val(0); case CmpInst::FCMP_TRUE: return Val(1);
        case CmpInst::FCMP_OEQ: return fromE(P.mkFCmp(K_FOEQ, x, y));
        case CmpInst::FCMP_UNE: return fromE(P.mkNot(P.mkFCmp(K_FOEQ, x, y)));
        case CmpInst::FCMP_OLT: return fromE(P.mkFCmp(K_FOLT, x, y));
        case CmpInst::FCMP_OGT: return fromE(P.mkFCmp(K_FOLT, y, x));
        case CmpInst::FCMP_OLE: return fromE(P.mkFCmp(K_FOLE, x, y));
        case CmpInst::FCMP_OGE: return fromE(P.mkFCmp(K_FOLE, y, x));
        case CmpInst::FCMP_UGE: return fromE(P.mkNot(P.mkFCmp(K_FOLT, x, y)));
        case CmpInst::FCMP_ULE: return fromE(P.mkNot(P.mkFCmp(K_FOLT, y, x)));
        case CmpInst::FCMP_UGT: return fromE(P.mkNot(P.mkFCmp(K_FOLE, x, y)));
        case CmpInst::FCMP_ULT: return fromE(P.mkNot(P.mkFCmp(K_FOLE, y, x)));
        case CmpInst::FCMP_UNO: return fromE(uno());
        case CmpInst::FCMP_ORD: return fromE(P.mkNot(uno()));
        case CmpInst::FCMP_ONE: return fromE(P.mkAnd(P.mkNot(P.mkFCmp(K_FOEQ, x, y)), P.mkNot(uno())));
        case CmpInst::FCMP_UEQ: return fromE(P.mkOr(P.mkFCmp(K_FOEQ, x, y), uno()));
        default: incompl(S, "fcmp");
    }
}
static bool isBoolLike(E) { return true; }

static void doFree(State& S, u64 a, OK want)
{
    if (!a) return;
    u32 idx = a >> 32; Obj* o = objR(S, idx);
    if (!o || (o->kind != O_NEW && o->kind != O_NEWARR && o->kind != O_MALLOC)) fail(S, "memory", "free of a non-heap pointer");
    if (a != addrOf(idx)) fail(S, "memory", "free of an interior pointer");
    if (!o->alive) fail(S, "memory", "double free");
    if (idx < S.frozen) checkFrozen(S, idx, o);
    if (o->kind != want) report(S, "memory", "mismatched allocation and deallocation functions");
    killObj(S, idx);
}
static Val memcmpVal(State& S, u64 a, u64 b, u64 n)
{
    if (!n) return Val(0);
    u32 ai, bi; u64 ao, bo; resolve(S, Val(a), n, false, ai, ao); resolve(S, Val(b), n, false, bi, bo);
    Obj *x = objR(S, ai), *y = objR(S, bi); bool conc = true;
    for (u64 i = 0; i < n && conc; ++i) conc = x->st[ao + i] == 1 && y->st[bo + i] == 1;
    if (conc) { int r = memcmp(x->b.data() + ao, y->b.data() + bo, n); return Val((u64)(u32)(r < 0 ? -1 : r > 0 ? 1 : 0)); }
    E eq = P.cst(1, 1), lt = P.cst(0, 1);
    // equality by 8-byte chunks
    for (u64 i = 0; i < n; i += 8)
    {
        unsigned k = std::min<u64>(8, n - i) * 8;
        eq = P.mkAnd(eq, P.mkEq(toE(loadInt(S, ai, ao + i, k), k), toE(loadInt(S, bi, bo + i, k), k)));
    }
    if (eq->k == K_CONST && eq->v) return Val(0);
    for (u64 i = n; i-- > 0; ) { E p = byteE(S, ai, ao + i), q = byteE(S, bi, bo + i); lt = P.mkIte(P.mkEq(p, q), lt, P.mkUlt(p, q)); }
    return fromE(P.mkIte(eq, P.cst(0, 32), P.mkIte(lt, P.cst(0xffffffffu, 32), P.cst(1, 32))));
}

// returns true if handled (result delivered / control transferred)
static void builtin(State& S, FnInfo* fi, const std::vector<Val>& A)
{
    const Instruction* site = S.st.back().fn->blks[S.st.back().blk].ins[S.st.back().ip].I;
    auto C = [&](int i, unsigned w = 64) { return concretize(S, A[i], w); };
    auto alloc = [&](u64 n, OK k, u8 init) { if (n > (1ull << 28)) incompl(S, "allocation larger than 256 MiB"); u32 i = newObj(S, n, k, init); objW(S, i)->site = site; return Val(addrOf(i)); };
    switch (fi->bid)
    {
        case B_MALLOC: return afterCall(S, alloc(C(0), O_MALLOC, 0));
        case B_CALLOC: { u64 n = C(0), m = C(1); return afterCall(S, alloc(n * m, O_MALLOC, 1)); }
        case B_REALLOC:
        {
            u64 p = C(0), n = C(1); Val r = alloc(n, O_MALLOC, 0);
            if (p) { Obj* o = objR(S, p >> 32); if (!o || !o->alive) fail(S, "memory", "realloc of freed block"); copyBytes(S, r.c, p, std::min(n, o->size), true); doFree(S, p, O_MALLOC); }
            return afterCall(S, r);
        }
        case B_FREE: doFree(S, C(0), O_MALLOC); return afterCall(S, Val(0));
        case B_NEW: case B_NEWARR:
        {
            // allocations beyond 256 MiB fail: the path in which they succeed is outside the bounds
            Val big = A[0].e ? fromE(P.mkUlt(P.cst(1ull << 28, 64), A[0].e)) : Val((u64)(A[0].c > (1ull << 28)));
            if (big.e ? decide(S, big.e) : big.c) { Function* tf = MOD->getFunction("_ZSt17__throw_bad_allocv"); if (!tf || tf->isDeclaration()) incompl(S, "allocation larger than 256 MiB"); return pushCall(S, fnInfo(tf), {}); }
            return afterCall(S, alloc(C(0), fi->bid == B_NEW ? O_NEW : O_NEWARR, 0));
        }
        case B_DEL: doFree(S, C(0), O_NEW); return afterCall(S, Val(0));
        case B_DELARR: doFree(S, C(0), O_NEWARR); return afterCall(S, Val(0));
        case B_MEMCPY: case B_MEMMOVE: { u64 d = C(0), s = C(1), n = C(2); copyBytes(S, d, s, n, fi->bid == B_MEMMOVE); return afterCall(S, Val(d)); }
        case B_MEMSET:
        {
            u64 d = C(0), n = C(2); Val v = A[1]; if (v.e) v = fromE(P.mkExtract(v.e, 0, 8)); else v.c &= 255;
            if (n) { u32 i; u64 o; resolve(S, Val(d), n, true, i, o); if (!v.e) { Obj* x = objW(S, i); memset(x->b.data() + o, (int)v.c, n); memset(x->st.data() + o, 1, n); } else for (u64 k = 0; k < n; ++k) storeInt(S, i, o + k, v, 8); }
            return afterCall(S, Val(d));
        }
        case B_MEMCMP: { u64 a = C(0), b = C(1), n = C(2); return afterCall(S, memcmpVal(S, a, b, n)); }
        case B_MEMCHR:
        {
            u64 a = C(0), n = C(2); Val v = A[1]; E c = P.mkExtract(toE(v, 32), 0, 8);
            for (u64 i = 0; i < n; ++i) { u32 ix; u64 o; resolve(S, Val(a + i), 1, false, ix, o); if (decide(S, P.mkEq(byteE(S, ix, o), c))) return afterCall(S, Val(a + i)); }
            return afterCall(S, Val(0));
        }
        case B_STRLEN:
        {
            u64 a = C(0);
            for (u64 i = 0;; ++i) { u32 ix; u64 o; resolve(S, Val(a + i), 1, false, ix, o); if (decide(S, P.mkEq(byteE(S, ix, o), P.cst(0, 8)))) return afterCall(S, Val(i)); }
        }
        case B_CXA_ALLOC: { u32 i = newObj(S, C(0), O_EXC, 0); return afterCall(S, Val(addrOf(i))); }
        case B_CXA_FREE: { killObj(S, C(0) >> 32); return afterCall(S, Val(0)); }
        case B_CXA_THROW: { u32 ex = C(0) >> 32; u64 ti = C(1), dt = C(2); S.exc[ex] = ExcInfo{ti, dt, 0, false}; ++S.uncaught; return unwindFrom(S, ex, false); }
        case B_UNWIND_RESUME: { u32 ex = C(0) >> 32; popFrame(S); return unwindFrom(S, ex, true); }
        case B_CXA_BEGIN: { u64 p = C(0); u32 ex = p >> 32; auto& x = S.exc[ex]; x.handlers++; x.rethrown = false; --S.uncaught; S.caught.push_back(ex); return afterCall(S, Val(p)); }
        case B_GETEXC: return afterCall(S, A[0]);
        case B_CXA_END:
        {
            if (S.caught.empty()) incompl(S, "end_catch without catch");
            u32 ex = S.caught.back(); S.caught.pop_back(); auto& x = S.exc[ex]; --x.handlers;
            if (x.handlers == 0 && !x.rethrown)
            {
                u64 dt = x.dtor; afterCall(S, Val(0));
                if (dt) { pushCall(S, fnInfo(fnByObj.at(dt >> 32)), {Val(addrOf(ex))}); S.st.back().freeOnRet = ex; } else killObj(S, ex);
                return;
            }
            return afterCall(S, Val(0));
        }
        case B_CXA_RETHROW: { if (S.caught.empty()) fail(S, "exception", "rethrow without exception"); u32 ex = S.caught.back(); S.exc[ex].rethrown = true; ++S.uncaught; return unwindFrom(S, ex, false); }
        case B_UNCAUGHT: return afterCall(S, Val(S.uncaught));
        case B_CURTYPE: return afterCall(S, Val(S.caught.empty() ? 0 : S.exc[S.caught.back()].ti));
        case B_GUARD_ACQ: { u32 i; u64 o; resolve(S, Val(C(0)), 1, false, i, o); Val v = loadInt(S, i, o, 8); if (!v.c) ++S.locks; return afterCall(S, Val(v.c ? 0 : 1)); }
        case B_GUARD_ABORT: --S.locks; return afterCall(S, Val(0));
        case B_GUARD_REL: { u32 i; u64 o; resolve(S, Val(C(0)), 1, true, i, o); storeInt(S, i, o, Val(1), 8); --S.locks; return afterCall(S, Val(0)); }
        case B_LOCK: ++S.locks; return afterCall(S, Val(0));
        case B_UNLOCK: --S.locks; return afterCall(S, Val(0));
        case B_FREEZE: S.frozen = C(0) ? S.nobj : 0; return afterCall(S, Val(0));
        case B_NOP: return afterCall(S, Val(0));
        case B_ATEXIT: return afterCall(S, Val(0));
        case B_ABORT: fail(S, "abort", "call to " + fi->name);
        case B_PURE: fail(S, "abort", "pure virtual call");
        case B_SYM:
        {
            u64 p = C(0), n = C(1); std::string nm = readCStr(S, C(2)); u32 i; u64 o; if (!n) return afterCall(S, Val(0));
            resolve(S, Val(p), n, true, i, o); Input in; in.name = nm;
            std::string vn = nm + "#" + std::to_string(S.inputs.size());
            if (n <= 8) { E v = newVar(vn, n * 8); storeInt(S, i, o, fromE(v), n * 8); for (u64 k = 0; k < n; ++k) in.bytes.push_back(P.mkExtract(v, k * 8, 8)); }
            else for (u64 k = 0; k < n; ++k) { E v = newVar(vn + "_" + std::to_string(k), 8); storeInt(S, i, o + k, fromE(v), 8); in.bytes.push_back(v); }
            S.inputs.push_back(in); return afterCall(S, Val(0));
        }
        case B_PICK: // symbolic choice in [0,n), forked into concrete cases
        {
            u64 n = C(0); std::string nm = readCStr(S, C(1));
            if (n <= 1) { Input in; in.name = nm; for (int k = 0; k < 4; ++k) in.bytes.push_back(P.cst(0, 8)); S.inputs.push_back(in); return afterCall(S, Val(0)); }
            E v = newVar(nm + "#" + std::to_string(S.inputs.size()), 32); Input in; in.name = nm; for (u64 k = 0; k < 4; ++k) in.bytes.push_back(P.mkExtract(v, k * 8, 8));
            S.inputs.push_back(in);
            for (u64 k = n; k-- > 1; )
            {
                State* st = new State(S); E c = P.mkEq(v, P.cst(k, 32)); st->pc.push_back(c);
                if (st->model.size() < P.vars.size()) st->model.resize(P.vars.size(), 0); st->model[(size_t)v->v] = k;
                afterCall(*st, Val(k)); work.push_back(st); ++nForks;
            }
            E c = P.mkEq(v, P.cst(0, 32)); S.pc.push_back(c); if (S.model.size() < P.vars.size()) S.model.resize(P.vars.size(), 0); S.model[(size_t)v->v] = 0;
            return afterCall(S, Val(0));
        }
        case B_ASSUME:
        {
            ++nAssume; E c = toE(A[0], 1); if (c->w != 1) c = P.mkNot(P.mkEq(c, P.cst(0, c->w)));
            Model m; SatRes r = SV->check(S.pc, c, S.model, m);
            if (r == UNSAT) { ++nPruned; throw Stop(); }
            if (r == UNKNOWN) incompl(S, "solver timeout (assume)");
            S.model = m; addPC(S, c); return afterCall(S, Val(0));
        }
        case B_ASSERT:
        {
            ++nAssert; E c = toE(A[0], 1); if (c->w != 1) c = P.mkNot(P.mkEq(c, P.cst(0, c->w)));
            std::string msg = readCStr(S, C(1));
            std::vector<E> due; due.swap(S.due);
            if (c->k == K_CONST) { if (c->v && !due.empty()) { if (SV->identities(due)) ++nAssertSolver; else incomplete["solver disagrees on an identity: " + msg]++; } if (!c->v) { report(S, "assert", msg); throw Stop(); } return afterCall(S, Val(0)); }
            ++nAssertSolver;
            if (c->taint) report(S, "uninit", "checked value depends on uninitialised memory: " + msg);
            Model m; SatRes r = SV->check(S.pc, P.mkNot(c), S.model, m);
            if (r == UNKNOWN) incomplete["solver timeout (assert: " + msg + ")"]++;
            if (r == SAT)
            {
                Model keep = S.model; S.model = m; report(S, "assert", msg); S.model = keep;
                SatRes r2 = SV->check(S.pc, c, S.model, m); if (r2 != SAT) throw Stop(); S.model = m;
            }
            addPC(S, c); return afterCall(S, Val(0));
        }
        case B_REACH: { std::string m = readCStr(S, C(0)); S.reached.push_back(m); if (!reachCount[m]++) reachModel[m] = inputsOf(S); return afterCall(S, Val(0)); }
        case B_UNSUP: incompl(S, "unsupported: " + readCStr(S, C(0)));
        case B_EQUAL: // bit identity of two blocks of memory
        {
            u64 a = C(0), b = C(1), n = C(2); if (!n) return afterCall(S, Val(1));
            u32 ai, bi; u64 ao, bo; resolve(S, Val(a), n, false, ai, ao); resolve(S, Val(b), n, false, bi, bo);
            E eq = P.cst(1, 1);
            for (u64 i = 0; i < n; i += 8)
            {
                unsigned k = std::min<u64>(8, n - i) * 8; E x = toE(loadInt(S, ai, ao + i, k), k), y = toE(loadInt(S, bi, bo + i, k), k);
                if (x == y && x->k != K_CONST && S.due.size() < 4096) S.due.push_back(x);
                eq = P.mkAnd(eq, P.mkEq(x, y));
            }
            return afterCall(S, fromE(eq));
        }
        case B_OBS: { E v = toE(A[0], 64); S.obs.push_back({"o", v}); return afterCall(S, Val(0)); }
        case B_CONC: return afterCall(S, Val(C(0)));
        case B_ISSYM: return afterCall(S, Val(A[0].e ? 1 : 0));
        case B_ISREPLAY: return afterCall(S, Val(0));
        case B_LIVE: { u64 n = 0; for (u32 i = 1; i < S.nobj; ++i) { Obj* o = objR(S, i); if (o && o->alive && (o->kind == O_NEW || o->kind == O_NEWARR || o->kind == O_MALLOC)) ++n; } return afterCall(S, Val(n)); }
    }
    incompl(S, "builtin " + fi->name);
}

static void intrinsic(State& S, const IntrinsicInst* II, DI& d, std::vector<Val>& A)
{
    auto W = [&](int i) { return tw(II->getArgOperand(i)->getType()); };
    Frame& f = S.st.back();
    auto done = [&](const Val& r) { if (d.dst >= 0) f.regs[d.dst] = r; if (d.opc == Instruction::Invoke) enterBlock(S, f, d.succ[0]); else ++f.ip; };
    if (d.agg && II->getType()->isVectorTy()) incompl(S, "vector intrinsic");
    switch (II->getIntrinsicID())
    {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
            return done(Val(0));
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        {
            u64 dd = concretize(S, A[0], 64), s = concretize(S, A[1], 64), n = concretize(S, A[2], W(2));
            copyBytes(S, dd, s, n, II->getIntrinsicID() == Intrinsic::memmove); return done(Val(0));
        }
        case Intrinsic::memset:
        {
            u64 p = concretize(S, A[0], 64), n = concretize(S, A[2], W(2));
            if (n) { u32 i; u64 o; resolve(S, Val(p), n, true, i, o); if (!A[1].e) { Obj* x = objW(S, i); memset(x->b.data() + o, (int)A[1].c, n); memset(x->st.data() + o, 1, n); } else for (u64 k = 0; k < n; ++k) storeInt(S, i, o + k, A[1], 8); }
            return done(Val(0));
        }
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: return done(A[0]);
        case Intrinsic::is_constant: return done(Val(0));
        case Intrinsic::objectsize: return done(Val(cast<ConstantInt>(II->getArgOperand(1))->isZero() ? m64(d.w) : 0));
        case Intrinsic::eh_typeid_for: return done(Val((u64)typeId(concretize(S, A[0], 64))));
        case Intrinsic::trap: case Intrinsic::ubsantrap: fail(S, "abort", "trap");
        case Intrinsic::stacksave: return done(Val(0));
        case Intrinsic::stackrestore: return done(Val(0));
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
        {
            E x = toE(A[0], d.w), y = toE(A[1], d.w); auto id = II->getIntrinsicID();
            E c = id == Intrinsic::umax ? P.mkUlt(y, x) : id == Intrinsic::umin ? P.mkUlt(x, y) : id == Intrinsic::smax ? P.mkSlt(y, x) : P.mkSlt(x, y);
            return done(fromE(P.mkIte(c, x, y)));
        }
        case Intrinsic::abs: { E x = toE(A[0], d.w); return done(fromE(P.mkIte(P.mkSlt(x, P.cst(0, d.w)), P.mkSub(P.cst(0, d.w), x), x))); }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        {
            unsigned w = W(0); auto id = II->getIntrinsicID(); E x = toE(A[0], w), y = toE(A[1], w);
            if (w > 64) incompl(S, "wide overflow intrinsic");
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            E ex = sg ? P.mkSExt(x, 2 * w) : P.mkZExt(x, 2 * w), ey = sg ? P.mkSExt(y, 2 * w) : P.mkZExt(y, 2 * w), r;
            if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) r = P.mkAdd(ex, ey);
            else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) r = P.mkSub(ex, ey); else r = P.mkMul(ex, ey);
            E lo = P.mkExtract(r, 0, w); E ov = P.mkNot(P.mkEq(r, sg ? P.mkSExt(lo, 2 * w) : P.mkZExt(lo, 2 * w)));
            return done(mkAgg({fromE(lo), fromE(ov)}));
        }
        case Intrinsic::uadd_sat: { E x = toE(A[0], d.w), y = toE(A[1], d.w), s = P.mkAdd(x, y); return done(fromE(P.mkIte(P.mkUlt(s, x), P.cst(maskw(d.w), d.w), s))); }
        case Intrinsic::usub_sat: { E x = toE(A[0], d.w), y = toE(A[1], d.w); return done(fromE(P.mkIte(P.mkUlt(x, y), P.cst(0, d.w), P.mkSub(x, y)))); }
        case Intrinsic::bswap: { E x = toE(A[0], d.w), r = P.mkExtract(x, 0, 8); for (unsigned i = 8; i < d.w; i += 8) r = P.mkConcat(r, P.mkExtract(x, i, 8)); return done(fromE(r)); }
        case Intrinsic::ctpop: { E x = toE(A[0], d.w), r = P.cst(0, d.w); for (unsigned i = 0; i < d.w; ++i) r = P.mkAdd(r, P.mkZExt(P.mkExtract(x, i, 1), d.w)); return done(fromE(r)); }
        case Intrinsic::ctlz: { E x = toE(A[0], d.w), r = P.cst(d.w, d.w); for (unsigned i = 0; i < d.w; ++i) r = P.mkIte(P.mkExtract(x, i, 1), P.cst(d.w - 1 - i, d.w), r); return done(fromE(r)); }
        case Intrinsic::cttz: { E x = toE(A[0], d.w), r = P.cst(d.w, d.w); for (unsigned i = d.w; i-- > 0; ) r = P.mkIte(P.mkExtract(x, i, 1), P.cst(i, d.w), r); return done(fromE(r)); }
        case Intrinsic::fshl: case Intrinsic::fshr:
        {
            unsigned w = d.w; E x = toE(A[0], w), y = toE(A[1], w); if (A[2].e || w > 64) incompl(S, "symbolic funnel shift");
            unsigned s = A[2].c % w; E c = P.mkConcat(x, y);
            return done(fromE(II->getIntrinsicID() == Intrinsic::fshl ? P.mkExtract(c, w - s, w) : P.mkExtract(c, s, w)));
        }
        case Intrinsic::fabs: { E x = toE(A[0], d.w); return done(fromE(P.mkAnd(x, P.cst(maskw(d.w - 1), d.w)))); }
        case Intrinsic::fmuladd: { E x = P.mkF(K_FMUL, toE(A[0], d.w), toE(A[1], d.w)); return done(fromE(P.mkF(K_FADD, x, toE(A[2], d.w)))); }
        case Intrinsic::copysign: { E x = toE(A[0], d.w), y = toE(A[1], d.w); if (d.w > 64) incompl(S, "wide copysign"); return done(fromE(P.mkOr(P.mkAnd(x, P.cst(maskw(d.w - 1), d.w)), P.mkAnd(y, P.cst(1ull << (d.w - 1), d.w))))); }
        case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::sqrt:
        {
            if (A[0].e || d.w > 64) incompl(S, "symbolic intrinsic " + II->getCalledFunction()->getName().str());
            double x; if (d.w == 32) { float y; u32 c = (u32)A[0].c; memcpy(&y, &c, 4); x = y; } else memcpy(&x, &A[0].c, 8);
            auto id = II->getIntrinsicID(); double r = id == Intrinsic::ceil ? ceil(x) : id == Intrinsic::floor ? floor(x) : id == Intrinsic::trunc ? trunc(x) : id == Intrinsic::round ? round(x) : id == Intrinsic::sqrt ? (d.w == 32 ? (double)sqrtf((float)x) : sqrt(x)) : rint(x);
            Val v; if (d.w == 32) { float y = (float)r; u32 c; memcpy(&c, &y, 4); v = Val(c); } else { memcpy(&v.c, &r, 8); } return done(v);
        }
        case Intrinsic::ptrmask: { return done(binop(S, Instruction::And, A[0], A[1], 64, false)); }
        case Intrinsic::load_relative:
        {
            u64 p = concretize(S, A[0], 64), o = concretize(S, A[1], W(1)); u32 i; u64 of; resolve(S, Val(p + o), 4, false, i, of); Val v = loadInt(S, i, of, 32); return done(Val(p + sx(v.c, 32)));
        }
        default: incompl(S, "intrinsic " + II->getCalledFunction()->getName().str());
    }
}

static void doRet(State& S, Val r)
{
    u32 fr = S.st.back().freeOnRet; bool top = S.st.back().ctorTop;
    popFrame(S);
    if (fr) { killObj(S, fr); return; } // destructor of a caught exception; caller already advanced
    if (S.st.empty() || top) return;
    afterCall(S, r);
}

static void step(State& S)
{
    Frame& f = S.st.back(); DI& d = f.fn->blks[f.blk].ins[f.ip];
    ++S.steps; ++nInstr;
    auto set = [&](const Val& v) { f.regs[d.dst] = v; ++f.ip; };
    switch (d.opc)
    {
        case Instruction::Ret: { Val r; if (!d.ops.empty()) r = get(f, d.ops[0]); return doRet(S, r); }
        case Instruction::Br:
        {
            if (d.ops.empty()) return enterBlock(S, f, d.succ[0]);
            Val c = get(f, d.ops[0]); bool t = c.e ? decide(S, c.e) : (c.c & 1); return enterBlock(S, S.st.back(), d.succ[t ? 0 : 1]);
        }
        case Instruction::Switch:
        {
            Val c = get(f, d.ops[0]);
            if (!c.e) { for (auto& k : d.cases) if (k.first == c.c) return enterBlock(S, f, k.second); return enterBlock(S, f, d.succ[0]); }
            // group by destination
            std::map<int, E> dest; E any = P.cst(0, 1);
            for (auto& k : d.cases) { E q = P.mkEq(c.e, P.cst(k.first, d.w2)); any = P.mkOr(any, q); auto it = dest.find(k.second); if (it == dest.end()) dest[k.second] = q; else it->second = P.mkOr(it->second, q); }
            for (auto& kv : dest) { if (kv.first == d.succ[0]) continue; if (decide(S, kv.second)) return enterBlock(S, S.st.back(), kv.first); }
            return enterBlock(S, S.st.back(), d.succ[0]);
        }
        case Instruction::Unreachable: fail(S, "abort", "unreachable code executed (undefined behaviour)");
        case Instruction::Alloca:
        {
            auto* ai = cast<AllocaInst>(d.I); u64 n = concretize(S, get(f, d.ops[0]), d.w2) * DL->getTypeAllocSize(ai->getAllocatedType());
            u32 i = newObj(S, n, O_STACK, 0); f.allocas.push_back(i); return set(Val(addrOf(i)));
        }
        case Instruction::Load:
        {
            u32 i; u64 o; unsigned n = DL->getTypeStoreSize(d.ty); resolve(S, get(f, d.ops[0]), n, false, i, o);
            return set(d.agg ? loadTy(S, i, o, d.ty) : loadInt(S, i, o, d.w));
        }
        case Instruction::Store:
        {
            auto* si = cast<StoreInst>(d.I); Type* t = si->getValueOperand()->getType(); u32 i; u64 o;
            AtomicScope as(si->isAtomic()); resolve(S, get(f, d.ops[1]), DL->getTypeStoreSize(t), true, i, o);
            Val v = get(f, d.ops[0]);
            if (t->isAggregateType() || t->isVectorTy()) storeTy(S, i, o, v, t); else storeInt(S, i, o, v, tw(t));
            ++f.ip; return;
        }
        case Instruction::GetElementPtr:
        {
            Val b = get(f, d.ops[0]);
            bool conc = !b.e; u64 x = b.c + d.off;
            for (auto& s : d.scaled) { Val ix = get(f, s.first); if (ix.e) { conc = false; break; } x += (u64)(sx(ix.c, s.second.second) * s.second.first); }
            if (conc) return set(Val(x));
            E e = P.mkAdd(toE(b, 64), P.cst((u64)d.off, 64));
            for (auto& s : d.scaled) { E ix = P.mkSExt(toE(get(f, s.first), s.second.second), 64); e = P.mkAdd(e, P.mkMul(ix, P.cst((u64)s.second.first, 64))); }
            return set(fromE(e));
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        {
            bool fp = d.opc == Instruction::FAdd || d.opc == Instruction::FSub || d.opc == Instruction::FMul || d.opc == Instruction::FDiv || d.opc == Instruction::FRem;
            Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
            if (d.agg)
            {
                auto* vt = cast<FixedVectorType>(d.ty); unsigned w = tw(vt->getElementType()); std::vector<Val> r;
                for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(binop(S, d.opc, a.agg->f[i], b.agg->f[i], w, fp));
                return set(mkAgg(r));
            }
            return set(binop(S, d.opc, a, b, d.w, fp));
        }
        case Instruction::FNeg: { E x = toE(get(f, d.ops[0]), d.w); return set(fromE(P.mkXor(x, P.cst((u128)1 << (d.w - 1), d.w)))); }
        case Instruction::ICmp:
        {
            auto* ci = cast<CmpInst>(d.I); Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
            if (d.agg) { auto* vt = cast<FixedVectorType>(d.I->getOperand(0)->getType()); unsigned w = tw(vt->getElementType()); std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(icmp(S, ci->getPredicate(), a.agg->f[i], b.agg->f[i], w)); return set(mkAgg(r)); }
            return set(icmp(S, ci->getPredicate(), a, b, d.w2));
        }
        case Instruction::FCmp: { if (d.agg) incompl(S, "vector fcmp"); return set(fcmp(S, cast<CmpInst>(d.I)->getPredicate(), get(f, d.ops[0]), get(f, d.ops[1]), d.w2)); }
        case Instruction::Select:
        {
            Val c = get(f, d.ops[0]); if (d.I->getOperand(0)->getType()->isVectorTy()) incompl(S, "vector select");
            if (!c.e) return set(get(f, d.ops[c.c & 1 ? 1 : 2]));
            Val a = get(f, d.ops[1]), b = get(f, d.ops[2]);
            if (d.agg || d.ty->isPointerTy()) { bool t = decide(S, c.e); Frame& g = S.st.back(); g.regs[d.dst] = t ? a : b; ++g.ip; return; }
            return set(fromE(P.mkIte(c.e, toE(a, d.w), toE(b, d.w))));
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
        {
            Val a = get(f, d.ops[0]);
            if (d.agg || d.I->getOperand(0)->getType()->isVectorTy() || d.I->getOperand(0)->getType()->isAggregateType())
            {
                if (d.opc == Instruction::Freeze) return set(a);
                if (d.opc == Instruction::BitCast)
                {
                    // flatten to bits and back
                    Type* st = d.I->getOperand(0)->getType(); E acc = nullptr;
                    if (tw(st) > 128) incompl(S, "wide bitcast");
                    if (auto* vt = dyn_cast<FixedVectorType>(st)) { unsigned w = tw(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) { E x = toE(a.agg->f[i], w); acc = acc ? P.mkConcat(x, acc) : x; } } else acc = toE(a, tw(st));
                    if (auto* vt = dyn_cast<FixedVectorType>(d.ty)) { unsigned w = tw(vt->getElementType()); std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(fromE(P.mkExtract(acc, i * w, w))); return set(mkAgg(r)); }
                    return set(fromE(acc));
                }
                if (d.agg && (d.opc == Instruction::Trunc || d.opc == Instruction::ZExt || d.opc == Instruction::SExt))
                {
                    auto* vt = cast<FixedVectorType>(d.ty); unsigned w = tw(vt->getElementType()), w0 = tw(cast<FixedVectorType>(d.I->getOperand(0)->getType())->getElementType()); std::vector<Val> r;
                    for (auto& x : a.agg->f) { E e = toE(x, w0); r.push_back(fromE(d.opc == Instruction::Trunc ? P.mkExtract(e, 0, w) : d.opc == Instruction::ZExt ? P.mkZExt(e, w) : P.mkSExt(e, w))); }
                    return set(mkAgg(r));
                }
                incompl(S, "vector cast");
            }
            unsigned w0 = d.w2, w = d.w;
            if (!a.e && w <= 64 && w0 <= 64)
            {
                if (d.opc == Instruction::SExt) return set(Val((u64)sx(a.c, w0) & m64(w)));
                return set(Val(a.c & m64(w)));
            }
            E e = toE(a, w0);
            if (w == w0) return set(fromE(e));
            if (d.opc == Instruction::SExt) return set(fromE(P.mkSExt(e, w)));
            return set(fromE(w > w0 ? P.mkZExt(e, w) : P.mkExtract(e, 0, w)));
        }
        case Instruction::FPExt: case Instruction::FPTrunc: { if (d.agg) incompl(S, "vector fp"); return set(fromE(P.mkFConv(toE(get(f, d.ops[0]), d.w2), d.w))); }
        case Instruction::FPToSI: case Instruction::FPToUI:
        {
            if (d.agg) incompl(S, "vector fp");
            return set(fromE(P.mkFToI(d.opc == Instruction::FPToSI ? K_FPTOSI : K_FPTOUI, toE(get(f, d.ops[0]), d.w2), d.w)));
        }
        case Instruction::SIToFP: case Instruction::UIToFP: { if (d.agg) incompl(S, "vector fp"); return set(fromE(P.mkIToF(d.opc == Instruction::SIToFP ? K_SITOFP : K_UITOFP, toE(get(f, d.ops[0]), d.w2), d.w))); }
        case Instruction::ExtractValue:
        { Val a = get(f, d.ops[0]); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) a = a.agg->f[i]; return set(a); }
        case Instruction::InsertValue:
        {
            auto* iv = cast<InsertValueInst>(d.I); Val a = get(f, d.ops[0]), v = get(f, d.ops[1]); auto ix = iv->getIndices();
            std::function<Val(const Val&, unsigned)> ins = [&](const Val& x, unsigned k) -> Val { if (k == ix.size()) return v; std::vector<Val> r = x.agg->f; r[ix[k]] = ins(r[ix[k]], k + 1); return mkAgg(r); };
            return set(ins(a, 0));
        }
        case Instruction::ExtractElement: { Val a = get(f, d.ops[0]); u64 i = concretize(S, get(f, d.ops[1]), tw(d.I->getOperand(1)->getType())); return set(a.agg->f.at(i)); }
        case Instruction::InsertElement: { Val a = get(f, d.ops[0]); u64 i = concretize(S, get(f, d.ops[2]), tw(d.I->getOperand(2)->getType())); std::vector<Val> r = a.agg->f; r.at(i) = get(f, d.ops[1]); return set(mkAgg(r)); }
        case Instruction::ShuffleVector:
        {
            auto* sv = cast<ShuffleVectorInst>(d.I); Val a = get(f, d.ops[0]), b = get(f, d.ops[1]); std::vector<Val> r; int n = a.agg->f.size();
            for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? Val(0) : m < n ? a.agg->f[m] : b.agg->f[m - n]); return set(mkAgg(r));
        }
        case Instruction::AtomicRMW:
        {
            auto* r = cast<AtomicRMWInst>(d.I); u32 i; u64 o; AtomicScope as(true); resolve(S, get(f, d.ops[0]), d.w / 8, true, i, o); Val old = loadInt(S, i, o, d.w), v = get(f, d.ops[1]), n;
            switch (r->getOperation()) { case AtomicRMWInst::Add: n = binop(S, Instruction::Add, old, v, d.w, false); break; case AtomicRMWInst::Sub: n = binop(S, Instruction::Sub, old, v, d.w, false); break; case AtomicRMWInst::Xchg: n = v; break; default: incompl(S, "atomicrmw"); }
            storeInt(S, i, o, n, d.w); return set(old);
        }
        case Instruction::Fence: ++f.ip; return;
        case Instruction::AtomicCmpXchg:
        {
            unsigned w = tw(d.I->getOperand(1)->getType()); u32 i; u64 o; AtomicScope as(true); resolve(S, get(f, d.ops[0]), w / 8, true, i, o); Val old = loadInt(S, i, o, w);
            Val c = icmp(S, CmpInst::ICMP_EQ, old, get(f, d.ops[1]), w); bool t = c.e ? decide(S, c.e) : c.c; if (t) storeInt(S, i, o, get(f, d.ops[2]), w);
            return set(mkAgg({old, Val(t)}));
        }
        case Instruction::Resume: { Val a = get(f, d.ops[0]); u32 ex = a.agg->f[0].c >> 32; popFrame(S); return unwindFrom(S, ex, true); }
        case Instruction::Call: case Instruction::Invoke:
        {
            auto* cb = cast<CallBase>(d.I);
            if (cb->isInlineAsm()) { if (d.dst >= 0) incompl(S, "inline asm"); return afterCall(S, Val(0)); }
            unsigned na = cb->arg_size(); std::vector<Val> A; A.reserve(na);
            for (unsigned i = 0; i < na; ++i) A.push_back(get(f, d.ops[i]));
            FnInfo* fi = d.callee;
            if (!fi)
            {
                u64 t = concretize(S, get(f, d.ops[na]), 64);
                auto it = fnByObj.find(t >> 32);
                if (it == fnByObj.end() || t != addrOf(t >> 32)) fail(S, "memory", t == 0 ? "call through a null function pointer" : "call through an invalid function pointer");
                fi = fnInfo(it->second);
            }
            if (auto* II = dyn_cast<IntrinsicInst>(d.I)) return intrinsic(S, II, d, A);
            if (fi->bid >= 0) return builtin(S, fi, A);
            if (fi->decl)
            {
                // formatted text: the variable arguments become an array of 64-bit words
                Function* vf = fi->name == "snprintf" || fi->name == "sprintf" ? MOD->getFunction("vx_format") : nullptr;
                if (!vf) incompl(S, "external function " + demangle(fi->name));
                unsigned fixed = fi->name == "snprintf" ? 3 : 2; u64 n = na - fixed; u32 o = newObj(S, 8 * n + 8, O_STACK, 1);
                for (u64 k = 0; k < n; ++k) { Type* t = cb->getArgOperand(fixed + k)->getType(); if (!t->isIntegerTy() && !t->isPointerTy()) incompl(S, "formatting a floating point value"); unsigned w = tw(t); Val v = A[fixed + k]; if (w < 64) v = fromE(P.mkSExt(toE(v, w), 64)); storeInt(S, o, 8 * k, v, 64); }
                f.allocas.push_back(o); std::vector<Val> B{A[0], fixed == 3 ? A[1] : Val(~0ull), A[fixed - 1], Val(addrOf(o))};
                return pushCall(S, fnInfo(vf), B);
            }
            // byval arguments are copied
            for (unsigned i = 0; i < na; ++i) if (cb->isByValArgument(i))
            { u64 n = DL->getTypeAllocSize(cb->getParamByValType(i)); u64 src = concretize(S, A[i], 64); u32 o = newObj(S, n, O_STACK, 0); copyBytes(S, addrOf(o), src, n, true); f.allocas.push_back(o); A[i] = Val(addrOf(o)); }
            return pushCall(S, fi, A);
        }
        default: incompl(S, std::string("instruction ") + d.I->getOpcodeName());
    }
}

static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string inJson(const std::vector<std::pair<std::string, std::vector<u8>>>& in)
{
    std::string s = "["; bool first = true;
    for (auto& i : in) { if (!first) s += ","; first = false; s += "[\"" + esc(i.first) + "\",\""; for (u8 b : i.second) { char h[4]; snprintf(h, 4, "%02x", b); s += h; } s += "\"]"; }
    return s + "]";
}

// ------------------------------------------------------------------ parallel exploration
// A process with pending states gives every second one to a forked child when a token (one byte in the
// pipe shared with run.py) is free.  Children write their own result file <out>.<n>.
static int tokfd = -1; static bool isChild = false; static std::vector<pid_t> kids;
static bool takeToken() { struct pollfd p = { tokfd, POLLIN, 0 }; char c; return poll(&p, 1, 0) == 1 && read(tokfd, &c, 1) == 1; }
static int tokw = -1;
static void giveToken() { char c = 't'; if (tokw >= 0) (void)!write(tokw, &c, 1); }
static void waitChildren()
{
    for (pid_t k : kids) { int st = 0; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { incomplete["a worker process died"]++; giveToken(); } }
    kids.clear();
}
static bool splitWork(std::string& out)
{
    if (!takeToken()) return false;
    std::vector<State*> mine, theirs;
    for (size_t i = 0; i < work.size(); ++i) ((work.size() - 1 - i) & 1 ? theirs : mine).push_back(work[i]);
    static int serial = 0; ++serial;
    pid_t k = fork();
    if (k < 0) { giveToken(); return false; }
    if (k > 0) { kids.push_back(k); for (State* s : theirs) delete s; work = mine; return true; }
    isChild = true; kids.clear(); for (State* s : mine) delete s; work = theirs; out += "." + std::to_string(serial); serial = 0;
    nPaths = nForks = nInstr = nAssert = nAssertSolver = nAssume = nMemChecks = nPruned = 0;
    SV->queries = SV->z3_queries = SV->cache_hits = SV->model_hits = SV->unknowns = SV->z3_unsat = SV->z3_sat = SV->abstract_unsat = 0; SV->z3_time = 0;
    reports.clear(); incomplete.clear(); reachCount.clear(); pathModels.clear(); pathObs.clear();
    return true;
}

int main(int argc, char** argv)
{
    std::string bc, entry, out; double tl = 600; int npm = 0; bool leaks = true; u64 memlim = 12000;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--time") tl = atof(argv[++i]);
        else if (a == "--paths") npm = atoi(argv[++i]); else if (a == "--no-leaks") leaks = false; else if (a == "--steps") maxSteps = strtoull(argv[++i], 0, 10);
        else if (a == "--stop") stopFile = argv[++i]; else if (a == "--grace") stopGrace = atof(argv[++i]); else if (a == "--mem") memlim = atoll(argv[++i]); else if (a == "--tokens") { tokfd = atoi(argv[++i]); tokw = atoi(argv[++i]); } else if (a == "--solver-timeout") { setenv("XSYM_ST", argv[++i], 1); } else bc = a;
    }
    double t0 = now(); deadline = t0 + tl;
    struct rlimit rl = { 512ull << 20, 512ull << 20 }; setrlimit(RLIMIT_STACK, &rl);
    LLVMContext ctx; SMDiagnostic errd;
    auto mod = parseIRFile(bc, errd, ctx);
    if (!mod) { errd.print("xsym", errs()); return 3; }
    MOD = mod.get(); DL = &MOD->getDataLayout(); Solver solver; SV = &solver; if (getenv("VERIF_SEED")) solver.rng += strtoull(getenv("VERIF_SEED"), 0, 10) * 0x9e3779b9; if (getenv("XSYM_ST")) solver.timeout_ms = atoi(getenv("XSYM_ST"));
    State* S0 = new State(); setupGlobals(*S0);
    Function* ef = MOD->getFunction(entry);
    if (!ef || ef->isDeclaration()) { fprintf(stderr, "xsym: no entry %s\n", entry.c_str()); return 3; }
    std::vector<Function*> ctors;
    if (auto* gc = MOD->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& o : ca->operands()) if (auto* f = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts())) ctors.push_back(f);
    for (Function* c : ctors)
    {
        pushCall(*S0, fnInfo(c), {}); S0->st.back().ctorTop = true;
        try { while (!S0->st.empty()) step(*S0); } catch (Stop&) { fprintf(stderr, "xsym: static initialiser failed\n"); for (auto& k : incomplete) fprintf(stderr, "  %s\n", k.first.c_str()); return 3; }
    }
    pushCall(*S0, fnInfo(ef), {}); S0->steps = 0;
    work.push_back(S0);
    u64 maxPathSteps = 0; double lastFork = now();
    while (!work.empty())
    {
        if (tokfd >= 0 && work.size() >= 2 && now() - lastFork > 0.25 && splitWork(out)) { lastFork = now(); if (isChild) { maxPathSteps = 0; t0 = now(); } }
        State* S = work.back(); work.pop_back();
        if (timeUp()) { incomplete["time limit"] += 1 + work.size(); break; }
        try
        {
            unsigned k = 0; double spent = solver.z3_time;
            while (!S->st.empty())
            {
                step(*S);
                if (solver.z3_time - spent > 2) { spent = solver.z3_time; if (timeUp()) incompl(*S, "time limit"); }
                if ((++k & 0x3fff) == 0) { if (timeUp()) incompl(*S, "time limit"); struct rusage ru; getrusage(RUSAGE_SELF, &ru); if ((u64)ru.ru_maxrss / 1024 > memlim) { incomplete["memory limit"] += 1 + work.size(); goto finish; } }
                if (S->steps > maxSteps) fail(*S, "hang", "no termination within the step limit");
            }
            if (leaks) leakCheck(*S);
            ++nPaths;
            {   // reservoir sample of completed paths, for conformance replay on the native build
                size_t slot = (int)pathModels.size() < npm ? pathModels.size() : (size_t)(solver.rnd() % nPaths);
                if ((int)slot < npm)
                {
                    std::string o; P.newgen(); for (auto& x : S->obs) { char b[32]; snprintf(b, 32, "%llx ", (unsigned long long)(u64)P.eval_rec(x.second, S->model)); o += b; }
                    if (slot == pathModels.size()) { pathModels.push_back(inputsOf(*S)); pathObs.push_back(o); } else { pathModels[slot] = inputsOf(*S); pathObs[slot] = o; }
                }
            }
        }
        catch (Stop&) { }
        maxPathSteps = std::max(maxPathSteps, S->steps);
        delete S;
    }
finish:
    waitChildren();
    std::string j = "{";
    auto num = [&](const char* k, double v) { char b[64]; snprintf(b, 64, "\"%s\":%.6g,", k, v); j += b; };
    j += "\"entry\":\"" + entry + "\",";
    num("paths", nPaths); num("forks", nForks); num("instructions", nInstr); num("asserts", nAssert); num("asserts_symbolic", nAssertSolver); num("memory_checks", nMemChecks); num("pruned", nPruned);
    num("queries", solver.queries); num("z3_queries", solver.z3_queries); num("z3_unsat", solver.z3_unsat); num("z3_sat", solver.z3_sat); num("cache_hits", solver.cache_hits); num("model_hits", solver.model_hits); num("unknown", solver.unknowns); num("abstract_unsat", solver.abstract_unsat);
    num("solver_seconds", solver.z3_time); num("wall_seconds", now() - t0); num("max_path_steps", maxPathSteps); num("sym_vars", P.vars.size()); num("exprs", P.all.size());
    j += "\"incomplete\":{"; { bool first = true; for (auto& k : incomplete) { if (!first) j += ","; first = false; j += "\"" + esc(k.first) + "\":" + std::to_string(k.second); } } j += "},";
    j += "\"reached\":{"; { bool first = true; for (auto& k : reachCount) { if (!first) j += ","; first = false; j += "\"" + esc(k.first) + "\":{\"paths\":" + std::to_string(k.second) + ",\"inputs\":" + inJson(reachModel[k.first]) + "}"; } } j += "},";
    j += "\"path_models\":["; for (size_t i = 0; i < pathModels.size(); ++i) { if (i) j += ","; j += "{\"inputs\":" + inJson(pathModels[i]) + ",\"obs\":\"" + pathObs[i] + "\"}"; } j += "],";
    j += "\"functions\":["; { bool first = true; std::set<std::string> names; for (auto& k : fns) if (k.second->calls) { std::string n = fnName(k.first); if (n.find("eprosima::xtypes") != std::string::npos) { size_t p = n.find('('); names.insert(n.substr(0, 240)); } }
        // functions of the headers inlined by clang: the scopes of the instructions of every executed block
        std::set<const DISubprogram*> done; std::set<const DILocation*> seen;
        for (auto& k : fns) if (k.second->calls) for (size_t b = 0; b < k.second->blks.size(); ++b) if (!b || k.second->blks[b].hit) for (auto& I : *k.second->blks[b].bb) for (const DILocation* l = I.getDebugLoc().get(); l && l->getInlinedAt() && seen.insert(l).second; l = l->getInlinedAt())
        { const DISubprogram* sp = l->getScope()->getSubprogram(); if (!sp || !done.insert(sp).second) continue; std::string f = sp->getFilename().str(); size_t p = f.rfind("include/xtypes/"); if (p != std::string::npos) names.insert("inlined " + sp->getName().str().substr(0, 160) + " (" + f.substr(p) + ":" + std::to_string(sp->getLine()) + ")"); }
        for (auto& n : names) { if (!first) j += ","; first = false; j += "\"" + esc(n) + "\""; } } j += "],";
    j += "\"violations\":["; for (size_t i = 0; i < reports.size(); ++i) { auto& r = reports[i]; if (i) j += ","; j += "{\"kind\":\"" + esc(r.kind) + "\",\"msg\":\"" + esc(r.msg) + "\",\"fn\":\"" + esc(r.fn) + "\",\"trace\":\"" + esc(r.trace) + "\",\"inputs\":" + inJson(r.inputs) + "}"; } j += "]}";
    if (out.empty()) puts(j.c_str()); else { std::ofstream o(out); o << j << "\n"; }
    fflush(stdout);
    if (isChild) giveToken();
    _exit(0);
}
