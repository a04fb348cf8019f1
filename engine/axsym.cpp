// axsym: bounded symbolic executor for LLVM IR (as emitted by rustc), deciding
// branch feasibility and assertions with Z3.  See DESIGN.md for the semantics.
#include "expr.h"
#include "sat.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/MathExtras.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <deque>
#include <map>
#include <set>
#include <random>
#include <fstream>
#include <sstream>
#include <pthread.h>
#include <sys/resource.h>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr;

static Exprs X;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Unsupported : std::runtime_error { using runtime_error::runtime_error; };
struct Inconclusive : std::runtime_error { using runtime_error::runtime_error; };
struct PathEnd {};
[[noreturn]] static void unsup(const string &s) { throw Unsupported(s); }

struct Val { E e = nullptr; uint64_t c = 0; };
static inline Val cv(uint64_t c) { return Val{nullptr, c}; }
static inline Val ev(E e) { if (e->op == K && e->w <= 64) return Val{nullptr, e->k}; return Val{e, 0}; }
static inline E toE(const Val &v, uint32_t w) { return v.e ? v.e : X.cst(w, v.c); }

// ---------------------------------------------------------------- statistics
struct Stats {
  uint64_t instrs = 0, paths = 0, forks = 0, queries = 0, cacheHits = 0, sat = 0, unsat = 0, asserts = 0, assertQueries = 0, assumedAway = 0, allowedPanics = 0, maxQueryMs = 0, z3 = 0, confirmed = 0, byteq = 0;
  double solver = 0, z3time = 0;
} S;

// ---------------------------------------------------------------- Z3
struct Solver {
  Z3_context ctx = nullptr; vector<Z3_ast> bv, bo;  unsigned timeoutMs = 60000; size_t made = 0;
  void init() {
    if (ctx) Z3_del_context(ctx);
    Z3_config c = Z3_mk_config(); ctx = Z3_mk_context_rc(c); Z3_del_config(c);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); });
    bv.clear(); bo.clear(); bv2.clear(); bo2.clear(); sorts.clear(); made = 0;
    one1 = Z3_mk_unsigned_int64(ctx, 1, sort(1)); Z3_inc_ref(ctx, one1); zero1 = Z3_mk_unsigned_int64(ctx, 0, sort(1)); Z3_inc_ref(ctx, zero1);
  }
  Z3_ast keep(vector<Z3_ast> &m, E e, Z3_ast a) { Z3_inc_ref(ctx, a); if (m.size() <= e->id) m.resize(e->id * 5 / 4 + 64, nullptr); m[e->id] = a; made++; return a; }
  bool abstracted = false; vector<Z3_ast> bv2, bo2; // with `abstracted`, wide products and quotients are unconstrained (unsat carries over)
  std::unordered_map<uint32_t, Z3_sort> sorts; Z3_ast one1 = nullptr, zero1 = nullptr;
  Z3_sort sort(uint32_t w) { auto it = sorts.find(w); if (it != sorts.end()) return it->second; Z3_sort s = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); return sorts[w] = s; }
  Z3_ast num(const APInt &v) { SmallString<80> s; v.toStringUnsigned(s, 10); return Z3_mk_numeral(ctx, s.c_str(), sort(v.getBitWidth())); }
  Z3_ast B(E e) { // boolean view of a 1-bit expression
    if (e->id < bo.size() && bo[e->id]) return bo[e->id];
    Z3_ast r;
    switch (e->op) {
    case K: r = e->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, B(e->a), B(e->b)) : Z3_mk_eq(ctx, V(e->a), V(e->b)); break;
    case ULT: r = Z3_mk_bvult(ctx, V(e->a), V(e->b)); break;
    case SLT: r = Z3_mk_bvslt(ctx, V(e->a), V(e->b)); break;
    case AND: { Z3_ast x[2] = {B(e->a), B(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case OR: { Z3_ast x[2] = {B(e->a), B(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case XOR: r = Exprs::isOnes(e->b) ? Z3_mk_not(ctx, B(e->a)) : Z3_mk_xor(ctx, B(e->a), B(e->b)); break;
    case ITE: r = Z3_mk_ite(ctx, B(e->a), B(e->b), B(e->c)); break;
    default: r = Z3_mk_eq(ctx, V(e), one1); break;
    }
    return keep(bo, e, r);
  }
  bool isBool(E e) { return e->w == 1 && (e->op == EQ || e->op == ULT || e->op == SLT || e->op == AND || e->op == OR || e->op == XOR || e->op == ITE); }
  Z3_ast V(E e) {
    if (e->id < bv.size() && bv[e->id]) return bv[e->id];
    Z3_ast r;
    if (isBool(e)) r = Z3_mk_ite(ctx, B(e), one1, zero1);
    else if (abstracted && nonlinear(e)) r = Z3_mk_fresh_const(ctx, "nl", sort(e->w));
    else switch (e->op) {
    case K: r = e->w <= 64 ? Z3_mk_unsigned_int64(ctx, e->k, sort(e->w)) : num(*e->wide); break;
    case VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->k), sort(e->w)); break;
    case ADD: r = Z3_mk_bvadd(ctx, V(e->a), V(e->b)); break;
    case SUB: r = Z3_mk_bvsub(ctx, V(e->a), V(e->b)); break;
    case MUL: r = Z3_mk_bvmul(ctx, V(e->a), V(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, V(e->a), V(e->b)); break;
    case UREM: r = Z3_mk_bvurem(ctx, V(e->a), V(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, V(e->a), V(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(ctx, V(e->a), V(e->b)); break;
    case AND: r = Z3_mk_bvand(ctx, V(e->a), V(e->b)); break;
    case OR: r = Z3_mk_bvor(ctx, V(e->a), V(e->b)); break;
    case XOR: r = Z3_mk_bvxor(ctx, V(e->a), V(e->b)); break;
    case SHL: r = Z3_mk_bvshl(ctx, V(e->a), V(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, V(e->a), V(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(ctx, V(e->a), V(e->b)); break;
    case ITE: r = Z3_mk_ite(ctx, B(e->a), V(e->b), V(e->c)); break;
    case CONCAT: r = Z3_mk_concat(ctx, V(e->a), V(e->b)); break;
    case EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, V(e->a)); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, V(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, V(e->a)); break;
    default: abort();
    }
    return keep(bv, e, r);
  }
  void params(Z3_solver s, unsigned ms) {
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  }
  void readModel(Z3_solver s, const vector<E> &cs, Model *out) {
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    std::set<uint32_t> vs; for (E c : cs) for (uint32_t v : X.varsOf(c)) vs.insert(v);
    for (uint32_t v : vs) {
      E ve = X.vars[v].node; Z3_ast a = V(ve), val;
      Z3_func_decl d = Z3_get_app_decl(ctx, Z3_to_app(ctx, a)); val = Z3_model_get_const_interp(ctx, m, d);
      APInt ai(ve->w, 0);
      if (val) { Z3_inc_ref(ctx, val); uint64_t u; if (ve->w <= 64 && Z3_get_numeral_uint64(ctx, val, &u)) ai = APInt(ve->w, u); else ai = APInt(ve->w, Z3_get_numeral_string(ctx, val), 10); Z3_dec_ref(ctx, val); }
      out->v[v] = ai;
    }
    Z3_model_dec_ref(ctx, m);
  }
  Blaster *bb = nullptr; std::unordered_map<E, bool> hardMemo; uint64_t conflictLimit = 20000;
  static bool nonlinear(E e) { return (e->op == MUL || e->op == UDIV || e->op == UREM || e->op == SDIV || e->op == SREM) && e->w > 66 && !(e->op == MUL && e->b->op == K); }
  bool hard(E e) { // wide non-linear arithmetic goes to Z3 directly
    auto it = hardMemo.find(e); if (it != hardMemo.end()) return it->second; bool h = nonlinear(e);
    for (E c : {e->a, e->b, e->c}) if (c && !h) h = hard(c);
    return hardMemo[e] = h;
  }
  int z3check(const vector<E> &cs, Model *out, bool nl = false) {
    if (!ctx || made > 3000000) init();
    if (nl) { // first with products and quotients as uninterpreted functions (unsat carries over), then for models with one operand fixed
      std::set<E> seen; vector<E> nls; std::function<void(E)> walk = [&](E e) { if (!e || !seen.insert(e).second) return; if (nonlinear(e)) nls.push_back(e); walk(e->a); walk(e->b); walk(e->c); }; for (E c : cs) walk(c);
      unsigned ms = timeoutMs; timeoutMs = std::min(ms, 20000u); bv.swap(bv2); bo.swap(bo2); abstracted = true;
      vector<E> cs2 = cs; for (size_t i = 0; i < nls.size() && nls.size() < 40; i++) for (size_t j = 0; j < i; j++) { E x = nls[i], y = nls[j]; if (x->op == y->op && x->w == y->w) { E same = X.bin(AND, X.eq(x->a, y->a), X.eq(x->b, y->b)); if (x->op == MUL) same = X.bin(OR, same, X.bin(AND, X.eq(x->a, y->b), X.eq(x->b, y->a))); cs2.push_back(X.bin(OR, X.bnot(same), X.mk(EQ, 1, x, y))); } }
      int r = z3check(cs2, nullptr); abstracted = false; bv.swap(bv2); bo.swap(bo2);
      for (int k = 0; k < 3 && r != 0; k++) { cs2 = cs; for (E e : nls) if (e->b->op != K) cs2.push_back(X.eq(e->b, X.cst(k == 0 ? APInt::getLowBitsSet(e->w, e->b->abits) : APInt(e->w, k == 1 ? 1 : 0)))); timeoutMs = std::min(ms, 5000u); if (z3check(cs2, out) == 1) { timeoutMs = ms; return 1; } }
      timeoutMs = ms; if (r == 0) return 0;
    }
    S.z3++; double t0 = now();
    Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s); params(s, timeoutMs);
    for (E c : cs) Z3_solver_assert(ctx, s, B(c));
    Z3_lbool r = Z3_solver_check(ctx, s); if (r == Z3_L_TRUE && out) readModel(s, cs, out);
    Z3_solver_dec_ref(ctx, s); S.z3time += now() - t0;
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  }
  // 1 sat, 0 unsat, -1 unknown
  int check(const vector<E> &cs, const vector<E> &all, Model *out, bool confirm = false) {
    double t0 = now(); int r = -1; if (!bb) bb = new Blaster(X);
    bool h = false; for (E c : cs) h = h || hard(c);
    if (!h) r = bb->check(cs, all, out, conflictLimit);
    if (r < 0) { r = z3check(cs, out, h); if (r < 0 && !h) r = bb->check(cs, all, out, 3000000); }
    else if (r == 0 && confirm) { int z = z3check(cs, nullptr); if (z == 1) { fprintf(stderr, "solver disagreement\n"); _exit(3); } if (z == 0) S.confirmed++; }
    double dt = now() - t0; S.solver += dt; S.queries++; if (dt * 1000 > S.maxQueryMs) S.maxQueryMs = dt * 1000;
    if (r == 1) { // every model is re-checked by evaluation
      if (out) { Evaluator q(out); for (E c : cs) if (!q.ev64(c)) { fprintf(stderr, "model check failed\n"); _exit(3); } }
      S.sat++; return 1; }
    if (r == 0) { S.unsat++; return 0; }
    return -1;
  }
} Z;

// ---------------------------------------------------------------- memory
struct Obj {
  uint32_t size = 0; uint8_t kind = 0; // 0 stack 1 heap 2 global 3 function
  bool konst = false; uint32_t align = 1;
  vector<uint8_t> d; vector<E> s; // s empty when fully concrete
  bool anySym(uint32_t off, uint32_t n) const { if (s.empty()) return false; for (uint32_t i = 0; i < n; i++) if (s[off + i]) return true; return false; }
};
typedef shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[64]; };
static const uint64_t DYN = 1ull << 24; // object ids below are globals and functions
struct Memory {
  vector<shared_ptr<Chunk>> g, d;
  ObjP get(uint64_t id) const { auto &ch = id < DYN ? g : d; if (id >= DYN) id -= DYN; if (id / 64 >= ch.size() || !ch[id / 64]) return nullptr; return ch[id / 64]->o[id % 64]; }
  Chunk &wchunk(uint64_t id) {
    auto &ch = id < DYN ? g : d; if (id >= DYN) id -= DYN;
    if (id / 64 >= ch.size()) ch.resize(id / 64 + 1);
    auto &p = ch[id / 64];
    if (!p) p = std::make_shared<Chunk>(); else if (p.use_count() > 1) p = std::make_shared<Chunk>(*p);
    return *p;
  }
  void set(uint64_t id, ObjP o) { wchunk(id).o[id % 64] = std::move(o); }
  Obj *writable(uint64_t id) { auto &c = wchunk(id); ObjP &p = c.o[id % 64]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
};

// ---------------------------------------------------------------- program
struct Opnd { int slot = -1; vector<Val> k; uint32_t n = 1; };
struct CInst {
  unsigned op; uint32_t dst = 0, w = 0, n = 0, w2 = 0, lanes = 0; // lanes>0: vector
  vector<Opnd> ops; const Instruction *I = nullptr; int64_t aux = 0; vector<std::pair<Opnd, int64_t>> idx; const Function *callee = nullptr; int builtin = 0; vector<uint32_t> tgt; vector<std::pair<uint32_t, uint32_t>> flat; // (offset, width)
  vector<uint64_t> cases; unsigned pred = 0;
};
struct CPhi { uint32_t dst, n; std::unordered_map<uint32_t, Opnd> in; };
struct CBlock { vector<CPhi> phis; vector<CInst> is; bool seen = false; };
struct CFunc { const Function *F; string name; vector<CBlock> bs; uint32_t nslots = 0; vector<uint32_t> argSlot; bool interesting = false; uint64_t calls = 0; };

struct Frame { CFunc *f; vector<Val> r; uint32_t bb = 0, ip = 0; vector<uint32_t> allocas; bool isTry = false; };

struct HashRec { uint32_t n; E in; E out; };
struct MState { Model m; std::unique_ptr<Evaluator> ev; explicit MState(Model x) : m(std::move(x)) { ev.reset(new Evaluator(&m)); } };
struct State {
  vector<Frame> st; Memory mem; vector<E> pc; std::unordered_map<E, E> fact; uint64_t ver = 0; shared_ptr<MState> model;
  std::map<string, int> names; vector<HashRec> hashes; vector<std::pair<string, uint32_t>> inputs; // (full name, nbytes) order of creation
  int allowPanic = 0; uint64_t steps = 0; vector<string> covers; string trail; uint64_t nextId = 0;
  std::unordered_map<uint64_t, uint64_t> tls; vector<std::pair<string, vector<E>>> obs;
};
struct Sample { vector<std::pair<string, string>> in, obs; bool approx; };

struct Violation { string kind, id, where; vector<std::pair<string, string>> inputs; string stack; };

// ---------------------------------------------------------------- options / globals
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr; static std::unordered_map<uint64_t, const Function *> fnAt; static Memory baseMem; static uint64_t baseNext = 16;
static std::unordered_map<const Function *, std::unique_ptr<CFunc>> cfs;
static State *cur; static vector<State *> work; static vector<Violation> viols; static std::set<string> violKeys;
static std::map<string, uint64_t> coverCount; static std::set<string> inconclusive;
static bool concreteMode = false; static std::map<string, string> concreteIn; static bool randomIn = false; static std::mt19937_64 rng(1); static vector<std::pair<string, string>> usedIn; static vector<string> observed;
static uint32_t shardI = 0, shardN = 1; static double maxTime = 600, tStart, afterViol = 0; static uint64_t maxSteps = 200000000ull; static int maxEnum = 4096; static bool trace = false; static uint64_t maxPaths = ~0ull; static bool profile = false;
static vector<Sample> samples; static uint32_t nSamples = 4; static std::mt19937_64 srng(1); static std::map<string, std::set<uint32_t>> repoLines; static std::set<string> repoFns; static string repoDir = "/repo/";
static std::map<string, uint64_t> forkSites; static std::map<string, std::pair<uint64_t, double>> querySites;
static const char *repoPat[] = {"axon_protocol", "axon_tools", "common_", "core_", "axon_", nullptr};

static string hexOf(const uint8_t *p, size_t n) { string s; char b[3]; for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", p[i]); s += b; } return s; }
static uint32_t wOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
  if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * wOf(v->getElementType());
  string s; raw_string_ostream o(s); t->print(o); unsup("type " + o.str());
}
static uint32_t nSlots(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *s = dyn_cast<StructType>(t)) { uint32_t n = 0; for (auto *e : s->elements()) n += nSlots(e); return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nSlots(a->getElementType());
  return 1;
}
static void flatten(Type *t, uint64_t off, vector<std::pair<uint32_t, uint32_t>> &out) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + l->getElementOffset(i), out); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * es, out); return; }
  if (t->isVoidTy()) return;
  out.push_back({(uint32_t)off, wOf(t)});
}
static string demang(const string &n) {
  string d = llvm::demangle(n); // legacy rust mangling demangles as C++-like "a::b::h1234"
  size_t p = d.rfind("::h"); if (p != string::npos && d.size() - p == 19) d.resize(p);
  static const std::pair<const char *, const char *> sub[] = {{"$LT$", "<"}, {"$GT$", ">"}, {"$RF$", "&"}, {"$BP$", "*"}, {"$C$", ","}, {"$u20$", " "}, {"$u7b$", "{"}, {"$u7d$", "}"}, {"$LP$", "("}, {"$RP$", ")"}, {"$u5b$", "["}, {"$u5d$", "]"}, {"..", "::"}};
  for (auto &s : sub) { size_t q; while ((q = d.find(s.first)) != string::npos) d.replace(q, strlen(s.first), s.second); }
  if (d.compare(0, 2, "_<") == 0) d = d.substr(1);
  return d;
}

// ---------------------------------------------------------------- constants
static Val constScalar(const Constant *c);
static void initGlobal(const GlobalVariable *g, uint64_t addr);
static uint64_t addrOf(const GlobalValue *g) {
  if (auto *ga = dyn_cast<GlobalAlias>(g)) { Val v = constScalar(ga->getAliasee()); return v.c; }
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  uint64_t id = baseNext++, a = id << 32; gaddr[g] = a;
  auto o = std::make_shared<Obj>();
  if (auto *f = dyn_cast<Function>(g)) { fnAt[id] = f; o->kind = 3; o->size = 0; baseMem.set(id, o); return a; }
  auto *v = cast<GlobalVariable>(g);
  o->kind = 2; o->size = DL->getTypeAllocSize(v->getValueType()); o->konst = v->isConstant(); o->d.assign(o->size, 0);
  baseMem.set(id, o);
  if (v->hasInitializer()) initGlobal(v, a);
  return a;
}
static void putBytes(Obj &o, uint64_t off, const Val &v, uint32_t w) {
  uint32_t n = (w + 7) / 8;
  if (w <= 64) { for (uint32_t i = 0; i < n; i++) o.d[off + i] = v.c >> (8 * i); return; }
  APInt a = Exprs::val(v.e); for (uint32_t i = 0; i < n; i++) o.d[off + i] = a.extractBitsAsZExtValue(std::min(8u, w - 8 * i), 8 * i);
}
static void putConst(Obj &o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (c->isNullValue() || isa<UndefValue>(c)) return;
  if (auto *ca = dyn_cast<ConstantDataSequential>(c)) {
    if (!t->isVectorTy() || true) { StringRef r = ca->getRawDataValues(); memcpy(&o.d[off], r.data(), r.size()); return; }
  }
  if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *l = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) putConst(o, off + l->getElementOffset(i), s->getOperand(i)); return; }
  if (auto *a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) putConst(o, off + i * es, a->getOperand(i)); return; }
  putBytes(o, off, constScalar(c), wOf(t));
}
static void initGlobal(const GlobalVariable *g, uint64_t addr) {
  Obj *o = baseMem.get(addr >> 32).get(); putConst(*o, 0, g->getInitializer());
}
static Val constScalar(const Constant *c) {
  Type *t = c->getType();
  if (auto *i = dyn_cast<ConstantInt>(c)) return ev(X.cst(i->getValue()));
  if (isa<ConstantPointerNull>(c)) return cv(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return ev(X.cst(APInt(wOf(t), 0)));
  if (auto *f = dyn_cast<ConstantFP>(c)) return ev(X.cst(f->getValueAPF().bitcastToAPInt()));
  if (auto *g = dyn_cast<GlobalValue>(c)) return cv(addrOf(g));
  if (auto *ve = dyn_cast<FixedVectorType>(t)) {
    uint32_t ew = wOf(ve->getElementType()); E acc = nullptr;
    for (unsigned i = 0; i < ve->getNumElements(); i++) { E x = toE(constScalar(c->getAggregateElement(i)), ew); acc = acc ? X.concat(x, acc) : x; }
    return ev(acc);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) unsup("const gep"); return cv(constScalar(cast<Constant>(g->getPointerOperand())).c + off.getZExtValue()); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: { Val v = constScalar(ce->getOperand(0)); uint32_t w = wOf(t), w0 = wOf(ce->getOperand(0)->getType()); E e = toE(v, w0); return ev(w < w0 ? X.extract(e, 0, w) : X.zext(e, w)); }
    case Instruction::Add: return cv((constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c) & maskw(wOf(t)));
    case Instruction::Sub: return cv((constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c) & maskw(wOf(t)));
    case Instruction::ICmp: { Val a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); auto p = ce->getPredicate(); if (p == CmpInst::ICMP_EQ) return cv(a.c == b.c); if (p == CmpInst::ICMP_NE) return cv(a.c != b.c); unsup("const icmp"); }
    default: break;
    }
  }
  string s; raw_string_ostream o(s); c->print(o); unsup("constant " + o.str().substr(0, 200));
}
static void constSlots(const Constant *c, vector<Val> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) constSlots(c->getAggregateElement(i), out);
    return;
  }
  out.push_back(constScalar(c));
}

// ---------------------------------------------------------------- compile
enum Builtin { B_NONE = 0, B_PANIC, B_IGNORE, B_SYM_BYTES, B_SYM_CHOOSE, B_SYM_ASSUME, B_SYM_ASSERT, B_SYM_COVER, B_SYM_TRY, B_SYM_OBSERVE, B_SYM_KECCAK, B_SYM_CONC, B_SYM_ALLOWPANIC, B_SYM_ISSYM, B_SYM_EQ, B_SYM_WIDE,
  B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_MEMCHR, B_ALLOC, B_ALLOCZ, B_DEALLOC, B_REALLOC, B_CALLOC, B_FREE, B_MALLOC, B_MEMALIGN, B_REALLOC_C, B_RET0, B_RETM1, B_ERRNO, B_PTHREAD_GETSPEC, B_PTHREAD_SETSPEC, B_KEYCREATE, B_GETRANDOM, B_SYSCALL, B_CLOCK, B_ABORT,
  B_BSWAP, B_CTLZ, B_CTTZ, B_CTPOP, B_FSHL, B_FSHR, B_LOADREL, B_TRAP, B_UADDSAT, B_USUBSAT, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_REDADD, B_REDOR, B_REDAND, B_REDXOR, B_REDUMAX, B_REDUMIN, B_ABS, B_IDENT, B_PMOVMSKB, B_BITREV, B_SADDSAT, B_SSUBSAT, B_FPTOUISAT, B_FPTOSISAT, B_FCEIL, B_FFLOOR, B_FABS, B_FTRUNC, B_FROUND, B_SECP_CTX, B_UNKNOWN };

static std::unordered_map<string, int> extTab = {
  {"sym_bytes", B_SYM_BYTES}, {"sym_choose", B_SYM_CHOOSE}, {"sym_assume", B_SYM_ASSUME}, {"sym_assert", B_SYM_ASSERT}, {"sym_cover", B_SYM_COVER}, {"sym_try", B_SYM_TRY}, {"sym_observe", B_SYM_OBSERVE}, {"sym_keccak256", B_SYM_KECCAK}, {"sym_concretize", B_SYM_CONC}, {"sym_allow_panic", B_SYM_ALLOWPANIC}, {"sym_is_symbolic", B_SYM_ISSYM}, {"sym_bytes_eq", B_SYM_EQ}, {"sym_wide", B_SYM_WIDE},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR},
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"realloc", B_REALLOC_C}, {"posix_memalign", B_MEMALIGN}, {"aligned_alloc", B_UNKNOWN},
  {"__rust_alloc", B_ALLOC}, {"__rust_alloc_zeroed", B_ALLOCZ}, {"__rust_dealloc", B_DEALLOC}, {"__rust_realloc", B_REALLOC},
  {"__rdl_alloc", B_ALLOC}, {"__rdl_alloc_zeroed", B_ALLOCZ}, {"__rdl_dealloc", B_DEALLOC}, {"__rdl_realloc", B_REALLOC},
  {"abort", B_ABORT}, {"exit", B_ABORT}, {"_exit", B_ABORT},
  {"getenv", B_RET0}, {"pthread_mutex_lock", B_RET0}, {"pthread_mutex_unlock", B_RET0}, {"pthread_rwlock_rdlock", B_RET0}, {"pthread_rwlock_unlock", B_RET0}, {"__cxa_thread_atexit_impl", B_RET0}, {"pthread_key_delete", B_RET0}, {"sched_yield", B_RET0}, {"pthread_self", B_RET0},
  {"pthread_key_create", B_KEYCREATE}, {"pthread_getspecific", B_PTHREAD_GETSPEC}, {"pthread_setspecific", B_PTHREAD_SETSPEC}, {"__errno_location", B_ERRNO}, {"getrandom", B_GETRANDOM}, {"syscall", B_SYSCALL}, {"clock_gettime", B_CLOCK}, {"dlsym", B_RET0},
};
static bool has(const string &s, const char *p) { return s.find(p) != string::npos; }
static int classify(const Function *f) {
  string n = f->getName().str();
  auto it = extTab.find(n); if (it != extTab.end() && !(n == "clock_gettime" && !f->isDeclaration())) return it->second;
  if (has(n, "__rust_no_alloc_shim")) return B_RET0;
  // A hash table behaves the same under every hash function; the constant one keeps its keys symbolic.
  if (has(n, "hashmap_random_keys") || has(n, "4core4hash11BuildHasher8hash_one")) return B_RET0;
  if (has(n, "panic_count") || has(n, "panicking3try")) return f->isDeclaration() ? B_UNKNOWN : B_NONE;
  if (has(n, "4core9panicking") || has(n, "3std9panicking") || n == "rust_begin_unwind" || n == "rust_panic" || n == "__rust_start_panic" || has(n, "handle_alloc_error") || has(n, "core6result13unwrap_failed") || has(n, "core6option13expect_failed") || has(n, "capacity_overflow") || has(n, "core3str16slice_error_fail") || has(n, "rust_oom") || has(n, "std7process5abort") || has(n, "abort_internal") || has(n, "panic_already") || has(n, "__rust_alloc_error_handler") || has(n, "core4cell22panic") || has(n, "panic_access_error")) return B_PANIC;
  if (n.compare(0, 5, "llvm.") == 0) {
    static const std::pair<const char *, int> tab[] = {
      {"llvm.lifetime", B_IGNORE}, {"llvm.dbg", B_IGNORE}, {"llvm.assume", B_IGNORE}, {"llvm.experimental.noalias", B_IGNORE}, {"llvm.x86.sse2.pause", B_IGNORE}, {"llvm.x86.avx.vzeroupper", B_IGNORE}, {"llvm.prefetch", B_IGNORE}, {"llvm.va_", B_UNKNOWN},
      {"llvm.memcpy", B_MEMCPY}, {"llvm.memmove", B_MEMCPY}, {"llvm.memset", B_MEMSET}, {"llvm.bswap", B_BSWAP}, {"llvm.ctlz", B_CTLZ}, {"llvm.cttz", B_CTTZ}, {"llvm.ctpop", B_CTPOP}, {"llvm.fshl", B_FSHL}, {"llvm.fshr", B_FSHR}, {"llvm.load.relative", B_LOADREL}, {"llvm.trap", B_TRAP}, {"llvm.debugtrap", B_TRAP}, {"llvm.ubsantrap", B_TRAP},
      {"llvm.uadd.sat", B_UADDSAT}, {"llvm.usub.sat", B_USUBSAT}, {"llvm.sadd.sat", B_SADDSAT}, {"llvm.ssub.sat", B_SSUBSAT}, {"llvm.uadd.with", B_UADDO}, {"llvm.usub.with", B_USUBO}, {"llvm.umul.with", B_UMULO}, {"llvm.sadd.with", B_SADDO}, {"llvm.ssub.with", B_SSUBO}, {"llvm.smul.with", B_SMULO},
      {"llvm.umax", B_UMAX}, {"llvm.umin", B_UMIN}, {"llvm.smax", B_SMAX}, {"llvm.smin", B_SMIN}, {"llvm.vector.reduce.add", B_REDADD}, {"llvm.vector.reduce.or", B_REDOR}, {"llvm.vector.reduce.and", B_REDAND}, {"llvm.vector.reduce.xor", B_REDXOR}, {"llvm.vector.reduce.umax", B_REDUMAX}, {"llvm.vector.reduce.umin", B_REDUMIN}, {"llvm.abs", B_ABS}, {"llvm.expect", B_IDENT}, {"llvm.threadlocal.address", B_IDENT}, {"llvm.ptrmask", B_UNKNOWN}, {"llvm.x86.sse2.pmovmskb", B_PMOVMSKB}, {"llvm.bitreverse", B_BITREV}, {"llvm.freeze", B_IDENT}, {"llvm.fptoui.sat", B_FPTOUISAT}, {"llvm.fptosi.sat", B_FPTOSISAT}, {"llvm.ceil", B_FCEIL}, {"llvm.floor", B_FFLOOR}, {"llvm.fabs", B_FABS}, {"llvm.trunc", B_FTRUNC}, {"llvm.round", B_FROUND}, {"llvm.stacksave", B_RET0}, {"llvm.stackrestore", B_IGNORE}, {"llvm.x86.xgetbv", B_RET0}};
    for (auto &t : tab) if (n.compare(0, strlen(t.first), t.first) == 0) return t.second;
    return B_UNKNOWN;
  }
  if (f->isDeclaration()) { if (has(n, "context_preallocated_size") || has(n, "context_preallocated_create") || has(n, "context_randomize") || has(n, "context_preallocated_destroy")) return B_SECP_CTX; return B_UNKNOWN; }
  return B_NONE;
}

struct Compiler {
  CFunc &cf; std::unordered_map<const Value *, uint32_t> slot; std::unordered_map<const BasicBlock *, uint32_t> bbIdx; uint32_t ns = 0;
  uint32_t newSlots(Type *t) { uint32_t s = ns; ns += nSlots(t); return s; }
  Opnd op(const Value *v) {
    Opnd o;
    if (isa<MetadataAsValue>(v) || v->getType()->isMetadataTy() || isa<InlineAsm>(v)) { o.n = 0; return o; }
    o.n = nSlots(v->getType());
    if (auto *c = dyn_cast<Constant>(v)) { constSlots(c, o.k); return o; }
    auto it = slot.find(v); if (it == slot.end()) unsup("operand"); o.slot = it->second; return o;
  }
  void run() {
    const Function *F = cf.F;
    for (auto &a : F->args()) { slot[&a] = newSlots(a.getType()); cf.argSlot.push_back(slot[&a]); }
    uint32_t i = 0; for (auto &b : *F) { bbIdx[&b] = i++; for (auto &I : b) if (!I.getType()->isVoidTy()) slot[&I] = newSlots(I.getType()); }
    cf.bs.resize(i); i = 0;
    for (auto &b : *F) {
      CBlock &cb = cf.bs[i++];
      for (auto &I : b) {
        if (auto *p = dyn_cast<PHINode>(&I)) { CPhi cp; cp.dst = slot[p]; cp.n = nSlots(p->getType()); for (unsigned k = 0; k < p->getNumIncomingValues(); k++) cp.in[bbIdx[p->getIncomingBlock(k)]] = op(p->getIncomingValue(k)); cb.phis.push_back(std::move(cp)); continue; }
        CInst c; c.I = &I; c.op = I.getOpcode();
        if (!I.getType()->isVoidTy()) { c.dst = slot[&I]; c.n = nSlots(I.getType()); }
        Type *t = I.getType();
        if (!t->isVoidTy() && !t->isStructTy() && !t->isArrayTy()) c.w = wOf(t);
        switch (I.getOpcode()) {
        case Instruction::Call: case Instruction::Invoke: {
          auto *cb2 = cast<CallBase>(&I);
          for (auto &a : cb2->args()) c.ops.push_back(op(a));
          if (auto *ii = dyn_cast<InvokeInst>(&I)) c.tgt.push_back(bbIdx[ii->getNormalDest()]);
          if (cb2->isInlineAsm()) { c.aux = 1; break; }
          const Function *f = dyn_cast<Function>(cb2->getCalledOperand()->stripPointerCasts());
          if (auto *ga = dyn_cast<GlobalAlias>(cb2->getCalledOperand())) f = dyn_cast<Function>(ga->getAliaseeObject());
          c.callee = f;
          if (f) { c.builtin = classify(f); } else { c.ops.push_back(op(cb2->getCalledOperand())); }
          if (cb2->arg_size() && !cb2->getArgOperand(0)->getType()->isMetadataTy()) { Type *at = cb2->getArgOperand(0)->getType(); if (!at->isStructTy() && !at->isArrayTy()) { c.w2 = wOf(at); if (auto *vt = dyn_cast<FixedVectorType>(at)) c.lanes = vt->getNumElements(); } }
          break;
        }
        case Instruction::GetElementPtr: {
          auto *g = cast<GEPOperator>(&I); if (t->isVectorTy()) unsup("vector gep"); c.ops.push_back(op(g->getPointerOperand()));
          for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
            if (auto *st = gi.getStructTypeOrNull()) { c.aux += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
            uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) { c.aux += ci->getSExtValue() * (int64_t)sz; continue; }
            c.idx.push_back({op(gi.getOperand()), (int64_t)sz}); c.cases.push_back(wOf(gi.getOperand()->getType()));
          }
          break;
        }
        case Instruction::Br: { auto *br = cast<BranchInst>(&I); if (br->isConditional()) { c.ops.push_back(op(br->getCondition())); c.tgt = {bbIdx[br->getSuccessor(0)], bbIdx[br->getSuccessor(1)]}; } else c.tgt = {bbIdx[br->getSuccessor(0)]}; break; }
        case Instruction::Switch: { auto *sw = cast<SwitchInst>(&I); c.ops.push_back(op(sw->getCondition())); c.w = wOf(sw->getCondition()->getType()); c.tgt.push_back(bbIdx[sw->getDefaultDest()]); for (auto &cs : sw->cases()) { if (c.w <= 64) c.cases.push_back(cs.getCaseValue()->getZExtValue()); c.tgt.push_back(bbIdx[cs.getCaseSuccessor()]); } break; }
        case Instruction::Alloca: { auto *al = cast<AllocaInst>(&I); c.aux = DL->getTypeAllocSize(al->getAllocatedType()); c.ops.push_back(op(al->getArraySize())); break; }
        case Instruction::Load: flatten(t, 0, c.flat); c.ops.push_back(op(I.getOperand(0))); break;
        case Instruction::Store: flatten(I.getOperand(0)->getType(), 0, c.flat); c.ops.push_back(op(I.getOperand(0))); c.ops.push_back(op(I.getOperand(1))); break;
        case Instruction::AtomicRMW: { auto *a = cast<AtomicRMWInst>(&I); c.ops = {op(a->getPointerOperand()), op(a->getValOperand())}; c.aux = a->getOperation(); break; }
        case Instruction::AtomicCmpXchg: { auto *a = cast<AtomicCmpXchgInst>(&I); c.ops = {op(a->getPointerOperand()), op(a->getCompareOperand()), op(a->getNewValOperand())}; c.w = wOf(a->getCompareOperand()->getType()); break; }
        case Instruction::ExtractValue: { auto *x = cast<ExtractValueInst>(&I); c.ops = {op(x->getAggregateOperand())}; c.aux = slotIndex(x->getAggregateOperand()->getType(), x->getIndices()); break; }
        case Instruction::InsertValue: { auto *x = cast<InsertValueInst>(&I); c.ops = {op(x->getAggregateOperand()), op(x->getInsertedValueOperand())}; c.aux = slotIndex(x->getAggregateOperand()->getType(), x->getIndices()); break; }
        case Instruction::ShuffleVector: { auto *s = cast<ShuffleVectorInst>(&I); c.ops = {op(s->getOperand(0)), op(s->getOperand(1))}; c.lanes = cast<FixedVectorType>(s->getOperand(0)->getType())->getNumElements(); c.w2 = wOf(cast<FixedVectorType>(t)->getElementType()); for (int m : s->getShuffleMask()) c.cases.push_back((uint64_t)(int64_t)m); break; }
        default: {
          for (auto &u : I.operands()) if (!isa<BasicBlock>(u)) c.ops.push_back(op(u));
          if (I.getNumOperands() && !I.getOperand(0)->getType()->isStructTy() && !I.getOperand(0)->getType()->isArrayTy() && !isa<BasicBlock>(I.getOperand(0))) {
            Type *ot = I.getOperand(0)->getType(); if (I.getOpcode() == Instruction::Select) ot = I.getOperand(1)->getType();
            if (!ot->isStructTy() && !ot->isArrayTy() && !ot->isVoidTy()) { c.w2 = wOf(ot); if (auto *vt = dyn_cast<FixedVectorType>(ot)) c.lanes = vt->getNumElements(); }
          }
          if (auto *ic = dyn_cast<CmpInst>(&I)) c.pred = ic->getPredicate();
          if (I.getOpcode() == Instruction::Select) { c.aux = I.getOperand(0)->getType()->isVectorTy(); }
        }
        }
        cb.is.push_back(std::move(c));
      }
    }
    cf.nslots = ns;
  }
  uint32_t slotIndex(Type *t, ArrayRef<unsigned> ix) {
    uint32_t s = 0;
    for (unsigned i : ix) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) s += nSlots(st->getElementType(k)); t = st->getElementType(i); }
      else { auto *at = cast<ArrayType>(t); t = at->getElementType(); s += i * nSlots(t); }
    }
    return s;
  }
};
static CFunc *compiled(const Function *F) {
  auto &p = cfs[F]; if (p) return p.get();
  auto c = std::make_unique<CFunc>(); c->F = F; c->name = demang(F->getName().str());
  for (const char **q = repoPat; *q; q++) if (has(c->name, *q)) c->interesting = true;
  Compiler k{*c}; k.run();
  // "compiled" may be re-entered through constants, so fetch the slot again
  auto &p2 = cfs[F]; p2 = std::move(c); return p2.get();
}

// ---------------------------------------------------------------- solver layer
// Exact decision for constraints over a single byte variable: a 256-bit set.
struct Mask { uint64_t m[4]; };
static std::unordered_map<E, Mask> maskMemo;
static const Mask &maskOf(E c, uint32_t v) {
  auto it = maskMemo.find(c); if (it != maskMemo.end()) return it->second;
  Mask k{{0, 0, 0, 0}}; Model m; for (int b = 0; b < 256; b++) { m.v[v] = APInt(8, b); Evaluator q(&m); if (q.ev64(c)) k.m[b / 64] |= 1ull << (b % 64); }
  return maskMemo[c] = k;
}
static std::unordered_map<string, std::pair<int, shared_ptr<Model>>> qcache;
static vector<shared_ptr<Model>> recent;
static void slice(const State &s, E c, vector<E> &out) {
  const auto &v0 = X.varsOf(c); std::unordered_set<uint32_t> vs(v0.begin(), v0.end());
  vector<char> in(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!in[i]) { const auto &pv = X.varsOf(s.pc[i]); bool hit = false; for (uint32_t x : pv) if (vs.count(x)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; vs.insert(pv.begin(), pv.end()); } } }
  for (size_t i = 0; i < s.pc.size(); i++) if (in[i]) out.push_back(s.pc[i]);
}
// is pc /\ c satisfiable?  on sat, *out = full model
static int satWith(State &s, E c, shared_ptr<MState> *out, bool confirm = false) {
  if (c->op == K) { if (c->k) { if (out) *out = s.model; return 1; } return 0; }
  vector<E> cs; slice(s, c, cs); cs.push_back(c);
  { const auto &cv0 = X.varsOf(c); bool one = cv0.size() == 1 && X.vars[cv0[0]].w == 8; if (one) for (E e : cs) if (X.varsOf(e).size() != 1) { one = false; break; }
    if (one) { Mask k{{~0ull, ~0ull, ~0ull, ~0ull}}; for (E e : cs) { const Mask &q = maskOf(e, cv0[0]); for (int i = 0; i < 4; i++) k.m[i] &= q.m[i]; }
      S.byteq++; int b = -1; for (int i = 0; i < 4 && b < 0; i++) if (k.m[i]) b = 64 * i + __builtin_ctzll(k.m[i]);
      if (b < 0 && !confirm) return 0;
      if (b >= 0) { if (out) { Model m = s.model->m; m.v[cv0[0]] = APInt(8, b); *out = std::make_shared<MState>(std::move(m)); } return 1; } } }
  vector<uint32_t> ids; for (E e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end());
  string key((char *)ids.data(), ids.size() * 4);
  auto it = qcache.find(key); std::pair<int, shared_ptr<Model>> r;
  if (it != qcache.end()) { S.cacheHits++; r = it->second; }
  else {
    auto m = std::make_shared<Model>(); bool hit = false;
    for (size_t k = recent.size(); k-- > 0 && recent.size() - k <= 6;) { Evaluator q(recent[k].get()); bool ok = true; for (size_t j = cs.size(); j-- > 0;) if (!q.ev64(cs[j])) { ok = false; break; } if (ok) { hit = true; for (E e : cs) for (uint32_t v : X.varsOf(e)) { auto f = recent[k]->v.find(v); m->v[v] = f == recent[k]->v.end() ? APInt(X.vars[v].w, 0) : f->second; } break; } }
    int q;
    if (hit) { q = 1; S.cacheHits++; } else { vector<E> all(s.pc); all.push_back(c); q = Z.check(cs, all, m.get(), confirm); }
    r = {q, m}; qcache[key] = r;
    if (q == 1 && !hit) { recent.push_back(m); if (recent.size() > 64) recent.erase(recent.begin(), recent.begin() + 32); }
  }
  if (r.first == 1 && out) { Model m = s.model->m; for (auto &kv : r.second->v) m.v[kv.first] = kv.second; *out = std::make_shared<MState>(std::move(m)); }
  return r.first;
}
static uint64_t factVer = 1;
// record that c holds: c itself becomes true, a negated condition false, and x == K lets x be replaced by K
static void learn(State &s, E c) {
  s.ver = ++factVer;
  if (c->op == K) return;
  if (c->op == AND && c->w == 1) { learn(s, c->a); learn(s, c->b); return; }
  s.fact[c] = X.TRUE();
  if (c->op == XOR && Exprs::isOnes(c->b)) { E n = c->a; s.fact[n] = X.FALSE(); if (n->op == OR && n->w == 1) { learn(s, X.bnot(n->a)); learn(s, X.bnot(n->b)); } return; }
  if (c->op == EQ && Exprs::isK(c->b)) s.fact[c->a] = c->b; else if (c->op == EQ && Exprs::isK(c->a)) s.fact[c->b] = c->a;
}
static bool holds(State &s, E c) { auto it = s.fact.find(c); return it != s.fact.end() && it->second->op == K && it->second->k == 1 && c->w == 1; }
static void addPC(State &s, E c) {
  if (c->op == K) return;
  if (c->op == AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  if (holds(s, c)) return;
  s.pc.push_back(c); learn(s, c);
}
// rewrite an expression under the facts of the current path
static std::unordered_map<E, E> rwMemo; static uint64_t rwVer = 0;
static E rwRec(State &s, E e) {
  if (e->op == K) return e;
  auto it = rwMemo.find(e); if (it != rwMemo.end()) return it->second;
  auto f = s.fact.find(e); E r = e;
  if (f != s.fact.end()) r = f->second;
  else if (e->op != VAR) {
    E a = e->a ? rwRec(s, e->a) : nullptr;
    if (e->op == ITE && a->op == K) r = rwRec(s, a->k ? e->b : e->c);
    else {
      E b = e->b ? rwRec(s, e->b) : nullptr, c = e->c ? rwRec(s, e->c) : nullptr;
      if (a != e->a || b != e->b || c != e->c) {
        switch (e->op) {
        case ITE: r = X.ite(a, b, c); break; case CONCAT: r = X.concat(a, b); break; case EXTRACT: r = X.extract(a, e->lo, e->w); break; case ZEXT: r = X.zext(a, e->w); break; case SEXT: r = X.sext(a, e->w); break;
        default: r = X.bin(e->op, a, b); }
        auto g = s.fact.find(r); if (g != s.fact.end()) r = g->second;
      }
    }
  }
  rwMemo[e] = r; return r;
}
static E rw(State &s, E e) { if (e->op == K || s.fact.empty()) return e; if (rwVer != s.ver) { rwMemo.clear(); rwVer = s.ver; } return rwRec(s, e); }
// what `val` is when the offset `off` equals `k` (reads through the same offset collapse to one element)
static E underOffset(E val, E off, uint64_t k) {
  static State tmp; if (val->op == K) return val;
  tmp.fact.clear(); tmp.fact[off] = X.cst(64, k); for (uint32_t i = 0; i < 16; i++) { E b = X.extract(off, i, 1); uint64_t v = (k >> i) & 1; if (b->op == XOR && Exprs::isOnes(b->b)) { b = b->a; v ^= 1; } if (b->op != K) tmp.fact[b] = X.cst(1, v); }
  std::unordered_map<E, E> keep; keep.swap(rwMemo); E r = rwRec(tmp, val); keep.swap(rwMemo); return r;
}
static string whereStr(const State &s, int depth = 12) {
  string r; int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < depth; i--, n++) { if (n) r += " < "; string nm = s.st[i].f->name; if (nm.size() > 140) nm = nm.substr(0, 140) + "~"; r += nm; }
  return r;
}
static string siteOf(const State &s) { auto &f = s.st.back(); string loc; { auto &b = f.f->bs[f.bb]; const DILocation *l = b.is[std::min<size_t>(f.ip, b.is.size() - 1)].I->getDebugLoc(); string own; for (; l; l = l->getInlinedAt()) { string file = (l->getFilename().starts_with("/") ? "" : l->getDirectory().str() + "/") + l->getFilename().str(); size_t p = file.find(repoDir); string t = file + ":" + std::to_string(l->getLine()); if (own.empty()) own = t; if (p != string::npos) { loc = t; break; } } if (loc.empty()) loc = own; if (!loc.empty()) loc += " "; } return loc + f.f->name.substr(0, 110) + "#" + std::to_string(f.bb) + "." + std::to_string(f.ip); }
// debugging aid: render an expression
static string show(E e, int d = 0) {
  static const char *nm[] = {"K", "VAR", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "cat", "ext", "zx", "sx"};
  if (e->op == K) { if (e->w <= 64) return std::to_string(e->k) + ":" + std::to_string(e->w); SmallString<80> t; e->wide->toStringUnsigned(t, 16); return "0x" + t.str().str(); }
  if (e->op == VAR) return X.vars[e->k].name; if (d > 14) return "#" + std::to_string(e->id);
  string r = string("(") + nm[e->op] + (e->op == EXTRACT ? std::to_string(e->lo) + "+" + std::to_string(e->w) : e->op == ZEXT ? std::to_string(e->w) : "");
  for (E c : {e->a, e->b, e->c}) if (c) r += " " + show(c, d + 1); return r + ")";
}
static bool decide(E c) {
  State &s = *cur;
  if (c->op == K) return c->k;
  c = rw(s, c); if (c->op == K) return c->k;
  E nc = X.bnot(c);
  double qt0 = profile ? now() : 0; string qsite; if (profile) qsite = siteOf(s);
  bool v = s.model->ev->ev64(c); E other = v ? nc : c, mine = v ? c : nc;
  shared_ptr<MState> om; int r = satWith(s, other, &om);
  if (profile) { auto &q = querySites[qsite]; q.first++; q.second += now() - qt0; if (now() - qt0 > 0.5) { static int sh = 0; if (sh++ < 3) { fprintf(stderr, "slow query at %s\n  %s\n", qsite.c_str(), show(other).c_str()); vector<E> cs; slice(s, c, cs); for (E q : cs) fprintf(stderr, "   pc %s\n", show(q).c_str()); } } }
  if (r < 0) { inconclusive.insert("solver gave no answer at " + siteOf(s)); throw Inconclusive("solver unknown"); }
  if (r == 1) {
    State *n = new State(s); n->model = om; addPC(*n, other); work.push_back(n); S.forks++; if (profile) forkSites[siteOf(s)]++;
    addPC(s, mine);
  } else learn(s, mine);
  return v;
}
static uint64_t concretize(const Val &v) {
  if (!v.e) return v.c;
  { E e = rw(*cur, v.e); if (e->op == K) { if (e->w > 64) unsup("wide concretize"); return e->k; } }
  for (int i = 0; i < maxEnum; i++) { uint64_t c = cur->model->ev->ev64(v.e); if (decide(X.eq(v.e, X.cst(v.e->w, c)))) return c; }
  throw Inconclusive("enumeration limit");
}
static uint64_t concretize(const Val &v, uint32_t w) { if (v.e && v.e->w > 64) unsup("wide concretize"); (void)w; return concretize(v); }

// ---------------------------------------------------------------- violations
E findVar(const string &);
static void report(const string &kind, const string &id, const string &where, MState *m) {
  State &s = *cur; string key = kind + "|" + id; if (kind != "assert") key += "|" + where;
  if (violKeys.insert(key).second) {
    Violation v; v.kind = kind; v.id = id; v.where = where; v.stack = whereStr(s);
    for (auto &in : s.inputs) {
      vector<uint8_t> b(in.second);
      for (uint32_t i = 0; i < in.second; i++) { // byte variables named "<name>[i]"
        E e = findVar(in.first + "[" + std::to_string(i) + "]"); b[i] = e ? m->ev->ev64(e) : 0; }
      v.inputs.push_back({in.first, hexOf(b.data(), b.size())});
    }
    if (concreteMode) v.inputs = usedIn;
    viols.push_back(v);
    if (viols.size() == 1 && afterViol > 0) maxTime = std::min(maxTime, now() - tStart + afterViol);
  }
}
static std::unordered_map<string, E> varTab;
E findVar(const string &n) { auto it = varTab.find(n); return it == varTab.end() ? nullptr : it->second; }
static E getVar(const string &n, uint32_t w) { auto it = varTab.find(n); if (it != varTab.end()) return it->second; E e = X.var(w, n); varTab[n] = e; return e; }
// satWith for a counterexample: equal hashes exactly for equal inputs, which other queries only assume where two hashes are compared whole
static int satReal(State &s, E c, shared_ptr<MState> *out) {
  shared_ptr<MState> m = s.model; E q = c;
  for (int round = 0; round < 60; round++) {
    int r = satWith(s, q, &m, true); if (r != 1) return r;
    vector<const HashRec *> hs; std::set<uint32_t> seen; for (auto &h : s.hashes) if (seen.insert(h.out->id).second) hs.push_back(&h);
    E more = nullptr;
    for (size_t i = 0; i < hs.size() && !more; i++) for (size_t j = 0; j < i; j++) {
      const HashRec &a = *hs[i], &b = *hs[j]; if (a.out->op == K && b.out->op == K) continue;
      bool sameIn = a.n == b.n && (!a.n || m->ev->ev(a.in) == m->ev->ev(b.in)), sameOut = m->ev->ev(a.out) == m->ev->ev(b.out);
      if (sameIn == sameOut) continue;
      E ne = X.or_(X.ult(a.out, b.out), X.ult(b.out, a.out));
      more = sameOut ? a.n == b.n ? X.or_(ne, X.eq(a.in, b.in)) : ne : X.or_(X.bnot(ne), X.bnot(X.eq(a.in, b.in))); break;
    }
    if (!more) { if (out) *out = m; return 1; }
    q = q->op == K ? more : X.bnot(X.or_(X.bnot(q), X.bnot(more)));
  }
  return -1;
}
[[noreturn]] static void fatalViolation(const string &kind, const string &id, const string &where) {
  shared_ptr<MState> m = cur->model;
  if (!concreteMode && satReal(*cur, X.cst(1, 1), &m) == 0) throw PathEnd(); // the path needs a hash collision
  report(kind, id, where, m.get()); throw PathEnd();
}

// ---------------------------------------------------------------- memory access
static ObjP lookup(uint64_t id) { ObjP o = cur->mem.get(id); if (o) return o; if (id < baseNext) return baseMem.get(id); return nullptr; }
static Obj *writableObj(uint64_t id) {
  ObjP o = cur->mem.get(id);
  if (!o) { o = baseMem.get(id); cur->mem.set(id, o); }
  return cur->mem.writable(id);
}
static uint64_t newObj(uint64_t size, uint8_t kind) {
  if (size > (1u << 30)) throw Inconclusive("allocation larger than 1 GiB");
  uint64_t id = cur->nextId++; auto o = std::make_shared<Obj>(); o->size = size; o->kind = kind; o->d.assign(size, 0); cur->mem.set(id, o); return id << 32;
}
static void memErr(const char *what, uint64_t a, uint64_t n) { char b[160]; snprintf(b, 160, "%s at %llx size %llu", what, (unsigned long long)a, (unsigned long long)n); if (getenv("AXSYM_DEBUG")) fprintf(stderr, "%s\n", b); fatalViolation("memory", what, siteOf(*cur)); }
static ObjP resolve(uint64_t a, uint64_t n) {
  uint64_t id = a >> 32, off = a & 0xffffffffull; ObjP o = lookup(id);
  if (!o) memErr("access through an invalid pointer", a, n);
  if (off + n > o->size) memErr("out-of-bounds access", a, n);
  return o;
}
static Val loadObj(const Obj &o, uint64_t off, uint32_t w) {
  uint32_t n = (w + 7) / 8;
  if (!o.anySym(off, n)) {
    if (w <= 64) { uint64_t v = 0; for (uint32_t i = 0; i < n; i++) v |= (uint64_t)o.d[off + i] << (8 * i); return cv(v & maskw(w)); }
    SmallVector<uint64_t, 8> ws((n + 7) / 8, 0); for (uint32_t i = 0; i < n; i++) ws[i / 8] |= (uint64_t)o.d[off + i] << (8 * (i % 8));
    return ev(X.cst(APInt(w, ws)));
  }
  E acc = nullptr;
  for (uint32_t i = 0; i < n; i++) { E b = o.s[off + i] ? o.s[off + i] : X.cst(8, o.d[off + i]); acc = acc ? X.concat(b, acc) : b; }
  if (acc->w > w) acc = X.extract(acc, 0, w);
  return ev(acc);
}
static void setByte(Obj &o, uint64_t off, E b) {
  if (b->op == K) { o.d[off] = b->k; if (!o.s.empty()) o.s[off] = nullptr; return; }
  if (o.s.empty()) o.s.assign(o.size, nullptr);
  o.s[off] = b;
}
static void storeObj(Obj &o, uint64_t off, const Val &v, uint32_t w) {
  uint32_t n = (w + 7) / 8;
  if (!v.e) { for (uint32_t i = 0; i < n; i++) o.d[off + i] = i < 8 ? v.c >> (8 * i) : 0; if (!o.s.empty()) for (uint32_t i = 0; i < n; i++) o.s[off + i] = nullptr; return; }
  E e = w % 8 ? X.zext(v.e, n * 8) : v.e;
  for (uint32_t i = 0; i < n; i++) setByte(o, off + i, X.extract(e, 8 * i, 8));
}
static uint32_t tzOf(E e) { uint32_t t = 0; while (e->op == ZEXT) e = e->a; if (e->op == CONCAT) { if (Exprs::isZero(e->b)) { t = e->b->w; return t; } return tzOf(e->b) < e->b->w ? tzOf(e->b) : e->b->w; } if (e->op == ADD) return std::min(tzOf(e->a), tzOf(e->b)); if (e->op == K) return e->w <= 64 ? (e->k ? __builtin_ctzll(e->k) : e->w) : e->wide->countr_zero(); if (e->op == ITE) return std::min(tzOf(e->b), tzOf(e->c)); if (e->op == MUL) return std::min(63u, tzOf(e->a) + tzOf(e->b)); return 0; }
static bool iteLeaves(E e, int &budget) { if (e->op == K) return --budget >= 0; if (e->op == ITE) return iteLeaves(e->b, budget) && iteLeaves(e->c, budget); return false; }
static void loadFields(const vector<std::pair<uint32_t, uint32_t>> &flat, uint64_t a, Val *out) {
  uint64_t n = 0; for (auto &f : flat) n = std::max<uint64_t>(n, f.first + (f.second + 7) / 8);
  ObjP o = resolve(a, n); for (size_t i = 0; i < flat.size(); i++) out[i] = loadObj(*o, (a & 0xffffffffull) + flat[i].first, flat[i].second);
}
// Turns a symbolic address into (object base, offset expression) on the current path; leaves addr concrete when it has few values.
struct SymAddr { bool conc; uint64_t a; uint64_t id; E off; ObjP o; uint32_t step; uint64_t lo, hi; };
static bool symMem = false; // also keep addresses into small heap and stack objects symbolic
static SymAddr symAddr(const Val &p, uint64_t n) {
  SymAddr r{}; if (!p.e) { r.conc = true; r.a = p.c; return r; }
  int bud = 4; if (iteLeaves(p.e, bud)) { r.conc = true; r.a = concretize(p); return r; }
  E pe = rw(*cur, p.e); if (pe->op == K) { r.conc = true; r.a = pe->k; return r; }
  uint64_t v = cur->model->ev->ev64(p.e), id = v >> 32; ObjP o = lookup(id);
  // only reads of global tables stay symbolic; other objects get one path per offset
  if (!o || (o->kind != 2 && !(symMem && o->size <= 256))) { r.conc = true; r.a = concretize(p); return r; }
  if (o->size < n) memErr("out-of-bounds access", v, n);
  E off = X.sub(p.e, X.cst(64, id << 32));
  E inb = X.ult(off, X.cst(64, (uint64_t)o->size - n + 1));
  if (!decide(inb)) { // this path's pointer lies outside: only acceptable if it is inside another object
    uint64_t c = concretize(p); r.conc = true; r.a = c; return r; }
  uint64_t hi = std::min<uint64_t>(o->size - n, off->abits <= 64 ? off->umax : ~0ull);
  uint32_t tz = std::min(tzOf(off), 12u);
  uint64_t cnt = (hi >> tz) + 1;
  if (cnt > 4096) { r.conc = true; r.a = concretize(p); return r; }
  r.conc = false; r.id = id; r.off = off; r.o = o; r.step = tz; r.hi = hi >> tz; return r;
}
static E muxRead(const SymAddr &s, E idx, uint32_t foff, uint32_t w, uint64_t lo, uint32_t bits) {
  if (lo > s.hi) return nullptr;
  if (bits == 0) return toE(loadObj(*s.o, (lo << s.step) + foff, w), w);
  E l = muxRead(s, idx, foff, w, lo, bits - 1), h = muxRead(s, idx, foff, w, lo + (1ull << (bits - 1)), bits - 1);
  if (!h) return l;
  return X.ite(X.extract(idx, bits - 1, 1), h, l);
}
static void loadVal(const Val &p, const vector<std::pair<uint32_t, uint32_t>> &flat, Val *out) {
  if (flat.empty()) return;
  if (!p.e) { loadFields(flat, p.c, out); return; }
  uint64_t n = 0; for (auto &f : flat) n = std::max<uint64_t>(n, f.first + (f.second + 7) / 8);
  SymAddr s = symAddr(p, n);
  if (s.conc) { loadFields(flat, s.a, out); return; }
  uint32_t bits = 0; while ((1ull << bits) <= s.hi) bits++;
  E idx = bits ? X.extract(s.off, s.step, bits) : nullptr;
  for (size_t i = 0; i < flat.size(); i++) { E e = muxRead(s, idx, flat[i].first, flat[i].second, 0, bits); out[i] = ev(e); }
}
static void storeVal(const Val &p, const vector<std::pair<uint32_t, uint32_t>> &flat, const Val *v) {
  if (flat.empty()) return;
  uint64_t n = 0; for (auto &f : flat) n = std::max<uint64_t>(n, f.first + (f.second + 7) / 8);
  SymAddr s = symAddr(p, n);
  if (!s.conc && s.hi > 256) { s.conc = true; s.a = concretize(p); }
  if (s.conc) {
    ObjP o = resolve(s.a, n); if (o->konst) memErr("store to constant memory", s.a, n); o.reset();
    Obj *w = writableObj(s.a >> 32); for (size_t i = 0; i < flat.size(); i++) storeObj(*w, (s.a & 0xffffffffull) + flat[i].first, v[i], flat[i].second);
    return;
  }
  if (s.o->konst) memErr("store to constant memory", s.id << 32, n);
  ObjP old = s.o; s.o.reset(); Obj *w = writableObj(s.id);
  for (uint64_t k = 0; k <= s.hi; k++) {
    E hit = X.eq(s.off, X.cst(64, k << s.step)); if (hit->op == K && !hit->k) continue;
    for (size_t i = 0; i < flat.size(); i++) { uint32_t nb = (flat[i].second + 7) / 8; E val = underOffset(X.zext(toE(v[i], flat[i].second), nb * 8), s.off, k << s.step);
      for (uint32_t j = 0; j < nb; j++) { uint64_t pos = (k << s.step) + flat[i].first + j; E ob = !w->s.empty() && w->s[pos] ? w->s[pos] : X.cst(8, w->d[pos]); setByte(*w, pos, X.ite(hit, X.extract(val, 8 * j, 8), ob)); } }
  }
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  ObjP so = resolve(s, n), dо = resolve(d, n); if (dо->konst) memErr("store to constant memory", d, n); bool same = (s >> 32) == (d >> 32); dо.reset();
  uint64_t so_ = s & 0xffffffffull, do_ = d & 0xffffffffull;
  Obj *w = writableObj(d >> 32); const Obj *src = same ? w : so.get();
  memmove(&w->d[do_], &src->d[so_], n);
  if (!src->s.empty()) { if (w->s.empty()) w->s.assign(w->size, nullptr); memmove(&w->s[do_], &src->s[so_], n * sizeof(E)); }
  else if (!w->s.empty()) std::fill(w->s.begin() + do_, w->s.begin() + do_ + n, nullptr);
}
static E byteAt(const Obj &o, uint64_t off) { return !o.s.empty() && o.s[off] ? o.s[off] : X.cst(8, o.d[off]); }
static E wideBytes(uint64_t a, uint64_t n, bool bigEndian) { // n>0
  ObjP o = resolve(a, n); uint64_t off = a & 0xffffffffull; 
  if (!o->anySym(off, n)) { SmallVector<uint64_t, 16> ws((n + 7) / 8, 0); for (uint64_t i = 0; i < n; i++) { uint64_t k = bigEndian ? n - 1 - i : i; ws[k / 8] |= (uint64_t)o->d[off + i] << (8 * (k % 8)); } return X.cst(APInt(n * 8, ws)); }
  E acc = nullptr;
  for (uint64_t i = 0; i < n; i++) { E b = byteAt(*o, bigEndian ? off + n - 1 - i : off + i); acc = acc ? X.concat(b, acc) : b; }
  return acc;
}
static string readStr(uint64_t a, uint64_t n) { if (!n) return ""; ObjP o = resolve(a, n); return string((const char *)&o->d[a & 0xffffffffull], n); }
static bool tryStr(uint64_t a, uint64_t n, string &out) { ObjP o = lookup(a >> 32); uint64_t off = a & 0xffffffffull; if (!o || o->kind == 3 || n > 4096 || off + n > o->size) return false; out.assign((const char *)o->d.data() + off, n); return true; }

// ---------------------------------------------------------------- keccak
static void keccakf(uint64_t st[25]) {
  static const uint64_t RC[24] = {1, 0x8082, 0x800000000000808aull, 0x8000000080008000ull, 0x808b, 0x80000001, 0x8000000080008081ull, 0x8000000000008009ull, 0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull, 0x8000000000008002ull, 0x8000000000000080ull, 0x800a, 0x800000008000000aull, 0x8000000080008081ull, 0x8000000000008080ull, 0x80000001, 0x8000000080008008ull};
  static const int rot[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}, pil[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
  auto rl = [](uint64_t x, int n) { return (x << n) | (x >> (64 - n)); };
  for (int r = 0; r < 24; r++) { uint64_t bc[5], t;
    for (int i = 0; i < 5; i++) bc[i] = st[i] ^ st[i + 5] ^ st[i + 10] ^ st[i + 15] ^ st[i + 20];
    for (int i = 0; i < 5; i++) { t = bc[(i + 4) % 5] ^ rl(bc[(i + 1) % 5], 1); for (int j = 0; j < 25; j += 5) st[j + i] ^= t; }
    t = st[1]; for (int i = 0; i < 24; i++) { int j = pil[i]; uint64_t b = st[j]; st[j] = rl(t, rot[i]); t = b; }
    for (int j = 0; j < 25; j += 5) { uint64_t b[5]; for (int i = 0; i < 5; i++) b[i] = st[j + i]; for (int i = 0; i < 5; i++) st[j + i] ^= (~b[(i + 1) % 5]) & b[(i + 2) % 5]; }
    st[0] ^= RC[r]; }
}
static void keccak256(const uint8_t *in, size_t n, uint8_t *out) {
  uint64_t st[25] = {0}; const size_t rate = 136; uint8_t *b = (uint8_t *)st; size_t i = 0;
  for (; n - i >= rate; i += rate) { for (size_t k = 0; k < rate; k++) b[k] ^= in[i + k]; keccakf(st); }
  size_t k = 0; for (; i < n; i++, k++) b[k] ^= in[i]; b[k] ^= 1; b[rate - 1] ^= 0x80; keccakf(st); memcpy(out, b, 32);
}
static std::unordered_map<E, E> hashVar;
static void doKeccak(uint64_t in, uint64_t n, uint64_t out) {
  State &s = *cur; E x = n ? rw(s, wideBytes(in, n, false)) : nullptr; Obj *w; E h = nullptr;
  auto bytesOf = [&](const APInt &v, vector<uint8_t> &b) { b.resize(n); for (uint64_t i = 0; i < n; i++) b[i] = v.extractBitsAsZExtValue(8, 8 * i); };
  vector<uint8_t> b; uint8_t d[32]; bool symb = x && x->op != K;
  APInt xv; if (x) { xv = s.model->ev->ev(x); bytesOf(xv, b); }
  keccak256(b.data(), n, d);
  SmallVector<uint64_t, 4> ws(4, 0); for (int i = 0; i < 32; i++) ws[i / 8] |= (uint64_t)d[i] << (8 * (i % 8)); APInt real(256, ws);
  for (auto &r : s.hashes) if (r.n == n && r.in == x) h = r.out;
  if (!h) // an input that must equal an earlier one on this path shares its hash
    for (auto &r : s.hashes) {
      if (r.n != n || !n || s.model->ev->ev(r.in) != xv) continue;
      E ne = X.bnot(X.eq(r.in, x)); if (ne->op == K ? !ne->k : satWith(s, ne, nullptr) == 0) { h = r.out; s.hashes.push_back({(uint32_t)n, x, h}); break; }
    }
  if (!h) {
    if (!symb) h = X.cst(real);
    else {
      auto it = hashVar.find(x); if (it == hashVar.end()) it = hashVar.emplace(x, getVar("keccak!" + std::to_string(x->id), 256)).first; h = it->second;
      Model m = s.model->m; bool fresh = true; for (E c : s.pc) { auto &pv = X.varsOf(c); if (std::binary_search(pv.begin(), pv.end(), (uint32_t)h->k)) fresh = false; }
      if (fresh) { m.v[h->k] = real; s.model = std::make_shared<MState>(std::move(m)); }
    }
    X.hashIn[h] = {(uint32_t)n, x}; s.hashes.push_back({(uint32_t)n, x, h});
  }
  resolve(out, 32); w = writableObj(out >> 32); storeObj(*w, out & 0xffffffffull, ev(h), 256);
}

// digests the code has as constants: of nothing, of the empty string and of the empty list in RLP
static void knownHashes(State &s) {
  for (int i = 0; i < 3; i++) {
    uint8_t in = i == 1 ? 0x80 : 0xc0, d[32]; keccak256(&in, i ? 1 : 0, d);
    SmallVector<uint64_t, 4> ws(4, 0); for (int k = 0; k < 32; k++) ws[k / 8] |= (uint64_t)d[k] << (8 * (k % 8));
    E h = X.cst(APInt(256, ws)), x = i ? X.cst(8, in) : nullptr; X.hashIn[h] = {(uint32_t)(i ? 1 : 0), x}; s.hashes.push_back({(uint32_t)(i ? 1 : 0), x, h});
  }
}
// give every hash variable its true value; true if the path condition still holds
static bool realHashes(State &s, Model &mm) {
  for (auto &h : s.hashes) if (h.out->op != K) { vector<uint8_t> b(h.n); if (h.n) { Evaluator e(&mm); APInt v = e.ev(h.in); for (uint32_t i = 0; i < h.n; i++) b[i] = v.extractBitsAsZExtValue(8, 8 * i); }
      uint8_t d[32]; keccak256(b.data(), b.size(), d); SmallVector<uint64_t, 4> ws(4, 0); for (int i = 0; i < 32; i++) ws[i / 8] |= (uint64_t)d[i] << (8 * (i % 8)); mm.v[h.out->k] = APInt(256, ws); }
  Evaluator e(&mm); for (E c : s.pc) if (!e.ev64(c)) return false; return true;
}
static void sampleEnd(State &s) { // reservoir sample of finished paths, replayed natively by the driver
  if (concreteMode) return; size_t slot = samples.size();
  if (slot >= nSamples) { uint64_t k = srng() % S.paths; if (k >= nSamples) return; slot = k; } else samples.emplace_back();
  Sample r; r.approx = false; for (auto &h : s.hashes) if (h.out->op != K) r.approx = true;
  std::unordered_set<uint32_t> used; for (E c : s.pc) { const auto &pv = X.varsOf(c); used.insert(pv.begin(), pv.end()); }
  Model mm = s.model->m; for (auto &in : s.inputs) for (uint32_t i = 0; i < in.second; i++) { E e = findVar(in.first + "[" + std::to_string(i) + "]"); if (e && !used.count(e->k)) mm.v[e->k] = APInt(8, srng() & 255); } // bytes the path does not constrain
  if (r.approx && realHashes(s, mm)) r.approx = false;
  Evaluator ev(&mm);
  for (auto &in : s.inputs) { vector<uint8_t> b(in.second); for (uint32_t i = 0; i < in.second; i++) { E e = findVar(in.first + "[" + std::to_string(i) + "]"); b[i] = e ? ev.ev64(e) : 0; } r.in.push_back({in.first, hexOf(b.data(), b.size())}); }
  for (auto &o : s.obs) { vector<uint8_t> b; for (E e : o.second) b.push_back(ev.ev64(e)); r.obs.push_back({o.first, hexOf(b.data(), b.size())}); }
  samples[slot] = std::move(r);
}
static void noteBlock(CBlock &b) { // record repository functions and lines behind this block
  b.seen = true;
  for (auto &c : b.is) { const DILocation *l = c.I->getDebugLoc(); for (; l; l = l->getInlinedAt()) {
      auto *sp = l->getScope()->getSubprogram(); if (!sp) continue; string file = (sp->getFilename().starts_with("/") ? sp->getFilename().str() : sp->getDirectory().str() + "/" + sp->getFilename().str());
      size_t p = file.find(repoDir); if (p == string::npos) continue; string rel = file.substr(p + repoDir.size());
      repoLines[rel].insert(l->getLine()); repoFns.insert(rel + ":" + demang(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str())); } }
}
#include "exec.h"
#include "main.h"
