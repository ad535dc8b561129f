// symx: a small forking symbolic executor for LLVM 18 IR, deciding branches and assertions with Z3.
//
// Memory is a flat 64-bit space in which every object owns its own 1 MiB-aligned slot (addresses are
// never reused), so that out-of-bounds, use-after-free and null accesses are detected exactly.
// Symbolic integers are bit-vectors; symbolic doubles are either IEEE (Z3 FP theory) or "grid" values:
// exact dyadic numbers k*2^-s with a bounded symbolic integer k, computed in linear integer/real
// arithmetic with the rounding of every inexact operation accounted for (see GV below).
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <gmpxx.h>

#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <csignal>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <chrono>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <atomic>

using namespace llvm;
typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef uint32_t u32;
typedef unsigned __int128 u128;
typedef Z3_ast A; typedef mpq_class Q; typedef mpz_class Zi;

static double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------------------------------- options
struct Options {
  std::string bc, entry, out;
  double deadline = 120;      // seconds for the whole exploration
  int jobs = 8;
  u64 maxInstr = 40000000;    // per path
  int maxFrames = 400;
  u64 rlimit = 30000000;      // z3 resource limit per query
  std::string logic;          // z3 logic ("" = simple solver)
  int maxViol = 6;
  int samples = 24;           // number of paths exported for differential validation
  int seed = 1;
  bool verbose = false;
  std::vector<std::string> args; // harness integer parameters
} opt;

struct Shared {
  std::atomic<int> tokens;
  std::atomic<int> stop;
  std::atomic<int> viol;
  std::atomic<int> samples;
  std::atomic<u64> paths;
  u64 siteHash[512]; std::atomic<int> nSites;
};
static Shared* sh;
static double t0;

// ---------------------------------------------------------------------------------------- z3 utils
static Z3_context Z;
static Z3_solver SOL;
static Z3_sort SInt, SReal, SBool, SFP;
static A ATrue, AFalse, RZero, RM;

static struct Stats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, instr = 0, forks = 0, paths = 0, pathsDone = 0,
      assumeEnd = 0, unsupported = 0, limits = 0, asserts = 0, assertsProved = 0, ambiguous = 0, cutDeadline = 0;
  double solverTime = 0, maxQuery = 0;
} st;
static std::map<std::string, u64> unsupportedWhy, reachLabels, assertSites;
static std::set<std::string> coveredFns;

static void z3err(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}

struct Unsupported { std::string why; };
struct PathEnd { int why; };  // 0 = ended silently (assume), 1 = violation, 2 = limit

[[noreturn]] static void unsup(const std::string& s) { throw Unsupported{s}; }

static A simp(A a) { return Z3_simplify(Z, a); }
static A mkNot(A a) {
  if (a == ATrue) return AFalse; if (a == AFalse) return ATrue;
  if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, a);
    if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_NOT) return Z3_get_app_arg(Z, ap, 0);
  }
  return Z3_mk_not(Z, a);
}
static A mkAnd(A a, A b) { if (a == AFalse || b == AFalse) return AFalse; if (a == ATrue) return b; if (b == ATrue) return a; A x[2] = {a, b}; return Z3_mk_and(Z, 2, x); }
static A mkOr(A a, A b) { if (a == ATrue || b == ATrue) return ATrue; if (a == AFalse) return b; if (b == AFalse) return a; A x[2] = {a, b}; return Z3_mk_or(Z, 2, x); }
static A mkBVc(u64 v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, w)); }
static A mkAdd(A a, A b) { A x[2] = {a, b}; return Z3_mk_add(Z, 2, x); }
static A mkSub(A a, A b) { A x[2] = {a, b}; return Z3_mk_sub(Z, 2, x); }
static A mkMul(A a, A b) { A x[2] = {a, b}; return Z3_mk_mul(Z, 2, x); }

// exact real numeral of a finite double
static A realOf(double d) {
  static std::unordered_map<u64, A> cache;
  u64 bits; memcpy(&bits, &d, 8);
  auto it = cache.find(bits); if (it != cache.end()) return it->second;
  int e; double m = frexp(d, &e); // d = m*2^e, 0.5<=|m|<1
  long long mi = (long long)ldexp(m, 53); e -= 53;
  if (mi == 0) { A r = Z3_mk_real_int64(Z, 0, 1); return cache[bits] = r; }
  while (!(mi & 1)) { mi /= 2; e++; }
  A r;
  if (e >= 0 && e < 9) r = Z3_mk_real_int64(Z, mi * (1LL << e), 1);
  else if (e < 0 && e > -62) r = Z3_mk_real_int64(Z, mi, 1LL << (-e));
  else {
    // big: build with numeral strings
    Z3_set_error_handler(Z, z3err);
    A two = Z3_mk_real_int64(Z, 2, 1);
    A p = Z3_mk_power(Z, two, Z3_mk_real_int64(Z, e, 1));
    r = simp(mkMul(Z3_mk_numeral(Z, std::to_string(mi).c_str(), SReal), p));
  }
  return cache[bits] = r;
}

// ---------------------------------------------------------------------------------------- values
enum Kind : u8 { UNDEF, CONC, SBV, SBOOL, SFPV, GRID, AGGR, IDBL }; // IDBL: a double that holds exactly a 64-bit signed integer term
struct Val {
  Kind k = UNDEF; u8 um = 0; uint16_t w = 0; u64 lo = 0, hi = 0; void* p = nullptr;
  A ast() const { return (A)p; }
};
typedef std::vector<Val> Agg;

struct GV; struct Lin { std::vector<std::pair<int, Q>> t; Q c; };
static Val mkC(u64 v, unsigned w) { Val r; r.k = CONC; r.w = w; r.lo = (w >= 64) ? v : (v & ((1ULL << w) - 1)); return r; }
static Val mkC128(u128 v, unsigned w) { Val r; r.k = CONC; r.w = w; if (w < 128) v &= (((u128)1) << w) - 1; r.lo = (u64)v; r.hi = (u64)(v >> 64); return r; }
static u128 c128(const Val& v) { return ((u128)v.hi << 64) | v.lo; }
static Val mkD(double d) { u64 b; memcpy(&b, &d, 8); return mkC(b, 64); }
static Val mkF(float d) { u32 b; memcpy(&b, &d, 4); return mkC(b, 32); }
static double asD(const Val& v) { double d; memcpy(&d, &v.lo, 8); return d; }
static float asF(const Val& v) { float d; u32 x = (u32)v.lo; memcpy(&d, &x, 4); return d; }
static Val mkUndef(unsigned w) { Val r; r.k = UNDEF; r.w = w; return r; }
static Val mkBoolV(A b) {
  if (b == ATrue) return mkC(1, 1); if (b == AFalse) return mkC(0, 1);
  Val r; r.k = SBOOL; r.w = 1; r.p = b; return r;
}
static bool numeralU64(A a, u64* out) {
  if (Z3_get_ast_kind(Z, a) != Z3_NUMERAL_AST) return false;
  return Z3_get_numeral_uint64(Z, a, (uint64_t*)out);
}
static Val mkSBV(A a, unsigned w, bool doSimp = false) {
  if (doSimp) a = simp(a);
  u64 v; if (w <= 64 && numeralU64(a, &v)) return mkC(v, w);
  Val r; r.k = SBV; r.w = w; r.p = a; return r;
}
static bool idOk(const Val& v); static unsigned idW(const Val& v); static A idTerm(const Val& v, unsigned w); static Val mkID(A t, unsigned w); static Val idConc(const Val& v);
static Val mkG(GV* g) { Val r; r.k = GRID; r.w = 64; r.p = g; return r; }
static i64 sext64(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= (1ULL << w) - 1; return (i64)((v ^ m) - m); }
static A bvConst128(const Val& v) {
  if (v.w <= 64) return mkBVc(v.lo, v.w);
  A hi = mkBVc(v.hi, v.w - 64), lo = mkBVc(v.lo, 64); return Z3_mk_concat(Z, hi, lo);
}
static A toBV(const Val& v) {
  switch (v.k) {
    case CONC: return bvConst128(v);
    case SBV: return v.ast();
    case SBOOL: return Z3_mk_ite(Z, v.ast(), mkBVc(1, 1), mkBVc(0, 1));
    case SFPV: return Z3_mk_fpa_to_ieee_bv(Z, v.ast());
    case UNDEF: unsup("undef value used in integer operation");
    case GRID: unsup("bit-level use of a grid double");
    case IDBL: unsup("bit-level use of an integral double");
    default: unsup("aggregate used as integer");
  }
}
static A toBool(const Val& v) {
  if (v.k == CONC) return (v.lo & 1) ? ATrue : AFalse;
  if (v.k == SBOOL) return v.ast();
  if (v.k == SBV) return Z3_mk_eq(Z, v.ast(), mkBVc(1, v.w));
  unsup("undef/other used as bool");
}
static A toFP(const Val& v) {
  if (v.k == SFPV) return v.ast();
  if (v.k == CONC) return Z3_mk_fpa_to_fp_bv(Z, mkBVc(v.lo, 64), SFP);
  if (v.k == SBV) return Z3_mk_fpa_to_fp_bv(Z, v.ast(), SFP);
  if (v.k == GRID) unsup("mixing grid and IEEE symbolic doubles");
  unsup("undef used as double");
}

// ---------------------------------------------------------------------------------------- memory
static const unsigned SLOT = 20;
struct Cell { Val v; u32 n; };
enum { O_FREED = 1, O_RO = 2, O_STACK = 4, O_HEAP = 8, O_GLOBAL = 16 };
struct Obj {
  int rc = 1; u32 size = 0; u8 fl = 0; bool hasUndef = false;
  std::vector<u8> b, s;  // s: 0 init, 1 undef (only maintained if hasUndef)
  std::map<u32, Cell> cells;
};
static const int CH = 64;
struct Chunk { int rc = 1; Obj* o[CH] = {}; };
struct Mem {
  std::vector<Chunk*> ch;
  u64 next = 1;  // next object id
  Mem() {}
  Mem(const Mem& m) : ch(m.ch), next(m.next) { for (auto c : ch) if (c) c->rc++; }
  ~Mem() { clear(); }
  void clear() {
    for (auto c : ch) if (c && --c->rc == 0) { for (auto o : c->o) if (o && --o->rc == 0) delete o; delete c; }
    ch.clear();
  }
  Mem& operator=(const Mem&) = delete;
  Obj* get(u64 id) const { u64 c = id / CH; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id % CH]; }
  Chunk* wchunk(u64 id) {
    u64 c = id / CH; while (c >= ch.size()) ch.push_back(nullptr);
    if (!ch[c]) ch[c] = new Chunk();
    else if (ch[c]->rc > 1) {
      Chunk* n = new Chunk(); for (int i = 0; i < CH; i++) { n->o[i] = ch[c]->o[i]; if (n->o[i]) n->o[i]->rc++; }
      ch[c]->rc--; ch[c] = n;
    }
    return ch[c];
  }
  Obj* wget(u64 id) {
    Chunk* c = wchunk(id); Obj*& o = c->o[id % CH]; if (!o) return nullptr;
    if (o->rc > 1) { Obj* n = new Obj(*o); n->rc = 1; o->rc--; o = n; }
    return o;
  }
  u64 alloc(u64 size, u8 fl, bool undef) {
    u64 id = next; next += ((size >> SLOT) + 1);
    Obj* o = new Obj(); o->size = (u32)size; o->fl = fl; o->b.assign(size, 0);
    if (undef) { o->hasUndef = true; o->s.assign(size, 1); }
    wchunk(id)->o[id % CH] = o; return id << SLOT;
  }
};

// ---------------------------------------------------------------------------------------- functions
struct Opnd { int idx = -1; Val c; };  // idx>=0: register
struct DInst { const Instruction* I; int dst; std::vector<Opnd> ops; Type* ty; unsigned opc; };
struct FnInfo {
  const Function* F; std::vector<DInst> code; std::unordered_map<const BasicBlock*, int> start;
  std::unordered_map<const Value*, int> slot; int nslots = 0; std::string name; bool covered = false;
};
struct Frame {
  int rc = 1; FnInfo* fi; int pc; const BasicBlock* prev = nullptr; const BasicBlock* cur = nullptr;
  std::vector<Val> regs; std::vector<u64> allocas; 
};
struct ModelH { int rc; Z3_model m; };

struct Input { std::string name; char t; A ast; double step; u64 conc; };
struct State {
  std::vector<Frame*> fr; Mem mem; std::vector<A> pc; std::vector<std::pair<A, bool>> facts;
  ModelH* model = nullptr; std::vector<Input> in; std::vector<Val> obs; u64 instr = 0;
  std::vector<std::pair<u64, u64>> caught; // exception ptr, typeinfo
  u64 excPtr = 0, excTI = 0; bool approx = false; std::vector<u64> trace; int depthForks = 0; std::set<std::string> labels; long live = 0; // live: allocated and not freed yet
  State() {}
  State(const State& o) : fr(o.fr), mem(o.mem), pc(o.pc), facts(o.facts), model(o.model), in(o.in), obs(o.obs), instr(o.instr),
    caught(o.caught), excPtr(o.excPtr), excTI(o.excTI), approx(o.approx), depthForks(o.depthForks), labels(o.labels), live(o.live) {
    for (auto f : fr) f->rc++; if (model) model->rc++;
  }
  ~State() { for (auto f : fr) if (--f->rc == 0) delete f; setModel(nullptr); }
  void setModel(ModelH* m) { if (model && --model->rc == 0) { Z3_model_dec_ref(Z, model->m); delete model; } model = m; }
  Frame& top() { Frame*& f = fr.back(); if (f->rc > 1) { Frame* n = new Frame(*f); n->rc = 1; f->rc--; f = n; } return *f; }
};

static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::vector<State*> work;
static State* cur;
static std::unordered_map<const GlobalValue*, u64> gaddr; static std::unordered_map<u64, const Function*> faddr;
static std::unordered_map<u64, const GlobalVariable*> gByAddr;
static std::unordered_map<const Function*, FnInfo*> finfo;

// ---------------------------------------------------------------------------------------- solver
static std::vector<A> asserted;
static void syncSolver(State& S) {
  size_t n = 0; while (n < asserted.size() && n < S.pc.size() && asserted[n] == S.pc[n]) n++;
  if (asserted.size() > n) { Z3_solver_pop(Z, SOL, asserted.size() - n); asserted.resize(n); }
  for (; n < S.pc.size(); n++) { Z3_solver_push(Z, SOL); Z3_solver_assert(Z, SOL, S.pc[n]); asserted.push_back(S.pc[n]); }
}
static Z3_lbool check(State& S, A extra, ModelH** mo) {
  syncSolver(S); double t = nowS();
  Z3_solver_push(Z, SOL); if (extra) Z3_solver_assert(Z, SOL, extra);
  Z3_lbool r = Z3_solver_check(Z, SOL);
  if (r == Z3_L_TRUE && mo) { Z3_model m = Z3_solver_get_model(Z, SOL); Z3_model_inc_ref(Z, m); *mo = new ModelH{1, m}; }
  Z3_solver_pop(Z, SOL, 1);
  double dt = nowS() - t; st.solverTime += dt; if (dt > st.maxQuery) st.maxQuery = dt; st.queries++;
  if (opt.verbose && dt > 2) fprintf(stderr, "[slow query %.1fs]\n", dt);
  if (r == Z3_L_TRUE) st.sat++; else if (r == Z3_L_FALSE) st.unsat++; else st.unknown++;
  return r;
}
static int evalBool(State& S, A c) { // 1,0 or -1
  if (!S.model) return -1; A o; if (!Z3_model_eval(Z, S.model->m, c, true, &o)) return -1;
  Z3_lbool b = Z3_get_bool_value(Z, o); return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}
static void splitNot(A c, A& base, bool& neg) {
  neg = false; base = c;
  A n = mkNot(c);
  if (Z3_get_ast_kind(Z, c) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, c))) == Z3_OP_NOT) { base = n; neg = true; }
}
static int lookupFact(State& S, A c) {
  A b; bool neg; splitNot(c, b, neg);
  for (size_t i = S.facts.size(); i-- > 0;) if (S.facts[i].first == b) return S.facts[i].second != neg;
  return -1;
}
static void addFact(State& S, A c, bool v) { A b; bool neg; splitNot(c, b, neg); S.facts.push_back({b, v != neg}); }
static void addPC(State& S, A c) { S.pc.push_back(c); }
static State* cloneCur() { st.forks++; cur->depthForks++; return new State(*cur); }

// decides a condition in the current state, forking if both outcomes are feasible
static bool decide(A c0) {
  A c = simp(c0);
  if (c == ATrue) return true; if (c == AFalse) return false;
  int f = lookupFact(*cur, c); if (f >= 0) return f;
  int mv = evalBool(*cur, c);
  if (mv < 0) {
    ModelH* m = nullptr; Z3_lbool r = check(*cur, nullptr, &m);
    if (r == Z3_L_FALSE) throw PathEnd{0};
    if (r == Z3_L_TRUE) { cur->setModel(m); mv = evalBool(*cur, c); }
    if (mv < 0) mv = 1;
  }
  A pos = mv ? c : mkNot(c), neg = mv ? mkNot(c) : c;
  ModelH* m = nullptr; Z3_lbool r = check(*cur, neg, &m);
  if (r == Z3_L_FALSE) { addFact(*cur, c, mv); return mv; }
  State* o = cloneCur(); addPC(*o, neg); addFact(*o, c, !mv); o->setModel(r == Z3_L_TRUE ? m : nullptr);
  work.push_back(o);
  addPC(*cur, pos); addFact(*cur, c, mv);
  return mv;
}
static bool feasible(A c0) { // no fork: may c hold?
  A c = simp(c0); if (c == ATrue) return true; if (c == AFalse) return false;
  int f = lookupFact(*cur, c); if (f >= 0) return f;
  if (evalBool(*cur, c) == 1) return true;
  Z3_lbool r = check(*cur, c, nullptr);
  if (r == Z3_L_FALSE) { addFact(*cur, c, false); return false; }
  return true;
}
static void assume(A c0) {
  A c = simp(c0); if (c == ATrue) return; if (c == AFalse) throw PathEnd{0};
  int f = lookupFact(*cur, c); if (f == 1) return; if (f == 0) throw PathEnd{0};
  if (evalBool(*cur, c) == 1) { addPC(*cur, c); addFact(*cur, c, true); return; }
  ModelH* m = nullptr; Z3_lbool r = check(*cur, c, &m);
  if (r == Z3_L_FALSE) throw PathEnd{0};
  addPC(*cur, c); addFact(*cur, c, true); cur->setModel(r == Z3_L_TRUE ? m : nullptr);
}

// ---------------------------------------------------------------------------------------- reporting
static std::string jesc(const std::string& s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; sprintf(b, "\\u%04x", c); r += b; } else r += c; } return r;
}
static FILE* outF;
static std::string evalNum(Z3_model m, A a) {
  A o; if (!Z3_model_eval(Z, m, a, true, &o)) return "?"; o = simp(o); return Z3_get_numeral_string(Z, o);
}
static u64 dbits(double d);
static double ratToD(const std::string& s) {
  size_t p = s.find('/'); if (p == std::string::npos) return strtod(s.c_str(), 0);
  return strtod(s.substr(0, p).c_str(), 0) / strtod(s.substr(p + 1).c_str(), 0);
}
static u64 dbits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static std::string inputsStr(State& S, Z3_model m) { // one token per input, ';' separated
  std::string r; char b[64];
  for (auto& i : S.in) {
    u64 v = 0;
    if (!i.ast) v = i.conc;
    else if (i.t == 'g') { v = dbits(ratToD(evalNum(m, i.ast)) * i.step); }
    else if (i.t == 'd') { A o; Z3_model_eval(Z, m, Z3_mk_fpa_to_ieee_bv(Z, i.ast), true, &o); o = simp(o); numeralU64(o, &v); }
    else { A o; Z3_model_eval(Z, m, i.ast, true, &o); o = simp(o); numeralU64(o, &v); if (i.t == 'i') v = (u64)sext64(v, 32); }
    sprintf(b, "%c %llx ", (i.t == 'g') ? 'd' : i.t, (unsigned long long)v); r += b; r += i.name; r += ";";
  }
  return r;
}
static std::string stackStr(State& S) {
  std::string r; int n = 0;
  for (size_t i = S.fr.size(); i-- > 0 && n < 8; n++) { if (n) r += " < "; r += demangle(S.fr[i]->fi->name); }
  return r;
}
static void reportViolation(State& S, const std::string& kind, const std::string& msg, ModelH* mh) {
  std::string site = kind + "|" + msg + (kind == "assert" ? "" : "|" + (S.fr.empty() ? std::string() : S.fr.back()->fi->name));
  u64 h = std::hash<std::string>()(site); int n = sh->nSites.load(), cnt = 0;
  for (int i = 0; i < n && i < 512; i++) if (sh->siteHash[i] == h) cnt++;
  if (cnt >= 3) return;
  int k = sh->nSites.fetch_add(1); if (k < 512) sh->siteHash[k] = h;
  ModelH* own = nullptr;
  if (!mh) { if (!S.model) { check(S, nullptr, &own); mh = own; } else mh = S.model; }
  std::string in = mh ? inputsStr(S, mh->m) : "";
  fprintf(outF, "{\"t\":\"viol\",\"kind\":\"%s\",\"msg\":\"%s\",\"approx\":%d,\"inputs\":\"%s\",\"stack\":\"%s\"}\n", jesc(kind).c_str(),
      jesc(msg).c_str(), S.approx ? 1 : 0, jesc(in).c_str(), jesc(stackStr(S)).c_str());
  fflush(outF);
  if (++sh->viol >= opt.maxViol) sh->stop = 1;
}
[[noreturn]] static void violation(const std::string& kind, const std::string& msg) { reportViolation(*cur, kind, msg, nullptr); throw PathEnd{1}; }

static void checkAssert(A c0, const std::string& msg) {
  st.asserts++; assertSites[msg]++;
  A c = simp(c0); if (c == ATrue) { st.assertsProved++; return; }
  int f = lookupFact(*cur, c); if (f == 1) { st.assertsProved++; return; }
  if (c == AFalse || f == 0) { violation("assert", msg); }
  ModelH* m = nullptr;
  if (evalBool(*cur, c) == 0) { reportViolation(*cur, "assert", msg, cur->model); }
  else {
    Z3_lbool r = check(*cur, mkNot(c), &m);
    if (r == Z3_L_FALSE) { st.assertsProved++; addFact(*cur, c, true); return; }
    if (r == Z3_L_TRUE) reportViolation(*cur, "assert", msg, m);
    else { st.limits++; unsupportedWhy["solver gave up on an assertion: " + msg]++; }
  }
  assume(c);
}

// ---------------------------------------------------------------------------------------- grid arithmetic
// A linear form sum t_i*atom_i + c with exact rational coefficients over Int-sorted atoms with known bounds.
struct Atom { A ast; Zi lo, hi; };
static std::vector<Atom> atoms; static std::unordered_map<A, int> atomOf;
static int mkAtom(A a, const Zi& lo, const Zi& hi) { auto it = atomOf.find(a); if (it != atomOf.end()) return it->second; atoms.push_back({a, lo, hi}); return atomOf[a] = (int)atoms.size() - 1; }
static Zi zabs(const Zi& a) { return a < 0 ? Zi(-a) : a; }
static Zi zgcd(const Zi& a, const Zi& b) { Zi r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Zi zlcm(const Zi& a, const Zi& b) { Zi r; mpz_lcm(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Zi zfloor(const Q& q) { Zi r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static Zi zceil(const Q& q) { Zi r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static Q qgcd(const Q& a, const Q& b) { if (a == 0) return abs(b); if (b == 0) return abs(a); Q r; r.get_num() = zgcd(Zi(a.get_num() * b.get_den()), Zi(b.get_num() * a.get_den())); r.get_den() = a.get_den() * b.get_den(); r.canonicalize(); return r; }
static A zNum(const Zi& z) { return Z3_mk_numeral(Z, z.get_str().c_str(), SInt); }
static double rndUp(double x) { return nextafter(x, INFINITY); }
static double rndDn(double x) { return nextafter(x, -INFINITY); }
static double qToD(const Q& q) { // round to nearest even
  double t = q.get_d(); if (!std::isfinite(t)) return t; if (Q(t) == q) return t;
  double n = nextafter(t, q > 0 ? INFINITY : -INFINITY); if (!std::isfinite(n)) return t;
  Q a = abs(q - Q(t)), b = abs(Q(n) - q); if (a < b) return t; if (b < a) return n; return (dbits(t) & 1) ? n : t;
}
static double qDn(const Q& q) { double d = qToD(q); return Q(d) <= q ? d : rndDn(d); }
static double qUp(const Q& q) { double d = qToD(q); return Q(d) >= q ? d : rndUp(d); }
static void linBounds(const Lin& l, Q& lo, Q& hi) { lo = hi = l.c; for (auto& t : l.t) { const Atom& a = atoms[t.first]; if (t.second > 0) { lo += t.second * Q(a.lo); hi += t.second * Q(a.hi); } else { lo += t.second * Q(a.hi); hi += t.second * Q(a.lo); } } }
static Lin linAdd(const Lin& a, const Lin& b, int sgn) {
  Lin r; r.c = sgn > 0 ? Q(a.c + b.c) : Q(a.c - b.c); size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, sgn > 0 ? b.t[j].second : Q(-b.t[j].second)}); j++; }
    else { Q s = sgn > 0 ? Q(a.t[i].second + b.t[j].second) : Q(a.t[i].second - b.t[j].second); if (s != 0) r.t.push_back({a.t[i].first, s}); i++; j++; }
  }
  return r;
}
static Lin linScale(const Lin& a, const Q& f) { Lin r; if (f == 0) return r; r.c = a.c * f; for (auto& t : a.t) r.t.push_back({t.first, Q(t.second * f)}); return r; }
static Lin linConst(const Q& c) { Lin r; r.c = c; return r; }
static Q linGcd(const Lin& a) { Q g = 0; for (auto& t : a.t) g = qgcd(g, t.second); return g; }
// Int term for sum t_i*a_i + c, all integral
static A linInt(const Lin& l) {
  std::vector<A> v; for (auto& t : l.t) { Zi z = t.second.get_num(); v.push_back(z == 1 ? atoms[t.first].ast : mkMul(zNum(z), atoms[t.first].ast)); }
  if (l.c != 0) v.push_back(zNum(l.c.get_num())); if (v.empty()) return zNum(Zi(0)); if (v.size() == 1) return v[0];
  return Z3_mk_add(Z, v.size(), v.data());
}
static size_t linBits(const Lin& l) { size_t m = 0; for (auto& t : l.t) m = std::max(m, mpz_sizeinbase(t.second.get_num_mpz_t(), 2) + mpz_sizeinbase(t.second.get_den_mpz_t(), 2)); m = std::max(m, mpz_sizeinbase(l.c.get_num_mpz_t(), 2)); return m; }
static Lin linOfInt(A t, const Zi& lo, const Zi& hi) { if (lo == hi) return linConst(Q(lo)); Lin r; r.t.push_back({mkAtom(t, lo, hi), Q(1)}); return r; }
static Lin linMul(const Lin& a, const Lin& b) {
  if (a.t.empty()) return linScale(b, a.c); if (b.t.empty()) return linScale(a, b.c);
  Q ga = linGcd(a), gb = linGcd(b), ra = a.c - ga * Q(zfloor(Q(a.c / ga))), rb = b.c - gb * Q(zfloor(Q(b.c / gb)));
  Lin ia = linScale(a, 1 / ga), ib = linScale(b, 1 / gb); ia.c -= ra / ga; ib.c -= rb / gb;
  A x = linInt(ia), y = linInt(ib); if (Z3_get_ast_id(Z, x) > Z3_get_ast_id(Z, y)) std::swap(x, y);
  Q al, ah, bl, bh; linBounds(ia, al, ah); linBounds(ib, bl, bh); Q p[4] = {al * bl, al * bh, ah * bl, ah * bh}, lo = p[0], hi = p[0]; for (auto& q : p) { if (q < lo) lo = q; if (q > hi) hi = q; }
  if (x == y && lo < 0) lo = 0;
  Lin r = linScale(linOfInt(mkMul(x, y), lo.get_num(), hi.get_num()), ga * gb); // (ga*ia + ra) * (gb*ib + rb)
  if (rb != 0) r = linAdd(r, linScale(ia, ga * rb), 1); if (ra != 0) r = linAdd(r, linScale(ib, gb * ra), 1); r.c += ra * rb; return r;
}
static A geInt(const Lin& l, const Zi& n) { // sum of l >= n (integral coefficients, constant ignored), canonical sign
  Lin s = l; s.c = 0; if (s.t[0].second < 0) { s = linScale(s, Q(-1)); return mkNot(Z3_mk_ge(Z, linInt(s), zNum(Zi(1 - n)))); }
  return Z3_mk_ge(Z, linInt(s), zNum(n));
}
static A linCmp(const char* op, const Lin& d) { // d op 0
  if (d.t.empty()) { int s = sgn(d.c); bool r = op[0] == '>' ? (op[1] ? s >= 0 : s > 0) : op[0] == '<' ? (op[1] ? s <= 0 : s < 0) : s == 0; return r ? ATrue : AFalse; }
  Q lo, hi; linBounds(d, lo, hi);
  switch (op[0]) {
    case '>': if (op[1] ? lo >= 0 : lo > 0) return ATrue; if (op[1] ? hi < 0 : hi <= 0) return AFalse; break;
    case '<': if (op[1] ? hi <= 0 : hi < 0) return ATrue; if (op[1] ? lo > 0 : lo >= 0) return AFalse; break;
    default: if (lo > 0 || hi < 0) return AFalse; break;
  }
  Q g = linGcd(d); Lin s = linScale(d, 1 / g); Q r = -s.c; // sum s.t op r
  switch (op[0]) {
    case '>': return op[1] ? geInt(s, zceil(r)) : geInt(s, zfloor(r) + 1);
    case '<': return op[1] ? mkNot(geInt(s, zfloor(r) + 1)) : mkNot(geInt(s, zceil(r)));
    default: { if (r.get_den() != 1) return AFalse; Lin t = s; t.c = 0; Zi n = r.get_num(); if (t.t[0].second < 0) { t = linScale(t, Q(-1)); n = -n; } return Z3_mk_eq(Z, linInt(t), zNum(n)); }
  }
}

// A grid value denotes a double whose exact real approximation is R = num/den (den null or a positive form):
//  kind EXACT: value == R (every value of R within its bounds is representable; den == null)
//  kind RND:   value == round-to-nearest-even(R)
//  kind APPROX: |value - R| <= err
enum GK : u8 { EXACT, RND, APPROX };
struct GV { Lin num; Lin* den = nullptr; double lo = 0, hi = 0, dmax = 1; GK kind = EXACT; double err = 0; };
static const double U = 1.1102230246251565e-16; // 2^-53
static GV* newG() { return new GV(); }
static double maxabs(const GV* g) { return fmax(fabs(g->lo), fabs(g->hi)); }
static void setBounds(GV* g) { Q lo, hi; linBounds(g->num, lo, hi); g->lo = qDn(lo); g->hi = qUp(hi); }
static GV* gConst(double c) { GV* g = newG(); g->num = linConst(Q(c)); g->lo = g->hi = c; return g; }
static bool exactFits(const Lin& l) { // every value of l (within its bounds) is a representable double
  Zi D = l.c.get_den(); for (auto& t : l.t) D = zlcm(D, t.second.get_den());
  if (mpz_popcount(D.get_mpz_t()) != 1 || mpz_sizeinbase(D.get_mpz_t(), 2) > 900) return false;
  Q g = abs(l.c); for (auto& t : l.t) g = qgcd(g, t.second); if (g == 0) return true; // all values are multiples of g
  Q lo, hi; linBounds(l, lo, hi); if (-lo > hi) hi = -lo; Zi gn = g.get_num(); // g = odd*2^k
  unsigned long tz = mpz_scan1(gn.get_mpz_t(), 0); Q p2 = g; p2.get_num() = Zi(1) << tz; p2.canonicalize();
  return hi <= p2 * Q(Zi(1) << 53);
}
static double errOf(const GV* g) { return g->kind == EXACT ? 0 : g->kind == RND ? rndUp(U * maxabs(g) * 1.0000001 + 5e-324) : g->err; }
static Val gFin(GV* g) { // fold constants
  if (g->num.t.empty() && !g->den) { if (g->kind == EXACT || g->kind == RND) return mkD(qToD(g->num.c)); }
  return mkG(g);
}
static GV* asG(const Val& v) { if (v.k == GRID) return (GV*)v.p; if (v.k == CONC) { if (!std::isfinite(asD(v))) unsup("non-finite constant in grid arithmetic"); return gConst(asD(v)); } if (v.k == UNDEF) unsup("undef double in grid op"); unsup("mixing IEEE symbolic and grid doubles"); }
static Lin* heapLin(const Lin& l) { return new Lin(l); }

static Val gAdd(const Val& a, const Val& b, bool sub) {
  for (int side = 0; side < 2; side++) { // special concrete operands
    const Val& c = side ? b : a; const Val& o = side ? a : b;
    if (c.k == CONC && o.k == GRID) {
      double d = asD(c); GV* g = (GV*)o.p; double res = (side && sub) ? -d : d;
      if (!std::isfinite(d)) return mkD(res);
      if (d == 0 && !(side == 0 && sub)) return o;   // x+0, x-0, 0+x
      if (fabs(d) > 1e18) { if (maxabs(g) < fabs(d) * 1e-17) return mkD(res); unsup("huge double in grid addition"); }
    }
  }
  GV *x = asG(a), *y = asG(b); GV* r = newG();
  bool ex = x->kind == EXACT && y->kind == EXACT; int s = sub ? -1 : 1;
  if (!x->den && !y->den) r->num = linAdd(x->num, y->num, s);
  else if (x->den && !y->den) { r->num = linAdd(x->num, linMul(y->num, *x->den), s); r->den = x->den; r->dmax = x->dmax; }
  else if (!x->den) { r->num = linAdd(linMul(x->num, *y->den), y->num, s); r->den = y->den; r->dmax = y->dmax; }
  else if (x->den == y->den) { r->num = linAdd(x->num, y->num, s); r->den = x->den; r->dmax = x->dmax; }
  else { r->num = linAdd(linMul(x->num, *y->den), linMul(y->num, *x->den), s); r->den = heapLin(linMul(*x->den, *y->den)); r->dmax = x->dmax * y->dmax; }
  if (!r->den) setBounds(r); else { r->lo = rndDn(x->lo + (sub ? -y->hi : y->lo)); r->hi = rndUp(x->hi + (sub ? -y->lo : y->hi)); }
  if (ex) { r->kind = !r->den && exactFits(r->num) ? EXACT : RND; return gFin(r); }
  double e = errOf(x) + errOf(y); r->kind = APPROX; r->lo = rndDn(r->lo - e); r->hi = rndUp(r->hi + e); r->err = rndUp((e + U * (maxabs(r) + e)) * 1.0001); return gFin(r);
}
static Val gNeg(const Val& a) {
  GV* x = asG(a); GV* r = newG(); *r = *x; r->num = linScale(x->num, Q(-1)); r->lo = -x->hi; r->hi = -x->lo; return mkG(r);
}
static Val gMul(const Val& a, const Val& b) {
  if (a.k == CONC && b.k == GRID) return gMul(b, a);
  GV *x = asG(a);
  if (b.k == CONC) {
    double c = asD(b); if (!std::isfinite(c)) unsup("grid * non-finite"); if (c == 0) return mkD(0.0); if (c == 1) return a;
    if (c == -1) return gNeg(a);
    if (fabs(c) > 1e100 || fabs(c) < 1e-100) unsup("huge factor");
    GV* r = newG(); *r = *x; r->num = linScale(x->num, Q(c));
    double p = x->lo * c, q = x->hi * c; r->lo = rndDn(fmin(p, q)); r->hi = rndUp(fmax(p, q));
    int e; double m = frexp(fabs(c), &e);
    if (m == 0.5) { r->lo = fmin(p, q); r->hi = fmax(p, q); r->err = x->err * fabs(c); return mkG(r); } // power of two: exact
    if (x->kind == EXACT) { r->kind = exactFits(r->num) && !r->den ? EXACT : RND; return gFin(r); }
    double er = errOf(x) * fabs(c); r->kind = APPROX; r->err = rndUp((er + U * (maxabs(r) + er)) * 1.0001); return mkG(r);
  }
  GV* y = asG(b); GV* r = newG(); r->num = linMul(x->num, y->num);
  if (x->den || y->den) { r->den = x->den && y->den ? heapLin(linMul(*x->den, *y->den)) : x->den ? x->den : y->den; r->dmax = (x->den ? x->dmax : 1) * (y->den ? y->dmax : 1); }
  double v[4] = {x->lo * y->lo, x->lo * y->hi, x->hi * y->lo, x->hi * y->hi};
  r->lo = rndDn(fmin(fmin(v[0], v[1]), fmin(v[2], v[3]))); r->hi = rndUp(fmax(fmax(v[0], v[1]), fmax(v[2], v[3])));
  if (x->kind == EXACT && y->kind == EXACT) { r->kind = (!r->den && exactFits(r->num)) ? EXACT : RND; return gFin(r); }
  double ex = errOf(x), ey = errOf(y), e = ex * maxabs(y) + ey * maxabs(x) + ex * ey;
  r->lo = rndDn(r->lo - e); r->hi = rndUp(r->hi + e); r->kind = APPROX; r->err = rndUp((e + U * (maxabs(r) + e)) * 1.0001); return mkG(r);
}
static A gCmpA(const char* op, const Val& a, const Val& b);
static Val gDiv(const Val& a, const Val& b) {
  if (b.k == CONC) {
    double c = asD(b); GV* x = asG(a);
    if (!std::isfinite(c)) { if (std::isnan(c)) return mkD(c); return mkD(0.0); }
    if (c == 0) { // +-inf or nan
      if (decide(gCmpA(">", a, mkD(0)))) return mkD(std::signbit(c) ? -INFINITY : INFINITY);
      if (decide(gCmpA("<", a, mkD(0)))) return mkD(std::signbit(c) ? INFINITY : -INFINITY);
      return mkD(NAN);
    }
    if (fabs(c) > 1e100 || fabs(c) < 1e-100) unsup("huge divisor");
    int e; double m = frexp(fabs(c), &e);
    if (m == 0.5) return gMul(a, mkD(1.0 / c));
    GV* r = newG(); *r = *x;
    r->num = linScale(x->num, 1 / Q(c)); double p = x->lo / c, q = x->hi / c; r->lo = rndDn(fmin(p, q)); r->hi = rndUp(fmax(p, q));
    if (x->kind == EXACT) { r->kind = exactFits(r->num) && !r->den ? EXACT : RND; return gFin(r); }
    double er = errOf(x) / fabs(c); r->kind = APPROX; r->err = rndUp((er + U * (maxabs(r) + er)) * 1.0001); return mkG(r);
  }
  GV* y = asG(b);
  if (a.k == CONC && !std::isfinite(asD(a))) { double c = asD(a); if (std::isnan(c)) return a; return decide(gCmpA(">=", b, mkD(0))) ? a : mkD(-c); }
  if (a.k == CONC && asD(a) == 0) { if (decide(gCmpA("=", b, mkD(0)))) return mkD(NAN); return mkD(0.0); }
  GV* x = asG(a);
  bool pos = decide(gCmpA(">", b, mkD(0)));
  if (!pos && !decide(gCmpA("<", b, mkD(0)))) { // division by (positive) zero
    if (decide(gCmpA(">", a, mkD(0)))) return mkD(INFINITY);
    if (decide(gCmpA("<", a, mkD(0)))) return mkD(-INFINITY);
    return mkD(NAN);
  }
  if (x->num.t == y->num.t && x->num.c == y->num.c && x->den == y->den && (x->kind == EXACT || x->kind == RND) && x->kind == y->kind) return mkD(1.0);
  GV* r = newG(); Lin n = x->num, d = y->num;
  if (x->den) d = linMul(d, *x->den); if (y->den) n = linMul(n, *y->den);
  if (!pos) { n = linScale(n, Q(-1)); d = linScale(d, Q(-1)); }
  r->num = n; r->den = heapLin(d); r->dmax = maxabs(y) * (y->den ? y->dmax : 1) * (x->den ? x->dmax : 1);
  double mn = 0; // smallest |y|
  if (!y->den) { Q g = linGcd(y->num), ra = y->num.c - g * Q(zfloor(Q(y->num.c / g))); Q k = ra == 0 ? g : Q(std::min(ra, Q(g - ra))); mn = qDn(k) - errOf(y); }
  if (pos && y->lo > mn) mn = y->lo; if (!pos && -y->hi > mn) mn = -y->hi;
  double mx = mn > 0 ? maxabs(x) / mn : INFINITY; if (!std::isfinite(mx) || mx > 1e60) unsup("grid quotient without bound");
  r->lo = x->lo >= 0 && pos ? 0 : -rndUp(mx); r->hi = x->hi <= 0 && pos ? 0 : rndUp(mx);
  if (!pos) { r->lo = -rndUp(mx); r->hi = rndUp(mx); }
  if (x->kind == EXACT && y->kind == EXACT) { r->kind = RND; return mkG(r); }
  if (mn <= 0 || errOf(y) > mn / 2) unsup("approximate divisor near zero");
  double e = (errOf(x) + mx * errOf(y)) / (mn - errOf(y)); r->kind = APPROX; r->err = rndUp((e + U * (mx + e)) * 1.0001); r->lo -= e; r->hi += e; return mkG(r);
}
static bool ccmp(const char* op, double x, double y) {
  switch (op[0]) { case '>': return op[1] ? x >= y : x > y; case '<': return op[1] ? x <= y : x < y; default: return x == y; }
}
// smallest non-zero distance of the lattice c + g*Z to 0; *zero: 0 is on the lattice
static Q latMin(const Q& g, const Q& c, bool* zero) { Q r = c - g * Q(zfloor(Q(c / g))); *zero = r == 0; return r == 0 ? g : Q(std::min(r, Q(g - r))); }
// replace every coefficient by a nearby small fraction; slop bounds the change of the value
static bool simplest(const Q& v, Q& out) { // a fraction with denominator <= 2^20 within 1e-14 relative
  if (v.get_den() <= (Zi(1) << 20)) { out = v; return true; }
  Q x = abs(v); Zi p0 = 0, q0 = 1, p1 = 1, q1 = 0; Q y = x;
  for (int i = 0; i < 40; i++) { Zi a = zfloor(y); Zi p2 = a * p1 + p0, q2 = a * q1 + q0; if (q2 > (Zi(1) << 20)) return false; p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    Q f(p1, q1); f.canonicalize(); Q df = abs(f - x); if (df * Q(Zi(1) << 46) <= x) { out = v < 0 ? Q(-f) : f; return true; } Q fr = y - Q(a); if (fr == 0) return false; y = 1 / fr; }
  return false;
}
static bool rationalise(const Lin& d, Lin& out, Q& slop) {
  slop = 0; out = Lin(); if (!simplest(d.c, out.c)) out.c = d.c; slop += abs(out.c - d.c);
  for (auto& t : d.t) { Q f; if (!simplest(t.second, f)) return false; Zi m = std::max(zabs(atoms[t.first].lo), zabs(atoms[t.first].hi)); slop += abs(f - t.second) * Q(m); out.t.push_back({t.first, f}); }
  return true;
}
// a op b for op in > >= < <= =, at least one GRID
static A gCmpA(const char* op, const Val& a, const Val& b) {
  if (a.k == CONC && b.k == CONC) return ccmp(op, asD(a), asD(b)) ? ATrue : AFalse;
  if (a.k == CONC) { // swap
    const char* s = op[0] == '>' ? (op[1] ? "<=" : "<") : op[0] == '<' ? (op[1] ? ">=" : ">") : "=";
    return gCmpA(s, b, a);
  }
  GV* x = asG(a);
  if (b.k == CONC) {
    double c = asD(b); if (std::isnan(c)) return AFalse;
    double e = errOf(x), lo = x->lo - e, hi = x->hi + e;
    if (c > hi) return op[0] == '<' ? ATrue : AFalse;
    if (c < lo) return op[0] == '>' ? ATrue : AFalse;
    if (x->kind == RND) { // round(R) op c: compare R with the midpoints around c
      bool even = !(dbits(c) & 1); double nx = nextafter(c, INFINITY), pv = nextafter(c, -INFINITY);
      if (!std::isfinite(nx) || !std::isfinite(pv)) unsup("compare near overflow");
      Q up = (Q(c) + Q(nx)) / 2, dn = (Q(c) + Q(pv)) / 2;
      auto diff = [&](const Q& m) { return x->den ? linAdd(x->num, linScale(*x->den, m), -1) : linAdd(x->num, linConst(m), -1); };
      A gt = linCmp(even ? ">" : ">=", diff(up)), ge = linCmp(even ? ">=" : ">", diff(dn));
      switch (op[0]) { case '>': return op[1] ? ge : gt; case '<': return op[1] ? mkNot(gt) : mkNot(ge); default: return mkAnd(ge, mkNot(gt)); }
    }
  }
  GV* y = asG(b);
  if (x == y) return op[1] || op[0] == '=' ? ATrue : AFalse;
  double ea = errOf(x), eb = errOf(y);
  if (x->lo - ea > y->hi + eb) return op[0] == '>' ? ATrue : AFalse;
  if (x->hi + ea < y->lo - eb) return op[0] == '<' ? ATrue : AFalse;
  double ds = 1; Lin D;
  if (x->den == y->den) { D = linAdd(x->num, y->num, -1); if (x->den) ds = x->dmax; }
  else { D = linAdd(y->den ? linMul(x->num, *y->den) : x->num, x->den ? linMul(y->num, *x->den) : y->num, -1); if (x->den) ds *= x->dmax; if (y->den) ds *= y->dmax; }
  bool ap = x->kind == APPROX || y->kind == APPROX;
  if (x->kind == EXACT && y->kind == EXACT) return linCmp(op, D);
  if (D.t.empty()) { if (!ap && D.c == 0) return linCmp(op, D); }
  Q E = Q(rndUp((ea + eb) * 1.0001)) * Q(ds) * Q(1.0001);
  Q g = linGcd(D); bool z = false;
  if (!D.t.empty()) {
    if (latMin(g, D.c, &z) > E && (!ap || !z)) return linCmp(op, D);
    Lin R; Q slop;
    if (rationalise(D, R, slop) && !R.t.empty()) {
      bool rz; Q rg = linGcd(R);
      if (latMin(rg, R.c, &rz) > E + slop) { // the sign of R decides, except where R == 0
        A eq = rz ? linCmp("=", R) : AFalse;
        if (eq == AFalse || !feasible(eq) || !decide(eq)) return linCmp(op, R);
      }
    }
  }
  Lin up = D, dn = D; up.c -= E; dn.c += E; // |D| <= E ?
  A inZone = simp(mkAnd(linCmp("<=", up), linCmp(">=", dn))); if (!ap) inZone = simp(mkAnd(inZone, mkNot(linCmp("=", D))));
  if (!feasible(inZone)) return linCmp(op, D);
  if (!decide(inZone)) return linCmp(op, D);
  // genuinely ambiguous rounding: over-approximate by a free boolean
  st.ambiguous++; cur->approx = true;
  static int cnt = 0; char nm[32]; sprintf(nm, "amb%d_%d", (int)getpid(), cnt++);
  return Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), SBool);
}
static Val gIte(A c, const Val& a, const Val& b) {
  for (auto* k : {&a, &b}) if (k->k == CONC && (!std::isfinite(asD(*k)) || fabs(asD(*k)) > 1e9)) return decide(c) ? a : b;
  GV *x = asG(a), *y = asG(b);
  if (x == y) return a;
  if (x->den || y->den) return decide(c) ? a : b;
  Q g = qgcd(qgcd(linGcd(x->num), linGcd(y->num)), Q(x->num.c - y->num.c));
  GV* r = newG();
  if (g == 0) r->num = x->num;
  else {
    Lin ix = linScale(x->num, 1 / g), iy = linScale(y->num, 1 / g); Q base = x->num.c; ix.c = 0; iy.c -= base / g;
    if (linBits(ix) > 64 || linBits(iy) > 64) return decide(c) ? a : b;
    Q l1, h1, l2, h2; linBounds(ix, l1, h1); linBounds(iy, l2, h2); Q lo = std::min(l1, l2), hi = std::max(h1, h2);
    r->num = linScale(linOfInt(Z3_mk_ite(Z, c, linInt(ix), linInt(iy)), lo.get_num(), hi.get_num()), g); r->num.c += base;
  }
  r->lo = fmin(x->lo, y->lo); r->hi = fmax(x->hi, y->hi);
  if (x->kind == APPROX || y->kind == APPROX) { r->kind = APPROX; r->err = fmax(errOf(x), errOf(y)); }
  else if (x->kind == EXACT && y->kind == EXACT) r->kind = EXACT; else r->kind = RND;
  return gFin(r);
}
static Val gAbs(const Val& a) {
  GV* g = asG(a); double e = errOf(g); if (g->kind == RND ? g->lo >= 0 : g->lo - e >= 0) return a; if (g->kind == RND ? g->hi <= 0 : g->hi + e <= 0) return gNeg(a);
  A c = gCmpA(">=", a, mkD(0)); if (c == ATrue) return a; if (c == AFalse) return gNeg(a);
  if (g->den) return decide(c) ? a : gNeg(a);
  Val r = gIte(c, a, gNeg(a)); if (r.k == GRID) { GV* n = (GV*)r.p; if (n->kind != APPROX) n->lo = 0; } return r;
}
static Val gRound(const Val& a, char how) { // f floor, c ceil, r round-half-away, t trunc
  GV* x = asG(a); if (x->den) unsup("rounding of a symbolic quotient");
  Lin L = x->num;
  int tie = 0; // 1: value on the decision boundary up to an unknown rounding error
  if (x->kind != EXACT) { // is any possible value within rounding error of a decision boundary (Z+1/2 for round, Z otherwise)?
    Q E = Q(errOf(x)) * Q(1.001), off = how == 'r' ? Q(1, 2) : Q(0); bool ok = false, z = false;
    Q m = latMin(qgcd(linGcd(L), Q(1)), L.c - off, &z);
    if (m > E && (!z || x->kind == RND)) ok = true;
    Lin R; Q slop;
    if (!ok && rationalise(L, R, slop) && latMin(qgcd(linGcd(R), Q(1)), R.c - off, &z) > E + slop) {
      L = R; ok = true;
      if (z) {
        Zi D = L.c.get_den(); for (auto& t : L.t) D = zlcm(D, t.second.get_den());
        Lin N = linScale(L, Q(D)); N.c -= off * Q(D); Zi M = D; if (N.c.get_den() != 1) { N = linScale(N, Q(2)); M = 2 * D; }
        A on = N.t.empty() ? (N.c.get_num() % M == 0 ? ATrue : AFalse) : Z3_mk_eq(Z, Z3_mk_mod(Z, linInt(N), zNum(M)), zNum(Zi(0)));
        if (on == ATrue || (on != AFalse && feasible(on) && decide(on))) {
          if (how == 't') unsup("truncation of an inexact grid value at an integer");
          st.ambiguous++; cur->approx = true; static int cnt = 0; char nm[40]; sprintf(nm, "rnd%d_%d", (int)getpid(), cnt++);
          tie = decide(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), SBool)) ? 1 : 2;
        }
      }
    }
    if (!ok) unsup("rounding of an inexact grid value");
  }
  Zi D = L.c.get_den(); for (auto& t : L.t) D = zlcm(D, t.second.get_den());
  Lin N = linScale(L, Q(D)); A n = linInt(N), d = zNum(D); Q lo, hi; linBounds(L, lo, hi); Zi zl = zfloor(lo), zh = zceil(hi);
  auto fl = [&](A p, A q) { return Z3_mk_div(Z, p, q); }; auto neg = [&](A p) { return mkMul(zNum(Zi(-1)), p); };
  A ge0 = Z3_mk_ge(Z, n, zNum(Zi(0))), res; A two = zNum(Zi(2)), d2 = zNum(Zi(2 * D));
  if (D == 1) res = n;
  else switch (how) {
    case 'f': res = fl(n, d); zh = zfloor(hi); break;
    case 'c': res = neg(fl(neg(n), d)); zl = zceil(lo); break;
    case 'r': { A p = fl(mkAdd(mkMul(two, n), d), d2); if (lo >= 0) res = p; else res = Z3_mk_ite(Z, ge0, p, neg(fl(mkAdd(mkMul(two, neg(n)), d), d2))); break; }
    case 't': if (lo >= 0) { res = fl(n, d); zh = zfloor(hi); } else res = Z3_mk_ite(Z, ge0, fl(n, d), neg(fl(neg(n), d))); break;
    default: unsup("rint on grid value");
  }
  GV* r = newG(); r->num = D == 1 ? N : linOfInt(res, zl, zh);
  // on a tie of an inexact value either neighbour is possible
  if (tie == 1) { if (how == 'f') r->num.c -= 1; else if (how == 'c') r->num.c += 1; else { if (lo >= 0) r->num.c -= 1; else if (decide(simp(ge0))) r->num.c -= 1; else r->num.c += 1; } }
  setBounds(r); return gFin(r);
}
static A gInt(GV* g) { return linInt(g->num); } // Int term of an integral EXACT grid value
static bool gEval(Z3_model m, GV* g, double* out) {
  if (g->kind == APPROX) return false;
  auto ev = [&](const Lin& l, Q& q) { q = l.c; for (auto& t : l.t) { std::string s = evalNum(m, atoms[t.first].ast); if (s == "?") return false; q += t.second * Q(s); } return true; };
  Q n, d = 1; if (!ev(g->num, n)) return false; if (g->den && !ev(*g->den, d)) return false; if (d == 0) return false; *out = qToD(Q(n / d)); return true;
}

// ---------------------------------------------------------------------------------------- constants / globals
static Val evalConst(const Constant* C);
static unsigned bitsOf(Type* t) {
  if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80; return 0;
}
static Val aggV(std::vector<Val>* v) { Val r; r.k = AGGR; r.p = v; return r; }
static Val undefOf(Type* t) {
  if (t->isStructTy()) { auto* v = new Agg(); for (unsigned i = 0; i < t->getStructNumElements(); i++) v->push_back(undefOf(t->getStructElementType(i))); return aggV(v); }
  if (t->isArrayTy()) { auto* v = new Agg(); for (unsigned i = 0; i < t->getArrayNumElements(); i++) v->push_back(undefOf(t->getArrayElementType())); return aggV(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { auto* v = new Agg(); for (unsigned i = 0; i < vt->getNumElements(); i++) v->push_back(undefOf(vt->getElementType())); return aggV(v); }
  return mkUndef(bitsOf(t));
}
static Val zeroOf(Type* t) {
  if (t->isStructTy()) { auto* v = new Agg(); for (unsigned i = 0; i < t->getStructNumElements(); i++) v->push_back(zeroOf(t->getStructElementType(i))); return aggV(v); }
  if (t->isArrayTy()) { auto* v = new Agg(); for (unsigned i = 0; i < t->getArrayNumElements(); i++) v->push_back(zeroOf(t->getArrayElementType())); return aggV(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { auto* v = new Agg(); for (unsigned i = 0; i < vt->getNumElements(); i++) v->push_back(zeroOf(vt->getElementType())); return aggV(v); }
  return mkC(0, bitsOf(t));
}
static u64 addrOfGlobal(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) g = cast<GlobalValue>(a->getAliaseeObject());
  auto it = gaddr.find(g); if (it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; abort(); } return it->second;
}
static Val evalConst(const Constant* C) {
  Type* t = C->getType();
  if (auto* ci = dyn_cast<ConstantInt>(C)) { const APInt& a = ci->getValue(); if (a.getBitWidth() <= 64) return mkC(a.getZExtValue(), a.getBitWidth()); return mkC128(((u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0), a.getBitWidth()); }
  if (auto* cf = dyn_cast<ConstantFP>(C)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return mkC(a.getZExtValue(), a.getBitWidth()); return mkC128(((u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0), a.getBitWidth()); }
  if (isa<ConstantPointerNull>(C)) return mkC(0, 64);
  if (isa<UndefValue>(C)) return undefOf(t);
  if (isa<ConstantAggregateZero>(C)) return zeroOf(t);
  if (auto* g = dyn_cast<GlobalValue>(C)) return mkC(addrOfGlobal(g), 64);
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { auto* v = new Agg(); for (unsigned i = 0; i < cd->getNumElements(); i++) v->push_back(evalConst(cd->getElementAsConstant(i))); return aggV(v); }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) { auto* v = new Agg(); for (unsigned i = 0; i < C->getNumOperands(); i++) v->push_back(evalConst(cast<Constant>(C->getOperand(i)))); return aggV(v); }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = evalConst(ce->getOperand(0)); unsigned w = bitsOf(t); return w && v.k == CONC ? mkC(v.lo, w) : v; }
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* gep = cast<GEPOperator>(ce); if (!gep->accumulateConstantOffset(*DL, off)) abort(); Val b = evalConst(ce->getOperand(0)); return mkC(b.lo + off.getSExtValue(), 64); }
      case Instruction::Add: return mkC(evalConst(ce->getOperand(0)).lo + evalConst(ce->getOperand(1)).lo, bitsOf(t));
      case Instruction::Sub: return mkC(evalConst(ce->getOperand(0)).lo - evalConst(ce->getOperand(1)).lo, bitsOf(t));
      case Instruction::Trunc: return mkC(evalConst(ce->getOperand(0)).lo, bitsOf(t));
      case Instruction::ICmp: { u64 a = evalConst(ce->getOperand(0)).lo, b = evalConst(ce->getOperand(1)).lo; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return mkC(a == b, 1); case CmpInst::ICMP_NE: return mkC(a != b, 1); case CmpInst::ICMP_ULT: return mkC(a < b, 1); case CmpInst::ICMP_UGT: return mkC(a > b, 1); default: break; } break; }
      default: break;
    }
  }
  if (auto* da = dyn_cast<DSOLocalEquivalent>(C)) return evalConst(da->getGlobalValue());
  std::string s; raw_string_ostream os(s); C->print(os); unsup("constant: " + s.substr(0, 120));
}

// ---------------------------------------------------------------------------------------- typed memory access
static void putBytes(Obj* o, u32 off, const void* p, u32 n) { memcpy(&o->b[off], p, n); if (o->hasUndef) memset(&o->s[off], 0, n); }
static A cellByte(const Cell& c, u32 i) { // i-th byte of a cell as BV8
  if (c.v.k == GRID || c.v.k == IDBL) unsup("partial access to a grid double");
  A b = toBV(c.v); unsigned w = c.n * 8; (void)w; return simp(Z3_mk_extract(Z, i * 8 + 7, i * 8, b));
}
static void clearCells(Obj* o, u32 off, u32 n) {
  if (o->cells.empty()) return;
  auto it = o->cells.lower_bound(off); if (it != o->cells.begin()) { auto p = std::prev(it); if (p->first + p->second.n > off) it = p; }
  while (it != o->cells.end() && it->first < off + n) {
    u32 c0 = it->first; Cell c = it->second; it = o->cells.erase(it);
    bool partial = c0 < off || c0 + c.n > off + n;
    if (partial) for (u32 i = 0; i < c.n; i++) { u32 a = c0 + i; if (a >= off && a < off + n) continue; A bb = cellByte(c, i); u64 v; if (numeralU64(bb, &v)) o->b[a] = (u8)v; else o->cells[a] = Cell{mkSBV(bb, 8), 1}; }
    if (partial) it = o->cells.lower_bound(off);
  }
}
static void storeVal(Obj* o, u32 off, const Val& v, u32 n) {
  clearCells(o, off, n);
  switch (v.k) {
    case CONC: { u8 buf[16]; memcpy(buf, &v.lo, 8); memcpy(buf + 8, &v.hi, 8); memcpy(&o->b[off], buf, n);
      if (o->hasUndef) for (u32 i = 0; i < n; i++) o->s[off + i] = (i < 8 && (v.um >> i & 1)) ? 1 : 0;
      else if (v.um) { o->hasUndef = true; o->s.assign(o->size, 0); for (u32 i = 0; i < n; i++) if (v.um >> i & 1) o->s[off + i] = 1; } break; }
    case UNDEF: if (!o->hasUndef) { o->hasUndef = true; o->s.assign(o->size, 0); } memset(&o->s[off], 1, n); break;
    case SBOOL: { Val b = mkSBV(Z3_mk_ite(Z, v.ast(), mkBVc(1, n * 8), mkBVc(0, n * 8)), n * 8); o->cells[off] = Cell{b, n}; if (o->hasUndef) memset(&o->s[off], 0, n); break; }
    case SBV: case SFPV: case GRID: case IDBL: {
      if (v.k == SBV && v.um) { // partially undefined: split to bytes
        for (u32 i = 0; i < n; i++) { if (v.um >> i & 1) { if (!o->hasUndef) { o->hasUndef = true; o->s.assign(o->size, 0); } o->s[off + i] = 1; } else { A bb = simp(Z3_mk_extract(Z, i * 8 + 7, i * 8, v.ast())); u64 x; if (numeralU64(bb, &x)) { o->b[off + i] = (u8)x; } else o->cells[off + i] = Cell{mkSBV(bb, 8), 1}; if (o->hasUndef) o->s[off + i] = 0; } }
        break;
      }
      Val x = v; if (v.k == SBV && v.w < n * 8) x = mkSBV(Z3_mk_zero_ext(Z, n * 8 - v.w, v.ast()), n * 8); 
      o->cells[off] = Cell{x, n}; if (o->hasUndef) memset(&o->s[off], 0, n); break; }
    default: unsup("store of aggregate cell");
  }
}
static Val loadVal(Obj* o, u32 off, u32 n, unsigned w) {
  if (!o->cells.empty()) {
    auto it = o->cells.lower_bound(off);
    if (it != o->cells.end() && it->first == off && it->second.n == n) {
      Val v = it->second.v; if (v.k == SBV && v.w > w) { v = mkSBV(Z3_mk_extract(Z, w - 1, 0, v.ast()), w, true); if (w == 1 && v.k == SBV) v = mkBoolV(simp(Z3_mk_eq(Z, v.ast(), mkBVc(1, 1)))); } return v;
    }
    bool ov = it != o->cells.end() && it->first < off + n;
    if (!ov && it != o->cells.begin()) { auto p = std::prev(it); ov = p->first + p->second.n > off; }
    if (ov) {
      A acc = nullptr; u8 um = 0;
      for (u32 i = 0; i < n; i++) {
        u32 a = off + i; auto q = o->cells.upper_bound(a); A bb = nullptr;
        if (q != o->cells.begin()) { auto p = std::prev(q); if (p->first + p->second.n > a) bb = cellByte(p->second, a - p->first); }
        if (!bb) { if (o->hasUndef && o->s[a]) um |= 1 << i; bb = mkBVc(o->b[a], 8); }
        acc = acc ? Z3_mk_concat(Z, bb, acc) : bb;
      }
      Val v = mkSBV(w < n * 8 ? Z3_mk_extract(Z, w - 1, 0, acc) : acc, w, true); v.um = um;
      if (w == 1 && v.k == SBV) return mkBoolV(simp(Z3_mk_eq(Z, v.ast(), mkBVc(1, 1)))); return v;
    }
  }
  u8 um = 0;
  if (o->hasUndef) { u32 cnt = 0; for (u32 i = 0; i < n; i++) if (o->s[off + i]) { cnt++; if (i < 8) um |= 1 << i; } if (cnt == n) return mkUndef(w); if (cnt && n > 8) unsup("wide partially undefined load"); }
  u8 buf[16] = {0}; memcpy(buf, &o->b[off], n); u64 lo, hi; memcpy(&lo, buf, 8); memcpy(&hi, buf + 8, 8);
  Val v = w <= 64 ? mkC(lo, w) : mkC128(((u128)hi << 64) | lo, w); v.um = um; return v;
}

struct Ref { u64 id; u32 off; };
static std::string hexs(u64 v) { char b[32]; sprintf(b, "0x%llx", (unsigned long long)v); return b; }
// concrete pointer resolution; reports a violation when the access is invalid
static Ref resolveC(u64 a, u64 n, bool write, const char* what) {
  u64 id = a >> SLOT; Obj* o = cur->mem.get(id);
  if (!o) { // maybe inside a multi-slot object
    u64 k = id; for (int i = 0; i < 4096 && k > 0 && !o; i++) { k--; Obj* c = cur->mem.get(k); if (c) { if (((u64)c->size >> SLOT) + k >= id) { o = c; id = k; } break; } }
  }
  if (!o) { if (a < 4096) violation("memory", std::string("null dereference in ") + what); violation("memory", std::string("invalid pointer ") + what); }
  u64 off = a - (id << SLOT);
  if (o->fl & O_FREED) violation("memory", std::string("use after free in ") + what);
  if (off + n > o->size) violation("memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " in " + what);
  if (write && (o->fl & O_RO)) violation("memory", std::string("write to constant memory in ") + what);
  return Ref{id, (u32)off};
}
static u64 modelU64(A a) {
  if (!cur->model) { ModelH* m = nullptr; Z3_lbool r = check(*cur, nullptr, &m); if (r == Z3_L_FALSE) throw PathEnd{0}; if (r != Z3_L_TRUE) unsup("no model for concretisation"); cur->setModel(m); }
  A o; Z3_model_eval(Z, cur->model->m, a, true, &o); o = simp(o); u64 v = 0; if (!numeralU64(o, &v)) unsup("non-numeral in model"); return v;
}
static u64 concretize(const Val& v, const char* what) { // forks over the feasible values
  if (v.k == CONC) return v.lo;
  if (v.k == SBOOL) return decide(v.ast());
  if (v.k == UNDEF) violation("uninit", std::string("use of uninitialised value as ") + what);
  A a = toBV(v);
  for (int i = 0; i < 5000; i++) { u64 c = modelU64(a); if (decide(Z3_mk_eq(Z, a, mkBVc(c, v.w)))) return c; }
  unsup("too many values to concretise");
}
static Ref resolve(const Val& p, u64 n, bool write, const char* what) {
  if (p.k == CONC) { if (p.um) violation("uninit", "partially uninitialised pointer"); return resolveC(p.lo, n, write, what); }
  if (p.k == UNDEF) violation("uninit", std::string("uninitialised pointer in ") + what);
  return resolveC(concretize(p, "address"), n, write, what);
}
static Val memLoad(const Val& p, Type* t, const char* what = "load");
static void memStore(const Val& p, const Val& v, Type* t, const char* what = "store") {
  if (t->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(t)); resolve(p, DL->getTypeStoreSize(t), true, what); u64 a = concretize(p, "address"); for (unsigned i = 0; i < t->getStructNumElements(); i++) memStore(mkC(a + sl->getElementOffset(i), 64), (*(Agg*)v.p)[i], t->getStructElementType(i), what); return; }
  if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); u64 a = concretize(p, "address"); for (unsigned i = 0; i < t->getArrayNumElements(); i++) memStore(mkC(a + es * i, 64), (*(Agg*)v.p)[i], t->getArrayElementType(), what); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); u64 a = concretize(p, "address"); resolve(mkC(a, 64), DL->getTypeStoreSize(t), true, what); for (unsigned i = 0; i < vt->getNumElements(); i++) memStore(mkC(a + es * i, 64), (*(Agg*)v.p)[i], vt->getElementType(), what); return; }
  u64 n = DL->getTypeStoreSize(t); Ref r = resolve(p, n, true, what); storeVal(cur->mem.wget(r.id), r.off, v, n);
}
static Val memLoad(const Val& p, Type* t, const char* what) {
  if (t->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(t)); u64 a = concretize(p, "address"); auto* v = new Agg(); for (unsigned i = 0; i < t->getStructNumElements(); i++) v->push_back(memLoad(mkC(a + sl->getElementOffset(i), 64), t->getStructElementType(i), what)); return aggV(v); }
  if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); u64 a = concretize(p, "address"); auto* v = new Agg(); for (unsigned i = 0; i < t->getArrayNumElements(); i++) v->push_back(memLoad(mkC(a + es * i, 64), t->getArrayElementType(), what)); return aggV(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); u64 a = concretize(p, "address"); auto* v = new Agg(); for (unsigned i = 0; i < vt->getNumElements(); i++) v->push_back(memLoad(mkC(a + es * i, 64), vt->getElementType(), what)); return aggV(v); }
  u64 n = DL->getTypeStoreSize(t); unsigned w = bitsOf(t);
  if (p.k == SBV && t->isIntegerTy()) { // symbolic address: ITE read inside one object when possible
    u64 a0 = modelU64(p.ast()); u64 id = a0 >> SLOT; Obj* o = cur->mem.get(id);
    if (o && !(o->fl & O_FREED) && o->size >= n && o->size / n <= 1024) {
      u64 base = id << SLOT; A a = p.ast();
      A inb = mkAnd(Z3_mk_bvuge(Z, a, mkBVc(base, 64)), Z3_mk_bvule(Z, a, mkBVc(base + o->size - n, 64)));
      bool al = true; if (n > 1) al = decide(Z3_mk_eq(Z, Z3_mk_bvand(Z, a, mkBVc(n - 1, 64)), mkBVc(0, 64)));
      if (al && decide(inb)) {
        o = cur->mem.get(id); A acc = nullptr;
        for (u64 off = 0; off + n <= o->size; off += n) {
          if (!feasible(Z3_mk_eq(Z, a, mkBVc(base + off, 64)))) continue;
          Val e = loadVal(o, off, n, w); if (e.k == UNDEF) { acc = nullptr; break; }
          A x = toBV(e); acc = acc ? Z3_mk_ite(Z, Z3_mk_eq(Z, a, mkBVc(base + off, 64)), x, acc) : x;
        }
        if (acc) { Val r = mkSBV(acc, w, true); if (w == 1 && r.k == SBV) return mkBoolV(simp(Z3_mk_eq(Z, r.ast(), mkBVc(1, 1)))); return r; }
      }
    }
  }
  Ref r = resolve(p, n, false, what); return loadVal(cur->mem.get(r.id), r.off, n, w);
}
static void copyMem(u64 dst, u64 src, u64 n) {
  if (!n) return;
  Ref d = resolveC(dst, n, true, "memcpy"), s = resolveC(src, n, false, "memcpy"); (void)d;
  Obj* so = cur->mem.get(s.id);
  // snapshot the source range
  std::vector<u8> b(so->b.begin() + s.off, so->b.begin() + s.off + n), u; if (so->hasUndef) u.assign(so->s.begin() + s.off, so->s.begin() + s.off + n);
  std::vector<std::pair<u32, Cell>> cs;
  if (!so->cells.empty()) {
    auto it = so->cells.lower_bound(s.off); if (it != so->cells.begin()) { auto p = std::prev(it); if (p->first + p->second.n > s.off) it = p; }
    for (; it != so->cells.end() && it->first < s.off + n; ++it) {
      u32 c0 = it->first; const Cell& c = it->second;
      if (c0 >= s.off && c0 + c.n <= s.off + n) cs.push_back({c0 - s.off, c});
      else for (u32 i = 0; i < c.n; i++) { u32 a = c0 + i; if (a < s.off || a >= s.off + n) continue; cs.push_back({a - s.off, Cell{mkSBV(cellByte(c, i), 8), 1}}); }
    }
  }
  Obj* o = cur->mem.wget(d.id); clearCells(o, d.off, n); memcpy(&o->b[d.off], b.data(), n);
  if (!u.empty()) { if (!o->hasUndef) { o->hasUndef = true; o->s.assign(o->size, 0); } memcpy(&o->s[d.off], u.data(), n); } else if (o->hasUndef) memset(&o->s[d.off], 0, n);
  for (auto& c : cs) { if (c.second.v.k == CONC) putBytes(o, d.off + c.first, &c.second.v.lo, c.second.n); else { o->cells[d.off + c.first] = c.second; if (o->hasUndef) memset(&o->s[d.off + c.first], 0, c.second.n); } }
}
static void setMem(u64 dst, const Val& v, u64 n) {
  if (!n) return; Ref d = resolveC(dst, n, true, "memset"); Obj* o = cur->mem.wget(d.id); 
  if (v.k == CONC) { clearCells(o, d.off, n); memset(&o->b[d.off], (int)v.lo, n); if (o->hasUndef) memset(&o->s[d.off], 0, n); }
  else { A x = toBV(v); if (v.w > 8) x = simp(Z3_mk_extract(Z, 7, 0, x)); Val b = mkSBV(x, 8); for (u64 i = 0; i < n; i++) storeVal(o, d.off + i, b, 1); }
}
static std::string readCStr(u64 a) { std::string s; for (;;) { Val v = loadVal(cur->mem.get(resolveC(a, 1, false, "string").id), (u32)(a & ((1 << SLOT) - 1)), 1, 8); if (v.k != CONC) { s += '?'; } else { if (!v.lo) break; s += (char)v.lo; } a++; } return s; }

// ---------------------------------------------------------------------------------------- function decoding
static FnInfo* getFn(const Function* F) {
  auto it = finfo.find(F); if (it != finfo.end()) return it->second;
  FnInfo* fi = new FnInfo(); fi->F = F; fi->name = F->getName().str(); finfo[F] = fi;
  for (auto& a : F->args()) fi->slot[&a] = fi->nslots++;
  for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) fi->slot[&I] = fi->nslots++;
  for (auto& bb : *F) {
    fi->start[&bb] = fi->code.size();
    for (auto& I : bb) {
      DInst d; d.I = &I; d.ty = I.getType(); d.opc = I.getOpcode(); d.dst = I.getType()->isVoidTy() ? -1 : fi->slot[&I];
      for (auto& op : I.operands()) {
        Opnd o; Value* v = op.get();
        auto s = fi->slot.find(v); if (s != fi->slot.end()) o.idx = s->second;
        else if (auto* c = dyn_cast<Constant>(v)) { try { o.c = evalConst(c); } catch (Unsupported& u) { o.c = undefOf(c->getType()); unsupportedWhy["decode: " + u.why]++; } }
        d.ops.push_back(o);
      }
      fi->code.push_back(std::move(d));
    }
  }
  return fi;
}
static void pushFrame(const Function* F, const std::vector<Val>& args) {
  if ((int)cur->fr.size() >= opt.maxFrames) violation("recursion", "call depth limit exceeded in " + demangle(F->getName().str()));
  FnInfo* fi = getFn(F); if (!fi->covered) { fi->covered = true; coveredFns.insert(fi->name); }
  Frame* f = new Frame(); f->fi = fi; f->pc = 0; f->cur = &F->getEntryBlock(); f->regs.resize(fi->nslots);
  for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) {
    Val v = args[i];
    if (F->getArg(i)->hasByValAttr()) {
      Type* t = F->getArg(i)->getParamByValType(); u64 n = DL->getTypeAllocSize(t); u64 a = cur->mem.alloc(n, O_STACK, true); f->allocas.push_back(a >> SLOT); u64 src = concretize(v, "byval"); copyMem(a, src, n); v = mkC(a, 64);
    }
    f->regs[i] = v;
  }
  cur->fr.push_back(f);
}
static void popFrame() {
  Frame* f = cur->fr.back();
  for (u64 id : f->allocas) { Obj* o = cur->mem.wget(id); o->fl |= O_FREED; o->b.clear(); o->b.shrink_to_fit(); o->s.clear(); o->cells.clear(); }
  if (--f->rc == 0) delete f; cur->fr.pop_back();
}
static void enterBlock(Frame& f, const BasicBlock* bb) { f.prev = f.cur; f.cur = bb; f.pc = f.fi->start[bb];
  // evaluate phis in parallel
  std::vector<std::pair<int, Val>> vals;
  while (true) {
    DInst& d = f.fi->code[f.pc]; auto* ph = dyn_cast<PHINode>(d.I); if (!ph) break;
    int k = ph->getBasicBlockIndex(f.prev); const Opnd& o = d.ops[k]; vals.push_back({d.dst, o.idx >= 0 ? f.regs[o.idx] : o.c}); f.pc++;
  }
  for (auto& v : vals) f.regs[v.first] = v.second;
}

// ---------------------------------------------------------------------------------------- exceptions
static std::string tiName(u64 ti) { auto it = gByAddr.find(ti); return it == gByAddr.end() ? "?" : it->second->getName().str(); }
static u64 readPtrC(u64 a) { Val v = loadVal(cur->mem.get(resolveC(a, 8, false, "typeinfo").id), (u32)(a & ((1 << SLOT) - 1)), 8, 64); return v.k == CONC ? v.lo : 0; }
static bool tiDerives(u64 ti, u64 base, int depth = 0) {
  if (ti == base) return true; if (depth > 20 || !ti) return false;
  std::string n = tiName(ti), b = tiName(base);
  if (n == b) return true;
  static const std::map<std::string, std::string> sup = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}};
  auto it = sup.find(n); if (it != sup.end()) { if (it->second == b) return true; for (auto& g : gByAddr) if (g.second->getName() == it->second) return tiDerives(g.first, base, depth + 1); 
    std::string c = it->second; while (true) { if (c == b) return true; auto j = sup.find(c); if (j == sup.end()) return false; c = j->second; } }
  auto g = gByAddr.find(ti); if (g == gByAddr.end() || !g->second->hasInitializer()) return false;
  auto* cs = dyn_cast<ConstantStruct>(g->second->getInitializer()); if (!cs) return false;
  if (cs->getNumOperands() == 3) { Val v = evalConst(cs->getOperand(2)); return tiDerives(v.lo, base, depth + 1); }
  if (cs->getNumOperands() > 4) for (unsigned i = 4; i + 1 < cs->getNumOperands() + 1 && i < cs->getNumOperands(); i += 2) { Val v = evalConst(cs->getOperand(i)); if (tiDerives(v.lo, base, depth + 1)) return true; }
  return false;
}
static void unwind() { // throws cur->excPtr / excTI from the current top frame
  while (!cur->fr.empty()) {
    Frame& f = cur->top(); const Instruction* I = f.fi->code[f.pc].I;
    if (auto* inv = dyn_cast<InvokeInst>(I)) {
      const LandingPadInst* lp = inv->getLandingPadInst(); bool take = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses() && !take; i++) if (lp->isCatch(i)) { Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c) || tiDerives(cur->excTI, evalConst(c).lo)) take = true; }
      if (take) { enterBlock(f, inv->getUnwindDest()); return; }
    }
    popFrame();
  }
  throw PathEnd{3};
}
static std::string excName() { std::string n = tiName(cur->excTI); std::string d = demangle(n); size_t p = d.find("typeinfo for "); return p == std::string::npos ? d : d.substr(p + 13); }

// ---------------------------------------------------------------------------------------- intrinsics
typedef std::function<bool(const CallBase*, std::vector<Val>&, Val&)> Handler; // returns true when the call was completed
static std::unordered_map<std::string, Handler> H;

static A freshConst(const std::string& n, Z3_sort s) { return Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), s); }
static std::string inName(const std::string& n) { return "in" + std::to_string(cur->in.size()) + "_" + n; }
static u64 findTI(const std::string& name) { for (auto& g : gByAddr) if (g.second->getName() == name) return g.first; return 0; }
static void throwStd(const char* ti) {
  u64 t = findTI(ti); if (!t) { // unknown to the module: fabricate
    static std::map<std::string, u64> fake; auto it = fake.find(ti);
    (void)it; violation("exception", std::string("uncaught ") + demangle(ti));
  }
  u64 p = cur->mem.alloc(16, O_HEAP, false); cur->excPtr = p; cur->excTI = t; unwind();
}
static Val boolVal(A b) { return mkBoolV(simp(b)); }
static A byteAt(u64 a, bool* conc, u64* cv) {
  Ref r = resolveC(a, 1, false, "compare"); Val v = loadVal(cur->mem.get(r.id), r.off, 1, 8);
  if (v.k == UNDEF) violation("uninit", "comparison of uninitialised bytes");
  *conc = v.k == CONC; *cv = v.lo; return *conc ? nullptr : toBV(v);
}
static Val memCmp(u64 a, u64 b, u64 n, bool eqOnly) {
  if (n) { resolveC(a, n, false, "memcmp"); resolveC(b, n, false, "memcmp"); }
  A acc = nullptr; int accC = 0; // processed from the end
  for (u64 i = n; i-- > 0;) {
    bool c1, c2; u64 v1, v2; A x = byteAt(a + i, &c1, &v1), y = byteAt(b + i, &c2, &v2);
    if (c1 && c2) { if (v1 != v2) { acc = nullptr; accC = v1 < v2 ? -1 : 1; } continue; }
    if (c1) x = mkBVc(v1, 8); if (c2) y = mkBVc(v2, 8);
    A rest = acc ? acc : mkBVc((u32)accC, 32);
    if (eqOnly) acc = Z3_mk_ite(Z, Z3_mk_eq(Z, x, y), rest, mkBVc(1, 32));
    else acc = Z3_mk_ite(Z, Z3_mk_eq(Z, x, y), rest, Z3_mk_ite(Z, Z3_mk_bvult(Z, x, y), mkBVc((u32)-1, 32), mkBVc(1, 32)));
  }
  if (!acc) return mkC((u32)accC, 32); return mkSBV(acc, 32, true);
}
static void doFree(const Val& p, const char* what) {
  u64 a = concretize(p, "free"); if (!a) return; u64 id = a >> SLOT; Obj* o = cur->mem.get(id);
  if (!o || !(o->fl & O_HEAP) || (a & ((1 << SLOT) - 1))) violation("memory", std::string("invalid ") + what);
  if (o->fl & O_FREED) violation("memory", std::string("double ") + what);
  cur->live--;
  Obj* w = cur->mem.wget(id); w->fl |= O_FREED; w->b.clear(); w->b.shrink_to_fit(); w->s.clear(); w->cells.clear();
}
static u64 doAlloc(const Val& n, bool undef, bool* fail) {
  u64 s = concretize(n, "allocation size"); *fail = s > (1ULL << 28); if (*fail) return 0; cur->live++; return cur->mem.alloc(s, O_HEAP, undef);
}
static Val d1(const std::vector<Val>& a, double (*f)(double)) { if (a[0].k == CONC) return mkD(f(asD(a[0]))); unsup("math function of symbolic double"); }

static void setupHandlers() {
  auto newH = [](const CallBase*, std::vector<Val>& a, Val& r) { bool f; u64 p = doAlloc(a[0], true, &f); if (f) { throwStd("_ZTISt9bad_alloc"); return false; } r = mkC(p, 64); return true; };
  H["_Znwm"] = H["_Znam"] = H["_ZnwmRKSt9nothrow_t"] = H["_ZnamRKSt9nothrow_t"] = newH;
  H["malloc"] = [](const CallBase*, std::vector<Val>& a, Val& r) { bool f; u64 p = doAlloc(a[0], true, &f); r = mkC(p, 64); return true; };
  H["calloc"] = [](const CallBase*, std::vector<Val>& a, Val& r) { u64 n = concretize(a[0], "size") * concretize(a[1], "size"); bool f; u64 p = doAlloc(mkC(n, 64), false, &f); r = mkC(p, 64); return true; };
  auto del = [](const CallBase*, std::vector<Val>& a, Val&) { doFree(a[0], "free"); return true; };
  H["_ZdlPv"] = H["_ZdlPvm"] = H["_ZdaPv"] = H["_ZdaPvm"] = H["free"] = del;
  H["memcpy"] = H["memmove"] = [](const CallBase*, std::vector<Val>& a, Val& r) { u64 n = concretize(a[2], "size"), d = concretize(a[0], "addr"), s = concretize(a[1], "addr"); copyMem(d, s, n); r = a[0]; return true; };
  H["memset"] = [](const CallBase*, std::vector<Val>& a, Val& r) { u64 n = concretize(a[2], "size"), d = concretize(a[0], "addr"); setMem(d, a[1], n); r = a[0]; return true; };
  H["memcmp"] = [](const CallBase*, std::vector<Val>& a, Val& r) { u64 n = concretize(a[2], "size"), x = concretize(a[0], "addr"), y = concretize(a[1], "addr"); r = memCmp(x, y, n, false); return true; };
  H["bcmp"] = [](const CallBase*, std::vector<Val>& a, Val& r) { u64 n = concretize(a[2], "size"), x = concretize(a[0], "addr"), y = concretize(a[1], "addr"); r = memCmp(x, y, n, true); return true; };
  H["__cxa_atexit"] = [](const CallBase*, std::vector<Val>&, Val& r) { r = mkC(0, 32); return true; };
  H["__cxa_guard_acquire"] = [](const CallBase*, std::vector<Val>& a, Val& r) { Ref q = resolve(a[0], 1, false, "guard"); Val v = loadVal(cur->mem.get(q.id), q.off, 1, 8); r = mkC(v.k == CONC && v.lo ? 0 : 1, 32); return true; };
  H["__cxa_guard_release"] = [](const CallBase*, std::vector<Val>& a, Val&) { Ref q = resolve(a[0], 1, true, "guard"); storeVal(cur->mem.wget(q.id), q.off, mkC(1, 8), 1); return true; };
  H["__cxa_guard_abort"] = [](const CallBase*, std::vector<Val>&, Val&) { return true; };
  H["__cxa_allocate_exception"] = [](const CallBase*, std::vector<Val>& a, Val& r) { u64 n = concretize(a[0], "size"); r = mkC(cur->mem.alloc(n < 16 ? 16 : n, O_HEAP, false), 64); return true; };
  H["__cxa_free_exception"] = [](const CallBase*, std::vector<Val>&, Val&) { return true; };
  H["__cxa_throw"] = [](const CallBase*, std::vector<Val>& a, Val&) { cur->excPtr = a[0].lo; cur->excTI = a[1].lo; unwind(); return false; };
  H["__cxa_begin_catch"] = [](const CallBase*, std::vector<Val>& a, Val& r) { cur->caught.push_back({a[0].lo, cur->excTI}); r = a[0]; return true; };
  H["__cxa_end_catch"] = [](const CallBase*, std::vector<Val>&, Val&) { if (!cur->caught.empty()) cur->caught.pop_back(); return true; };
  H["__cxa_get_exception_ptr"] = [](const CallBase*, std::vector<Val>& a, Val& r) { r = a[0]; return true; };
  H["__cxa_rethrow"] = [](const CallBase*, std::vector<Val>&, Val&) { auto c = cur->caught.back(); cur->excPtr = c.first; cur->excTI = c.second; unwind(); return false; };
  H["__cxa_bad_cast"] = [](const CallBase*, std::vector<Val>&, Val&) { throwStd("_ZTISt8bad_cast"); return false; };
  struct { const char* f; const char* ti; } thr[] = {{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt19__throw_range_errorPKc", "_ZTISt11range_error"}};
  for (auto& t : thr) { std::string ti = t.ti; H[t.f] = [ti](const CallBase*, std::vector<Val>&, Val&) { throwStd(ti.c_str()); return false; }; }
  auto ab = [](const char* k, const char* m) { std::string kk = k, mm = m; return [kk, mm](const CallBase* cb, std::vector<Val>& a, Val&) -> bool { violation(kk, mm); }; };
  H["abort"] = ab("abort", "abort()"); H["exit"] = ab("abort", "exit()"); H["_ZSt9terminatev"] = ab("abort", "std::terminate()");
  H["__assert_fail"] = [](const CallBase*, std::vector<Val>& a, Val&) -> bool { violation("program-assert", "assert(" + readCStr(a[0].lo) + ")"); };
  H["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](const CallBase*, std::vector<Val>& a, Val&) -> bool { violation("ub", "libstdc++ precondition: " + readCStr(a[3].lo)); };
  H["__cxa_pure_virtual"] = ab("ub", "pure virtual call");
  H["__dynamic_cast"] = [](const CallBase*, std::vector<Val>& a, Val& r) {
    u64 p = concretize(a[0], "ptr"); u64 vt = readPtrC(p); u64 ti = readPtrC(vt - 8); u64 ott = readPtrC(vt - 16);
    r = mkC(tiDerives(ti, a[2].lo) ? p + ott : 0, 64); return true; };
  // math
  H["round"] = [](const CallBase*, std::vector<Val>& a, Val& r) { if (a[0].k == IDBL) r = a[0]; else if (a[0].k == CONC) r = mkD(std::round(asD(a[0]))); else if (a[0].k == GRID) r = gRound(a[0], 'r'); else r.k = SFPV, r.w = 64, r.p = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rna(Z), toFP(a[0])); return true; };
  H["floor"] = [](const CallBase*, std::vector<Val>& a, Val& r) { if (a[0].k == IDBL) r = a[0]; else if (a[0].k == CONC) r = mkD(std::floor(asD(a[0]))); else if (a[0].k == GRID) r = gRound(a[0], 'f'); else r.k = SFPV, r.w = 64, r.p = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtn(Z), toFP(a[0])); return true; };
  H["ceil"] = [](const CallBase*, std::vector<Val>& a, Val& r) { if (a[0].k == IDBL) r = a[0]; else if (a[0].k == CONC) r = mkD(std::ceil(asD(a[0]))); else if (a[0].k == GRID) r = gRound(a[0], 'c'); else r.k = SFPV, r.w = 64, r.p = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtp(Z), toFP(a[0])); return true; };
  H["trunc"] = [](const CallBase*, std::vector<Val>& a, Val& r) { if (a[0].k == IDBL) r = a[0]; else if (a[0].k == CONC) r = mkD(std::trunc(asD(a[0]))); else if (a[0].k == GRID) r = gRound(a[0], 't'); else r.k = SFPV, r.w = 64, r.p = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtz(Z), toFP(a[0])); return true; };
  H["fabs"] = [](const CallBase*, std::vector<Val>& a, Val& r) {
    if (a[0].k == IDBL) { A t = idTerm(a[0], 64); r = mkID(Z3_mk_ite(Z, Z3_mk_bvslt(Z, t, mkBVc(0, 64)), Z3_mk_bvneg(Z, t), t), 64); return true; }
    if (a[0].k == CONC) r = mkD(std::fabs(asD(a[0])));
    else if (a[0].k == GRID) r = gAbs(a[0]);
    else r.k = SFPV, r.w = 64, r.p = Z3_mk_fpa_abs(Z, toFP(a[0])); return true; };
  H["pow"] = [](const CallBase*, std::vector<Val>& a, Val& r) { for (auto& x : a) x = idConc(x); if (a[0].k != CONC || a[1].k != CONC) unsup("pow of symbolic"); r = mkD(std::pow(asD(a[0]), asD(a[1]))); return true; };
  H["ldexp"] = [](const CallBase*, std::vector<Val>& a, Val& r) { for (auto& x : a) x = idConc(x); if (a[0].k != CONC || a[1].k != CONC) unsup("ldexp of symbolic"); r = mkD(std::ldexp(asD(a[0]), (int)a[1].lo)); return true; };
  for (auto f : {std::make_pair("sqrt", (double (*)(double))std::sqrt), std::make_pair("log", (double (*)(double))std::log), std::make_pair("exp", (double (*)(double))std::exp), std::make_pair("sin", (double (*)(double))std::sin), std::make_pair("cos", (double (*)(double))std::cos), std::make_pair("log2", (double (*)(double))std::log2), std::make_pair("log10", (double (*)(double))std::log10)}) {
    auto fn = f.second; H[f.first] = [fn](const CallBase*, std::vector<Val>& a, Val& r) { for (auto& x : a) x = idConc(x); r = d1(a, fn); return true; }; }
  H["hypot"] = [](const CallBase*, std::vector<Val>& a, Val& r) { for (auto& x : a) x = idConc(x); if (a[0].k != CONC || a[1].k != CONC) unsup("hypot of symbolic"); r = mkD(std::hypot(asD(a[0]), asD(a[1]))); return true; };
  H["fmod"] = [](const CallBase*, std::vector<Val>& a, Val& r) { for (auto& x : a) x = idConc(x); if (a[0].k != CONC || a[1].k != CONC) unsup("fmod of symbolic"); r = mkD(std::fmod(asD(a[0]), asD(a[1]))); return true; };
  auto mnmx = [](bool mx) { return [mx](const CallBase*, std::vector<Val>& a, Val& r) {
    if ((a[0].k == IDBL || a[1].k == IDBL) && idOk(a[0]) && idOk(a[1])) { unsigned cw = std::max(idW(a[0]), idW(a[1])); A x = idTerm(a[0], cw), y = idTerm(a[1], cw); r = mkID(Z3_mk_ite(Z, mx ? Z3_mk_bvsge(Z, x, y) : Z3_mk_bvsle(Z, x, y), x, y), cw); return true; }
    a[0] = idConc(a[0]); a[1] = idConc(a[1]);
    if (a[0].k == CONC && a[1].k == CONC) r = mkD(mx ? std::fmax(asD(a[0]), asD(a[1])) : std::fmin(asD(a[0]), asD(a[1])));
    else if (a[0].k == GRID || a[1].k == GRID) { A c = gCmpA(mx ? ">=" : "<=", a[0], a[1]); if (c == ATrue) r = a[0]; else if (c == AFalse) r = a[1]; else r = gIte(c, a[0], a[1]); }
    else { r.k = SFPV; r.w = 64; r.p = mx ? Z3_mk_fpa_max(Z, toFP(a[0]), toFP(a[1])) : Z3_mk_fpa_min(Z, toFP(a[0]), toFP(a[1])); } return true; }; };
  H["fmax"] = mnmx(true); H["fmin"] = mnmx(false);
  // double formatting used by the shadow streams: int __sym_fmt_double(char* buf, double v, int precision, int mode)
  H["__sym_fmt_double"] = [](const CallBase*, std::vector<Val>& a, Val& r) {
    a[1] = idConc(a[1]); u64 buf = concretize(a[0], "addr"); int prec = (int)concretize(a[2], "precision"); int mode = (int)concretize(a[3], "mode"); char b[512];
    if (a[1].k == CONC) snprintf(b, sizeof b, mode == 1 ? "%.*f" : mode == 2 ? "%.*e" : "%.*g", prec, asD(a[1]));
    else if (a[1].k == GRID) strcpy(b, "1.5");
    else if (a[1].k == UNDEF) violation("uninit", "formatting of an uninitialised double");
    else { A f = toFP(a[1]); if (decide(Z3_mk_fpa_is_nan(Z, f))) strcpy(b, "nan"); else if (decide(Z3_mk_fpa_is_infinite(Z, f))) strcpy(b, "inf"); else strcpy(b, "1.5"); }
    int n = strlen(b); Ref q = resolveC(buf, n + 1, true, "format"); Obj* o = cur->mem.wget(q.id); clearCells(o, q.off, n + 1); putBytes(o, q.off, b, n + 1); r = mkC(n, 32); return true; };
  H["__sym_parse_double"] = [](const CallBase*, std::vector<Val>& a, Val& r) { // double __sym_parse_double(const char*, int* consumed)
    std::string s = readCStr(concretize(a[0], "addr")); char* e; double d = strtod(s.c_str(), &e); int n = e - s.c_str(); Ref q = resolve(a[1], 4, true, "parse"); storeVal(cur->mem.wget(q.id), q.off, mkC(n, 32), 4); r = mkD(d); return true; };
  H["__sym_is_symbolic"] = [](const CallBase*, std::vector<Val>& a, Val& r) { r = mkC(a[0].k != CONC, 32); return true; };
  // harness API
  H["sym_int"] = [](const CallBase*, std::vector<Val>& a, Val& r) {
    i64 lo = (int)concretize(a[0], "lo"), hi = (int)concretize(a[1], "hi"); std::string n = inName(readCStr(a[2].lo));
    if (lo == hi) { cur->in.push_back({n, 'i', nullptr, 0, (u64)lo}); r = mkC((u32)lo, 32); return true; }
    A v = freshConst(n, Z3_mk_bv_sort(Z, 32)); 
    A c = mkAnd(Z3_mk_bvsge(Z, v, mkBVc((u32)lo, 32)), Z3_mk_bvsle(Z, v, mkBVc((u32)hi, 32))); cur->in.push_back({n, 'i', v, 0, 0}); if (!(lo == INT32_MIN && hi == INT32_MAX)) assume(c); r = mkSBV(v, 32); return true; };
  H["sym_choice"] = [](const CallBase*, std::vector<Val>& a, Val& r) {
    u32 n = concretize(a[0], "n"); std::string nm = inName(readCStr(a[1].lo));
    if (n <= 1) { cur->in.push_back({nm, 'i', nullptr, 0, 0}); r = mkC(0, 32); return true; }
    // concrete fork without the solver: every value is feasible
    for (u32 i = 1; i < n; i++) { State* o = cloneCur(); o->in.push_back({nm, 'i', nullptr, 0, i}); Frame& f = o->top(); DInst& d = f.fi->code[f.pc]; f.regs[d.dst] = mkC(i, 32);
      if (auto* inv = dyn_cast<InvokeInst>(d.I)) enterBlock(f, inv->getNormalDest()); else f.pc++; work.push_back(o); }
    cur->in.push_back({nm, 'i', nullptr, 0, 0}); r = mkC(0, 32); return true; };
  H["sym_char"] = [](const CallBase*, std::vector<Val>& a, Val& r) { std::string n = inName(readCStr(a[0].lo)); A v = freshConst(n, Z3_mk_bv_sort(Z, 8)); cur->in.push_back({n, 'c', v, 0, 0}); r = mkSBV(v, 8); return true; };
  H["sym_u64"] = [](const CallBase*, std::vector<Val>& a, Val& r) { std::string n = inName(readCStr(a[0].lo)); A v = freshConst(n, Z3_mk_bv_sort(Z, 64)); cur->in.push_back({n, 'q', v, 0, 0}); r = mkSBV(v, 64); return true; };
  H["sym_grid"] = [](const CallBase*, std::vector<Val>& a, Val& r) { // (int lo, int hi, double step, name)
    int lo = (int)(i64)sext64(concretize(a[0], "lo"), 32), hi = (int)(i64)sext64(concretize(a[1], "hi"), 32); double step = asD(a[2]); std::string n = inName(readCStr(a[3].lo));
    if (lo > hi) throw PathEnd{0};
    A k = freshConst(n + "_" + std::to_string(lo) + "_" + std::to_string(hi), SInt); cur->in.push_back({n, 'g', k, step, 0});
    if (lo < hi) assume(mkAnd(Z3_mk_ge(Z, k, Z3_mk_int(Z, lo, SInt)), Z3_mk_le(Z, k, Z3_mk_int(Z, hi, SInt)))); else assume(Z3_mk_eq(Z, k, Z3_mk_int(Z, lo, SInt)));
    GV* g = newG(); g->num = linScale(linOfInt(k, Zi(lo), Zi(hi)), Q(step)); setBounds(g); r = gFin(g); return true; };
  H["sym_double"] = [](const CallBase*, std::vector<Val>& a, Val& r) { std::string n = inName(readCStr(a[0].lo)); A v = freshConst(n, SFP); cur->in.push_back({n, 'd', v, 0, 0}); r.k = SFPV; r.w = 64; r.p = v; return true; };
  H["sym_assume"] = [](const CallBase*, std::vector<Val>& a, Val&) { assume(toBool(a[0])); return true; };
  H["sym_assert"] = [](const CallBase*, std::vector<Val>& a, Val&) { if (a[0].k == UNDEF) violation("uninit", "assertion on uninitialised value"); checkAssert(toBool(a[0]), readCStr(a[1].lo)); return true; };
  H["sym_reach"] = [](const CallBase*, std::vector<Val>& a, Val&) { std::string l = readCStr(a[0].lo); cur->labels.insert(l); return true; };
  H["sym_param"] = [](const CallBase*, std::vector<Val>& a, Val& r) { u64 i = concretize(a[0], "param"); r = mkC((u32)(i < opt.args.size() ? atoi(opt.args[i].c_str()) : 0), 32); return true; };
  H["sym_observe_d"] = H["sym_observe_i"] = [](const CallBase*, std::vector<Val>& a, Val&) { cur->obs.push_back(a[0]); return true; };
  H["sym_concretize"] = [](const CallBase*, std::vector<Val>& a, Val& r) { u64 v = concretize(a[0], "sym_concretize"); r = mkC((u32)v, 32); return true; };
  H["sym_stop"] = [](const CallBase*, std::vector<Val>&, Val&) -> bool { throw PathEnd{4}; };
  H["sym_heap_live"] = [](const CallBase*, std::vector<Val>&, Val& r) { r = mkC((u64)cur->live, 64); return true; };
  H["sym_print"] = [](const CallBase*, std::vector<Val>& a, Val&) { fprintf(stderr, "[print] %s\n", readCStr(a[0].lo).c_str()); return true; };
  H["sym_replaying"] = [](const CallBase*, std::vector<Val>&, Val& r) { r = mkC(0, 32); return true; };
}

// ---------------------------------------------------------------------------------------- execution
static bool idOk(const Val& v) { if (v.k == IDBL) return true; if (v.k != CONC) return false; double d = asD(v); return std::isfinite(d) && std::fabs(d) <= 9007199254740992.0 && d == std::trunc(d) && !(d == 0 && std::signbit(d)); }
static unsigned idW(const Val& v) { if (v.k == IDBL) return v.hi; double d = asD(v); return d >= -2147483648.0 && d <= 2147483647.0 ? 32 : 64; } // the width of the term
static A idTerm(const Val& v, unsigned w) { if (v.k != IDBL) return mkBVc((u64)(i64)asD(v) & (w < 64 ? (1ULL << w) - 1 : ~0ULL), w); return v.hi < w ? simp(Z3_mk_sign_ext(Z, w - v.hi, v.ast())) : v.ast(); }
static Val mkID(A t, unsigned w) { t = simp(t); u64 v; if (numeralU64(t, &v)) return mkD((double)sext64(v, w)); Val r; r.k = IDBL; r.w = 64; r.hi = w; r.p = t; return r; }
static Val idConc(const Val& v) { if (v.k != IDBL) return v; return mkD((double)sext64(concretize(mkSBV(v.ast(), v.hi), "integral double"), v.hi)); }
// A symbolic float is the grid value it stands for, marked by its width.
static Val fToD(const Val& v) { if (v.k == CONC) return mkD(asF(v)); if (v.k != GRID) unsup("symbolic float"); Val r = v; r.w = 64; return r; }
static Val fToF(const Val& v0) {
  Val v = idConc(v0); if (v.k == CONC) return mkF((float)asD(v)); if (v.k == UNDEF) return mkUndef(32); if (v.k != GRID) unsup("conversion of a symbolic double to float");
  GV* g = (GV*)v.p; Val r = v; r.w = 32;
  if (g->kind == EXACT && !g->den) { // is every value a float already?
    Q m = abs(g->num.c); for (auto& t : g->num.t) m = qgcd(m, t.second);
    Zi D = m.get_den(), n = m.get_num(); unsigned long tz = n == 0 ? 0 : mpz_scan1(n.get_mpz_t(), 0); Q p2 = m; if (n != 0) { p2.get_num() = Zi(1) << tz; p2.canonicalize(); }
    if (mpz_popcount(D.get_mpz_t()) == 1 && mpz_sizeinbase(D.get_mpz_t(), 2) <= 100 && Q(maxabs(g)) <= p2 * Q(Zi(1) << 24)) return r;
  }
  GV* n = newG(); *n = *g; double e = errOf(g); n->kind = APPROX; n->err = rndUp((e + 5.9604644775390625e-08 * (maxabs(g) + e) + 1e-45) * 1.0001); n->lo = rndDn(g->lo - n->err); n->hi = rndUp(g->hi + n->err); r.p = n; return r;
}
static Val binop(unsigned opc, const Val& a, const Val& b, unsigned w, const Instruction* I) {
  if (a.k == IDBL || b.k == IDBL) return binop(opc, idConc(a), idConc(b), w, I);
  if (opc == Instruction::FAdd || opc == Instruction::FSub || opc == Instruction::FMul || opc == Instruction::FDiv || opc == Instruction::FRem) {
    if (a.k == CONC && b.k == CONC) {
      if (w == 64) { double x = asD(a), y = asD(b); switch (opc) { case Instruction::FAdd: return mkD(x + y); case Instruction::FSub: return mkD(x - y); case Instruction::FMul: return mkD(x * y); case Instruction::FDiv: return mkD(x / y); default: return mkD(fmod(x, y)); } }
      if (w == 32) { float x = asF(a), y = asF(b); switch (opc) { case Instruction::FAdd: return mkF(x + y); case Instruction::FSub: return mkF(x - y); case Instruction::FMul: return mkF(x * y); case Instruction::FDiv: return mkF(x / y); default: return mkF(fmodf(x, y)); } }
      unsup("x87 arithmetic");
    }
    if (a.k == UNDEF || b.k == UNDEF) return mkUndef(w);
    if (w == 32) return fToF(binop(opc, fToD(a), fToD(b), 64, I)); // rounding to double first is innocuous for + - * /
    if (w != 64) unsup("symbolic float arithmetic");
    if (a.k == GRID || b.k == GRID) {
      if (a.k == CONC && std::isnan(asD(a))) return a; if (b.k == CONC && std::isnan(asD(b))) return b;
      switch (opc) { case Instruction::FAdd: return gAdd(a, b, false); case Instruction::FSub: return gAdd(a, b, true); case Instruction::FMul: return gMul(a, b); case Instruction::FDiv: return gDiv(a, b); default: unsup("frem on grid"); }
    }
    Val r; r.k = SFPV; r.w = 64; A x = toFP(a), y = toFP(b);
    switch (opc) { case Instruction::FAdd: r.p = Z3_mk_fpa_add(Z, RM, x, y); break; case Instruction::FSub: r.p = Z3_mk_fpa_sub(Z, RM, x, y); break; case Instruction::FMul: r.p = Z3_mk_fpa_mul(Z, RM, x, y); break; case Instruction::FDiv: r.p = Z3_mk_fpa_div(Z, RM, x, y); break; default: unsup("frem on symbolic"); }
    return r;
  }
  // absorbing cases with undef
  if (a.k == UNDEF || b.k == UNDEF) {
    const Val& c = a.k == UNDEF ? b : a;
    if (opc == Instruction::And && c.k == CONC && c.lo == 0 && c.hi == 0) return c;
    if (opc == Instruction::Or && c.k == CONC && w <= 64 && c.lo == mkC(~0ULL, w).lo) return c;
    if (opc == Instruction::Mul && c.k == CONC && c.lo == 0 && c.hi == 0) return c;
    return mkUndef(w);
  }
  if (a.um || b.um) { // partially undefined operands
    if (opc == Instruction::LShr && b.k == CONC && !b.um && b.lo % 8 == 0) { Val x = a; x.um = 0; Val r = binop(opc, x, b, w, I); r.um = a.um >> (b.lo / 8); return r; }
    if (opc == Instruction::Shl && b.k == CONC && !b.um && b.lo % 8 == 0) { Val x = a; x.um = 0; Val r = binop(opc, x, b, w, I); r.um = (u8)(a.um << (b.lo / 8)); return r; }
    if ((opc == Instruction::And) && (a.k == CONC || b.k == CONC)) { const Val& m = (b.k == CONC && !b.um) ? b : a; const Val& x = (&m == &b) ? a : b; if (!m.um) { u8 um = 0; for (int i = 0; i < 8; i++) if ((x.um >> i & 1) && ((m.lo >> (8 * i)) & 0xff)) um |= 1 << i; Val y = x; y.um = 0; Val r = binop(opc, y, m, w, I); r.um = um; return r; } }
    if (opc == Instruction::Or) { Val x = a, y = b; x.um = y.um = 0; Val r = binop(opc, x, y, w, I); r.um = a.um | b.um; return r; }
    return mkUndef(w);
  }
  bool isDiv = opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem;
  if (isDiv) {
    if (b.k == CONC) { if (!b.lo && !b.hi) violation("ub", "integer division by zero"); }
    else if (decide(Z3_mk_eq(Z, toBV(b), bvConst128(mkC128(0, w))))) violation("ub", "integer division by zero");
  }
  if (a.k == CONC && b.k == CONC) {
    if (w <= 64) {
      u64 x = a.lo, y = b.lo; i64 sx = sext64(x, w), sy = sext64(y, w);
      switch (opc) {
        case Instruction::Add: return mkC(x + y, w); case Instruction::Sub: return mkC(x - y, w); case Instruction::Mul: return mkC(x * y, w);
        case Instruction::UDiv: return mkC(x / y, w); case Instruction::URem: return mkC(x % y, w);
        case Instruction::SDiv: if (sy == -1) { if (sx == sext64(1ULL << (w - 1), w)) violation("ub", "signed division overflow"); return mkC(-(u64)sx, w); } return mkC((u64)(sx / sy), w);
        case Instruction::SRem: if (sy == -1) return mkC(0, w); return mkC((u64)(sx % sy), w);
        case Instruction::And: return mkC(x & y, w); case Instruction::Or: return mkC(x | y, w); case Instruction::Xor: return mkC(x ^ y, w);
        case Instruction::Shl: return y >= w ? mkUndef(w) : mkC(x << y, w); case Instruction::LShr: return y >= w ? mkUndef(w) : mkC(x >> y, w); case Instruction::AShr: return y >= w ? mkUndef(w) : mkC((u64)(sx >> y), w);
      }
    } else {
      u128 x = c128(a), y = c128(b);
      switch (opc) { case Instruction::Add: return mkC128(x + y, w); case Instruction::Sub: return mkC128(x - y, w); case Instruction::Mul: return mkC128(x * y, w); case Instruction::And: return mkC128(x & y, w); case Instruction::Or: return mkC128(x | y, w); case Instruction::Xor: return mkC128(x ^ y, w); case Instruction::Shl: return mkC128(y >= w ? 0 : x << (unsigned)y, w); case Instruction::LShr: return mkC128(y >= w ? 0 : x >> (unsigned)y, w); case Instruction::UDiv: return mkC128(x / y, w); case Instruction::URem: return mkC128(x % y, w); }
    }
    unsup("binop");
  }
  if (w == 1) {
    A x = toBool(a), y = toBool(b);
    switch (opc) { case Instruction::And: return boolVal(mkAnd(x, y)); case Instruction::Or: return boolVal(mkOr(x, y)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return boolVal(Z3_mk_xor(Z, x, y)); case Instruction::Mul: return boolVal(mkAnd(x, y)); }
  }
  // identities
  if (b.k == CONC && w <= 64) {
    u64 all = mkC(~0ULL, w).lo;
    if (b.lo == 0 && (opc == Instruction::Add || opc == Instruction::Sub || opc == Instruction::Or || opc == Instruction::Xor || opc == Instruction::Shl || opc == Instruction::LShr || opc == Instruction::AShr)) return a;
    if (b.lo == 0 && (opc == Instruction::And || opc == Instruction::Mul)) return mkC(0, w);
    if (b.lo == all && opc == Instruction::And) return a; if (b.lo == 1 && (opc == Instruction::Mul)) return a;
  }
  A x = toBV(a), y = toBV(b), r;
  switch (opc) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break; case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break; case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x, y); break; case Instruction::URem: r = Z3_mk_bvurem(Z, x, y); break; case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x, y); break; case Instruction::SRem: r = Z3_mk_bvsrem(Z, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(Z, x, y); break; case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break; case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break; case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break; case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
    default: unsup("binop");
  }
  return mkSBV(r, w, true);
}
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
  if (a.k == UNDEF || b.k == UNDEF || a.um || b.um) {
    Val r = mkUndef(1); return r; }
  if (a.k == CONC && b.k == CONC && w <= 64) {
    u64 x = a.lo, y = b.lo; i64 sx = sext64(x, w), sy = sext64(y, w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; default: unsup("icmp"); }
    return mkC(r, 1);
  }
  if (a.k == GRID || b.k == GRID) unsup("integer comparison of grid doubles");
  if (w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { A e = Z3_mk_iff(Z, toBool(a), toBool(b)); return boolVal(p == CmpInst::ICMP_EQ ? e : Z3_mk_not(Z, e)); }
  A x = toBV(a), y = toBV(b), r;
  switch (p) { case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break; case CmpInst::ICMP_NE: r = Z3_mk_not(Z, Z3_mk_eq(Z, x, y)); break; case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break; case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break; case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break; case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break; default: unsup("icmp"); }
  return boolVal(r);
}
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
  if (p == CmpInst::FCMP_TRUE) return mkC(1, 1); if (p == CmpInst::FCMP_FALSE) return mkC(0, 1);
  if (a.k == UNDEF || b.k == UNDEF) return mkUndef(1);
  if (a.k == CONC && b.k == CONC) {
    double x, y; if (w == 64) { x = asD(a); y = asD(b); } else { x = asF(a); y = asF(b); }
    bool un = std::isnan(x) || std::isnan(y), r;
    switch (p) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; default: r = false; }
    return mkC(r, 1);
  }
  if (w == 32) return fcmp(p, fToD(a), fToD(b), 64);
  if (a.k == IDBL || b.k == IDBL) {
    if (!((a.k == IDBL || a.k == CONC) && (b.k == IDBL || b.k == CONC))) return fcmp(p, idConc(a), idConc(b), w);
    bool nan = (a.k == CONC && std::isnan(asD(a))) || (b.k == CONC && std::isnan(asD(b))), unord = p >= CmpInst::FCMP_UNO;
    if (p == CmpInst::FCMP_ORD) return mkC(!nan, 1); if (p == CmpInst::FCMP_UNO) return mkC(nan, 1); if (nan) return mkC(unord, 1);
    Val u = a, v = b; CmpInst::Predicate q = p; if (u.k == CONC) { std::swap(u, v); q = CmpInst::getSwappedPredicate(p); }
    if (v.k == CONC) { double d = asD(v); if (std::fabs(d) > 9007199254740992.0) d = d > 0 ? 9.1e18 : -9.1e18; bool lt = q == CmpInst::FCMP_OLT || q == CmpInst::FCMP_ULT, ge = q == CmpInst::FCMP_OGE || q == CmpInst::FCMP_UGE, le = q == CmpInst::FCMP_OLE || q == CmpInst::FCMP_ULE, gt = q == CmpInst::FCMP_OGT || q == CmpInst::FCMP_UGT;
      if (d != std::trunc(d)) { if (lt || ge) d = std::ceil(d); else if (le || gt) d = std::floor(d); else return mkC(q == CmpInst::FCMP_ONE || q == CmpInst::FCMP_UNE, 1); }
      Val c; c.k = CONC; c.w = 64; c = mkD(d); v = c; }
    unsigned cw = std::max(idW(u), idW(v)); A x = idTerm(u, cw), y = idTerm(v, cw), r;
    switch (q) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = Z3_mk_eq(Z, x, y); break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkNot(Z3_mk_eq(Z, x, y)); break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = Z3_mk_bvsgt(Z, x, y); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = Z3_mk_bvsge(Z, x, y); break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = Z3_mk_bvslt(Z, x, y); break; default: r = Z3_mk_bvsle(Z, x, y); }
    return boolVal(r);
  }
  if (a.k == GRID || b.k == GRID) {
    bool nan = (a.k == CONC && std::isnan(asD(a))) || (b.k == CONC && std::isnan(asD(b)));
    bool unord = p >= CmpInst::FCMP_UNO; // predicates 8.. are unordered-or
    if (p == CmpInst::FCMP_ORD) return mkC(!nan, 1); if (p == CmpInst::FCMP_UNO) return mkC(nan, 1);
    if (nan) return mkC(unord, 1);
    switch (p) {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkBoolV(gCmpA("=", a, b)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkBoolV(simp(mkNot(gCmpA("=", a, b))));
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkBoolV(gCmpA(">", a, b)); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkBoolV(gCmpA(">=", a, b));
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkBoolV(gCmpA("<", a, b)); default: return mkBoolV(gCmpA("<=", a, b));
    }
  }
  A x = toFP(a), y = toFP(b); A un = mkOr(Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)), r;
  switch (p) {
    case CmpInst::FCMP_OEQ: r = Z3_mk_fpa_eq(Z, x, y); break; case CmpInst::FCMP_UEQ: r = mkOr(un, Z3_mk_fpa_eq(Z, x, y)); break; case CmpInst::FCMP_ONE: r = mkAnd(mkNot(un), mkNot(Z3_mk_fpa_eq(Z, x, y))); break; case CmpInst::FCMP_UNE: r = mkNot(Z3_mk_fpa_eq(Z, x, y)); break;
    case CmpInst::FCMP_OGT: r = Z3_mk_fpa_gt(Z, x, y); break; case CmpInst::FCMP_OGE: r = Z3_mk_fpa_geq(Z, x, y); break; case CmpInst::FCMP_OLT: r = Z3_mk_fpa_lt(Z, x, y); break; case CmpInst::FCMP_OLE: r = Z3_mk_fpa_leq(Z, x, y); break;
    case CmpInst::FCMP_UGT: r = mkNot(Z3_mk_fpa_leq(Z, x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(Z3_mk_fpa_lt(Z, x, y)); break; case CmpInst::FCMP_ULT: r = mkNot(Z3_mk_fpa_geq(Z, x, y)); break; case CmpInst::FCMP_ULE: r = mkNot(Z3_mk_fpa_gt(Z, x, y)); break;
    case CmpInst::FCMP_ORD: r = mkNot(un); break; case CmpInst::FCMP_UNO: r = un; break; default: unsup("fcmp");
  }
  return boolVal(r);
}
static Val iteVal(A c, const Val& a, const Val& b, Type* t) {
  if (a.k == AGGR || b.k == AGGR) return decide(c) ? a : b;
  if (t->isPointerTy()) { if (a.k == CONC && b.k == CONC && a.lo == b.lo) return a; return decide(c) ? a : b; }
  if (a.k == UNDEF || b.k == UNDEF || a.um || b.um) return decide(c) ? a : b;
  if (a.k == CONC && b.k == CONC && a.lo == b.lo && a.hi == b.hi) return a;
  if (a.k == IDBL || b.k == IDBL) { if (idOk(a) && idOk(b)) { unsigned cw = std::max(idW(a), idW(b)); return mkID(Z3_mk_ite(Z, c, idTerm(a, cw), idTerm(b, cw)), cw); } return decide(c) ? a : b; }
  if (t->isFloatTy()) { if (a.k == CONC && b.k == CONC) return decide(c) ? a : b; Val r = gIte(c, fToD(a), fToD(b)); return r.k == CONC ? mkF((float)asD(r)) : (r.w = 32, r); }
  if (a.k == GRID || b.k == GRID) return gIte(c, a, b);
  if (a.k == SFPV || b.k == SFPV) { Val r; r.k = SFPV; r.w = 64; r.p = Z3_mk_ite(Z, c, toFP(a), toFP(b)); return r; }
  if (t->isDoubleTy()) return decide(c) ? a : b; // two different concrete doubles
  if (a.w == 1) return boolVal(Z3_mk_ite(Z, c, toBool(a), toBool(b)));
  return mkSBV(Z3_mk_ite(Z, c, toBV(a), toBV(b)), a.w, true);
}
static Val castV(unsigned opc, const Val& a, Type* from, Type* to) {
  unsigned w = bitsOf(to), fw = bitsOf(from);
  switch (opc) {
    case Instruction::BitCast: if (to->isVectorTy() || from->isVectorTy()) { if (to->isVectorTy() && from->isVectorTy() && cast<FixedVectorType>(to)->getNumElements() == cast<FixedVectorType>(from)->getNumElements()) return a; unsup("vector bitcast"); } return a;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if (a.k == CONC) { Val r = mkC(a.lo, w); r.um = a.um; return r; } if (w == fw) return a; break;
    default: break;
  }
  if (a.k == UNDEF) return mkUndef(w);
  switch (opc) {
    case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: {
      if (a.k == CONC) { Val r = mkC128(c128(a), w); r.um = w >= 64 ? a.um : (u8)(a.um & ((1u << ((w + 7) / 8)) - 1)); if (r.um == (u8)((1u << ((w + 7) / 8)) - 1)) return mkUndef(w); return r; }
      if (w > fw) return mkSBV(Z3_mk_zero_ext(Z, w - fw, toBV(a)), w, true);
      Val r = mkSBV(Z3_mk_extract(Z, w - 1, 0, toBV(a)), w, true); r.um = w >= 64 ? a.um : (u8)(a.um & ((1u << ((w + 7) / 8)) - 1));
      if (w == 1 && r.k == SBV) return boolVal(Z3_mk_eq(Z, r.ast(), mkBVc(1, 1))); return r; }
    case Instruction::ZExt: { if (a.k == CONC) { Val r = mkC128(c128(a), w); r.um = a.um; return r; } if (a.k == SBOOL) return mkSBV(Z3_mk_ite(Z, a.ast(), mkBVc(1, w), mkBVc(0, w)), w); Val r = mkSBV(Z3_mk_zero_ext(Z, w - fw, toBV(a)), w, true); r.um = a.um; return r; }
    case Instruction::SExt: if (a.um) return mkUndef(w); if (a.k == CONC) { if (w <= 64) return mkC((u64)sext64(a.lo, fw), w); i64 s = sext64(a.lo, fw); return mkC128((u128)(__int128)s, w); } if (a.k == SBOOL) return mkSBV(Z3_mk_ite(Z, a.ast(), mkBVc(~0ULL, w), mkBVc(0, w)), w); return mkSBV(Z3_mk_sign_ext(Z, w - fw, toBV(a)), w, true);
    case Instruction::SIToFP: case Instruction::UIToFP: {
      bool sg = opc == Instruction::SIToFP;
      if (a.k == CONC) { double d = sg ? (double)sext64(a.lo, fw) : (double)a.lo; if (w == 64) return mkD(d); if (w == 32) return mkF(sg ? (float)sext64(a.lo, fw) : (float)a.lo); unsup("int to x87"); }
      if (w != 64) { u64 v = concretize(a, "int to float"); return mkF(sg ? (float)sext64(v, fw) : (float)v); }
      if (opt.logic.empty() && fw <= 32) { unsigned cw = sg ? 32 : fw < 32 ? 32 : 64; A t = toBV(a); return mkID(cw == fw ? t : sg ? Z3_mk_sign_ext(Z, cw - fw, t) : Z3_mk_zero_ext(Z, cw - fw, t), cw); }
      if (opt.logic.empty()) { u64 v = concretize(a, "int to double"); return mkD(sg ? (double)sext64(v, fw) : (double)v); }
      Val r; r.k = SFPV; r.w = 64; r.p = sg ? Z3_mk_fpa_to_fp_signed(Z, RM, toBV(a), SFP) : Z3_mk_fpa_to_fp_unsigned(Z, RM, toBV(a), SFP); return r; }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      bool sg = opc == Instruction::FPToSI;
      if (a.k == CONC) { double d = fw == 64 ? asD(a) : asF(a); if (std::isnan(d) || d >= (sg ? ldexp(1, w - 1) : ldexp(1, w)) || d <= (sg ? -ldexp(1, w - 1) - 1 : -1.0)) violation("ub", "float to integer conversion out of range"); return sg ? mkC((u64)(i64)d, w) : mkC((u64)d, w); }
      if (a.k == IDBL) { unsigned cw = a.hi; if (w < cw || !sg) { i64 lo = sg ? -(1LL << (w - 1)) : 0, hi = sg ? (1LL << (w - 1)) - 1 : w < 63 ? (i64)((1ULL << w) - 1) : INT64_MAX; A t = idTerm(a, 64); if (!decide(mkAnd(Z3_mk_bvsge(Z, t, mkBVc((u64)lo, 64)), Z3_mk_bvsle(Z, t, mkBVc((u64)hi, 64))))) violation("ub", "float to integer conversion out of range"); } return mkSBV(w < cw ? Z3_mk_extract(Z, w - 1, 0, a.ast()) : w == cw ? a.ast() : Z3_mk_sign_ext(Z, w - cw, a.ast()), w, true); }
      if (a.k == GRID) { Val t = gRound(fw == 32 ? fToD(a) : a, 't'); if (t.k == CONC) return mkC((u64)(i64)asD(t), w); GV* g = (GV*)t.p;
        for (;;) { A n = gInt(g); if (!cur->model) modelU64(mkBVc(0, 1)); A o; Z3_model_eval(Z, cur->model->m, n, true, &o); o = simp(o); i64 v; if (!Z3_get_numeral_int64(Z, o, (int64_t*)&v)) unsup("fptosi"); if (decide(linCmp("=", linAdd(g->num, linConst(Q((double)v)), -1)))) return mkC((u64)v, w); } }
      if (fw != 64) unsup("symbolic float to int");
      return mkSBV(sg ? Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), toFP(a), w) : Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), toFP(a), w), w); }
    case Instruction::FPExt: if (a.k == CONC && fw == 32 && w == 64) return mkD(asF(a)); if (fw == 32 && w == 64 && a.k == GRID) return fToD(a); unsup("fpext");
    case Instruction::FPTrunc: if (a.k == CONC && fw == 64 && w == 32) return mkF((float)asD(a)); if (fw == 64 && w == 32) return fToF(a); unsup("fptrunc");
  }
  unsup("cast");
}

static const Val& opv(Frame& f, const Opnd& o) { return o.idx >= 0 ? f.regs[o.idx] : o.c; }
static const Opnd& opOf(DInst& d, unsigned i) { return d.ops[i]; }

static bool isNoopFn(const std::string& n) { return n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev"; }

static bool intrinsic(const CallBase* cb, const Function* F, std::vector<Val>& a, Val& r, bool& done) {
  done = true;
  switch (F->getIntrinsicID()) {
    case Intrinsic::not_intrinsic: done = false; return false;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::var_annotation: return true;
    case Intrinsic::invariant_start: r = mkC(0, 64); return true;
    case Intrinsic::expect: r = a[0]; return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: r = a[0]; return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(a[2], "size"), d = concretize(a[0], "addr"), s = concretize(a[1], "addr"); copyMem(d, s, n); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(a[2], "size"), d = concretize(a[0], "addr"); if (a[1].k == UNDEF) return true; setMem(d, a[1], n); return true; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation("ub", "trap");
    case Intrinsic::eh_typeid_for: r = mkC((u32)(a[0].lo >> SLOT), 32); return true;
    case Intrinsic::stacksave: r = mkC(0, 64); return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::objectsize: r = mkC(~0ULL, bitsOf(cb->getType())); return true;
    case Intrinsic::is_constant: r = mkC(0, 1); return true;
    case Intrinsic::fabs: return H["fabs"](cb, a, r); case Intrinsic::floor: return H["floor"](cb, a, r); case Intrinsic::ceil: return H["ceil"](cb, a, r); case Intrinsic::round: return H["round"](cb, a, r); case Intrinsic::trunc: return H["trunc"](cb, a, r);
    case Intrinsic::sqrt: return H["sqrt"](cb, a, r); case Intrinsic::pow: return H["pow"](cb, a, r); case Intrinsic::maxnum: return H["fmax"](cb, a, r); case Intrinsic::minnum: return H["fmin"](cb, a, r);
    case Intrinsic::log: return H["log"](cb, a, r); case Intrinsic::exp: return H["exp"](cb, a, r); case Intrinsic::sin: return H["sin"](cb, a, r); case Intrinsic::cos: return H["cos"](cb, a, r);
    case Intrinsic::copysign: if (a[0].k == CONC && a[1].k == CONC) { r = mkD(copysign(asD(a[0]), asD(a[1]))); return true; } unsup("copysign");
    case Intrinsic::fmuladd: { Val m = binop(Instruction::FMul, a[0], a[1], bitsOf(cb->getType()), cb); r = binop(Instruction::FAdd, m, a[2], bitsOf(cb->getType()), cb); return true; }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      auto id = F->getIntrinsicID(); unsigned w = bitsOf(cb->getType());
      Val c = icmp(id == Intrinsic::umax ? CmpInst::ICMP_UGE : id == Intrinsic::umin ? CmpInst::ICMP_ULE : id == Intrinsic::smax ? CmpInst::ICMP_SGE : CmpInst::ICMP_SLE, a[0], a[1], w);
      if (c.k == UNDEF) { r = mkUndef(w); return true; } if (c.k == CONC) { r = c.lo ? a[0] : a[1]; return true; } r = iteVal(toBool(c), a[0], a[1], cb->getType()); return true; }
    case Intrinsic::abs: { unsigned w = bitsOf(cb->getType()); if (a[0].k == CONC) { i64 v = sext64(a[0].lo, w); r = mkC((u64)(v < 0 ? -v : v), w); return true; } Val n = binop(Instruction::Sub, mkC(0, w), a[0], w, cb); Val c = icmp(CmpInst::ICMP_SLT, a[0], mkC(0, w), w); r = iteVal(toBool(c), n, a[0], cb->getType()); return true; }
    case Intrinsic::ctlz: { unsigned w = bitsOf(cb->getType()); u64 v = concretize(a[0], "ctlz"); r = mkC(v ? (w - (64 - __builtin_clzll(v))) : w, w); return true; }
    case Intrinsic::cttz: { unsigned w = bitsOf(cb->getType()); u64 v = concretize(a[0], "cttz"); r = mkC(v ? __builtin_ctzll(v) : w, w); return true; }
    case Intrinsic::ctpop: { unsigned w = bitsOf(cb->getType()); u64 v = concretize(a[0], "ctpop"); r = mkC(__builtin_popcountll(v), w); return true; }
    case Intrinsic::bswap: { unsigned w = bitsOf(cb->getType()); u64 v = concretize(a[0], "bswap"); r = mkC(__builtin_bswap64(v) >> (64 - w), w); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned w = bitsOf(cb->getType()); bool L = F->getIntrinsicID() == Intrinsic::fshl; Val s = binop(Instruction::URem, a[2], mkC(w, w), w, cb); u64 k = concretize(s, "fshl"); 
      if (!k) { r = L ? a[0] : a[1]; return true; } u64 ls = L ? k : w - k; r = binop(Instruction::Or, binop(Instruction::Shl, a[0], mkC(ls, w), w, cb), binop(Instruction::LShr, a[1], mkC(w - ls, w), w, cb), w, cb); return true; }
    case Intrinsic::usub_sat: { unsigned w = bitsOf(cb->getType()); Val c = icmp(CmpInst::ICMP_UGE, a[0], a[1], w); Val s = binop(Instruction::Sub, a[0], a[1], w, cb); if (c.k == CONC) r = c.lo ? s : mkC(0, w); else r = iteVal(toBool(c), s, mkC(0, w), cb->getType()); return true; }
    case Intrinsic::uadd_sat: { unsigned w = bitsOf(cb->getType()); Val s = binop(Instruction::Add, a[0], a[1], w, cb); Val c = icmp(CmpInst::ICMP_UGE, s, a[0], w); if (c.k == CONC) r = c.lo ? s : mkC(~0ULL, w); else r = iteVal(toBool(c), s, mkC(~0ULL, w), cb->getType()); return true; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w = bitsOf(cast<StructType>(cb->getType())->getElementType(0)); auto id = F->getIntrinsicID(); Val res; A ovf = nullptr; bool co = false;
      unsigned opc = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow ? Instruction::Mul : id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? Instruction::Add : Instruction::Sub;
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      res = binop(opc, a[0], a[1], w, cb);
      if (a[0].k == CONC && a[1].k == CONC) { __int128 x = sg ? (__int128)sext64(a[0].lo, w) : (__int128)a[0].lo, y = sg ? (__int128)sext64(a[1].lo, w) : (__int128)a[1].lo, z = 0; if (opc == Instruction::Mul) { co = __builtin_mul_overflow(x, y, &z); } else z = opc == Instruction::Add ? x + y : x - y; __int128 t = sg ? (__int128)sext64(res.lo, w) : (__int128)res.lo; co = co || z != t; }
      else { A x = toBV(a[0]), y = toBV(a[1]); A ok = sg ? (opc == Instruction::Add ? mkAnd(Z3_mk_bvadd_no_overflow(Z, x, y, true), Z3_mk_bvadd_no_underflow(Z, x, y)) : opc == Instruction::Sub ? mkAnd(Z3_mk_bvsub_no_overflow(Z, x, y), Z3_mk_bvsub_no_underflow(Z, x, y, true)) : mkAnd(Z3_mk_bvmul_no_overflow(Z, x, y, true), Z3_mk_bvmul_no_underflow(Z, x, y)))
            : (opc == Instruction::Add ? Z3_mk_bvadd_no_overflow(Z, x, y, false) : opc == Instruction::Sub ? Z3_mk_bvsub_no_underflow(Z, x, y, false) : Z3_mk_bvmul_no_overflow(Z, x, y, false)); ovf = simp(mkNot(ok)); }
      auto* v = new Agg(); v->push_back(res); v->push_back(ovf ? mkBoolV(ovf) : mkC(co, 1)); r = aggV(v); return true; }
    case Intrinsic::is_fpclass: { a[0] = idConc(a[0]); double d; if (a[0].k == GRID) d = 1.0; else if (a[0].k == CONC) d = asD(a[0]); else unsup("is_fpclass of symbolic"); unsigned m = a[1].lo; bool x = false; if (std::isnan(d)) x = m & 3; else if (std::isinf(d)) x = d > 0 ? m & 512 : m & 4; else x = d > 0 ? m & (256 | 128 | 64) : (m & (8 | 16 | 32)); if (a[0].k == GRID && (m & ~(3u | 512 | 4))) unsup("is_fpclass"); r = mkC(x, 1); return true; }
    case Intrinsic::threadlocal_address: r = a[0]; return true;
    case Intrinsic::vector_reduce_add: default: break;
  }
  unsup("intrinsic " + F->getName().str());
}

static void doReturn(const Val* v) {
  popFrame();
  if (cur->fr.empty()) throw PathEnd{4};
  Frame& f = cur->top(); DInst& d = f.fi->code[f.pc];
  if (d.dst >= 0 && v) f.regs[d.dst] = *v;
  if (auto* inv = dyn_cast<InvokeInst>(d.I)) enterBlock(f, inv->getNormalDest()); else f.pc++;
}

static void step() {
  Frame& f = cur->top(); DInst& d = f.fi->code[f.pc]; const Instruction* I = d.I;
  cur->instr++; st.instr++;
  switch (d.opc) {
    case Instruction::Ret: { if (d.ops.empty()) doReturn(nullptr); else { Val v = opv(f, d.ops[0]); doReturn(&v); } return; }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I); if (b->isUnconditional()) { enterBlock(f, b->getSuccessor(0)); return; }
      const Val& c = opv(f, d.ops[0]); bool t;
      if (c.k == CONC) t = c.lo & 1; else if (c.k == UNDEF) violation("uninit", "branch on uninitialised value"); else t = decide(toBool(c));
      enterBlock(cur->top(), b->getSuccessor(t ? 0 : 1)); return; }
    case Instruction::Switch: {
      auto* s = cast<SwitchInst>(I); const Val& c = opv(f, d.ops[0]);
      if (c.k == UNDEF) violation("uninit", "switch on uninitialised value");
      if (c.k == CONC) { for (auto& cs : s->cases()) if (cs.getCaseValue()->getZExtValue() == c.lo) { enterBlock(f, cs.getCaseSuccessor()); return; } enterBlock(f, s->getDefaultDest()); return; }
      A x = toBV(c);
      if (cur->model) { // try the model's case first
        u64 mv = modelU64(x); const BasicBlock* dst = nullptr; A cond = nullptr;
        for (auto& cs : s->cases()) if (cs.getCaseValue()->getZExtValue() == mv) { dst = cs.getCaseSuccessor(); }
        if (dst) { for (auto& cs : s->cases()) if (cs.getCaseSuccessor() == dst) { A e = Z3_mk_eq(Z, x, mkBVc(cs.getCaseValue()->getZExtValue(), c.w)); cond = cond ? mkOr(cond, e) : e; } if (decide(cond)) { enterBlock(cur->top(), dst); return; } }
      }
      std::map<const BasicBlock*, A> conds; std::vector<const BasicBlock*> order;
      for (auto& cs : s->cases()) { A e = Z3_mk_eq(Z, x, mkBVc(cs.getCaseValue()->getZExtValue(), c.w)); auto& q = conds[cs.getCaseSuccessor()]; if (!q) order.push_back(cs.getCaseSuccessor()); q = q ? mkOr(q, e) : e; }
      for (auto* bb : order) { if (bb == s->getDefaultDest()) continue; if (decide(conds[bb])) { enterBlock(cur->top(), bb); return; } }
      enterBlock(cur->top(), s->getDefaultDest()); return; }
    case Instruction::Unreachable: violation("ub", "unreachable code reached");
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(I); const Function* F = cb->getCalledFunction(); unsigned n = cb->arg_size();
      std::vector<Val> a(n); for (unsigned i = 0; i < n; i++) a[i] = opv(f, d.ops[i]);
      if (cb->isInlineAsm()) { f.pc++; return; }
      if (!F) {
        Value* cv = cb->getCalledOperand()->stripPointerCasts(); F = dyn_cast<Function>(cv);
        if (!F) { if (auto* al = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(al->getAliaseeObject()); }
        if (!F) { Val t = opv(f, d.ops[d.ops.size() - 1]); u64 ad = concretize(t, "call target"); auto it = faddr.find(ad); if (it == faddr.end()) violation("memory", "call through an invalid function pointer"); F = it->second; }
      }
      Val r; bool done = false;
      if (F->isIntrinsic()) { intrinsic(cb, F, a, r, done); Frame& g = cur->top(); if (d.dst >= 0) g.regs[d.dst] = r; if (auto* inv = dyn_cast<InvokeInst>(I)) enterBlock(g, inv->getNormalDest()); else g.pc++; return; }
      auto h = H.find(F->getName().str());
      if (h != H.end()) { if (h->second(cb, a, r)) { Frame& g = cur->top(); if (d.dst >= 0) g.regs[d.dst] = r; if (auto* inv = dyn_cast<InvokeInst>(I)) enterBlock(g, inv->getNormalDest()); else g.pc++; } return; }
      if (F->isDeclaration()) { if (isNoopFn(F->getName().str())) { f.pc++; return; } unsup("external function " + F->getName().str()); }
      pushFrame(F, a); return; }
    case Instruction::Resume: { const Val& v = opv(f, d.ops[0]); Agg& ag = *(Agg*)v.p; cur->excPtr = ag[0].lo; popFrame(); if (cur->fr.empty()) throw PathEnd{3}; unwind(); return; }
    case Instruction::LandingPad: {
      auto* lp = cast<LandingPadInst>(I); u32 sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) { sel = 1; break; } u64 ti = evalConst(c).lo; if (tiDerives(cur->excTI, ti)) { sel = (u32)(ti >> SLOT); break; } }
      auto* v = new Agg(); v->push_back(mkC(cur->excPtr, 64)); v->push_back(mkC(sel, 32)); f.regs[d.dst] = aggV(v); f.pc++; return; }
    case Instruction::Alloca: {
      auto* al = cast<AllocaInst>(I); u64 n = DL->getTypeAllocSize(al->getAllocatedType()); Val c = opv(f, d.ops[0]); n *= concretize(c, "alloca size"); Frame& g = cur->top();
      u64 a = cur->mem.alloc(n, O_STACK, true); g.allocas.push_back(a >> SLOT); g.regs[d.dst] = mkC(a, 64); g.pc++; return; }
    case Instruction::Load: { Val p = opv(f, d.ops[0]); Val v = memLoad(p, d.ty); Frame& g = cur->top(); g.regs[d.dst] = v; g.pc++; return; }
    case Instruction::Store: { Val v = opv(f, d.ops[0]), p = opv(f, d.ops[1]); memStore(p, v, I->getOperand(0)->getType()); cur->top().pc++; return; }
    case Instruction::GetElementPtr: {
      auto* gep = cast<GetElementPtrInst>(I); if (d.ty->isVectorTy()) unsup("vector gep");
      Val base = opv(f, d.ops[0]); u64 off = 0; A soff = nullptr; unsigned k = 1; bool und = base.k == UNDEF;
      for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi, ++k) {
        const Val& iv = opv(f, d.ops[k]);
        if (StructType* sty = gi.getStructTypeOrNull()) { off += DL->getStructLayout(sty)->getElementOffset(iv.lo); continue; }
        u64 es = DL->getTypeAllocSize(gi.getIndexedType());
        if (iv.k == CONC) off += (u64)sext64(iv.lo, iv.w) * es;
        else if (iv.k == UNDEF) und = true;
        else { A x = toBV(iv); if (iv.w < 64) x = Z3_mk_sign_ext(Z, 64 - iv.w, x); if (es != 1) x = Z3_mk_bvmul(Z, x, mkBVc(es, 64)); soff = soff ? Z3_mk_bvadd(Z, soff, x) : x; }
      }
      Val r;
      if (und) r = mkUndef(64);
      else if (base.k == CONC && !soff) { r = mkC(base.lo + off, 64); r.um = base.um; }
      else { A x = toBV(base); if (soff) x = Z3_mk_bvadd(Z, x, soff); if (off) x = Z3_mk_bvadd(Z, x, mkBVc(off, 64)); r = mkSBV(x, 64, true); }
      f.regs[d.dst] = r; f.pc++; return; }
    case Instruction::ICmp: {
      Val a = opv(f, d.ops[0]), b = opv(f, d.ops[1]); Type* ot = I->getOperand(0)->getType();
      if (ot->isVectorTy()) { auto* v = new Agg(); for (size_t i = 0; i < ((Agg*)a.p)->size(); i++) v->push_back(icmp(cast<CmpInst>(I)->getPredicate(), (*(Agg*)a.p)[i], (*(Agg*)b.p)[i], bitsOf(cast<VectorType>(ot)->getElementType()))); f.regs[d.dst] = aggV(v); f.pc++; return; }
      Val r = icmp(cast<CmpInst>(I)->getPredicate(), a, b, bitsOf(ot)); Frame& g = cur->top(); g.regs[d.dst] = r; g.pc++; return; }
    case Instruction::FCmp: {
      Val a = opv(f, d.ops[0]), b = opv(f, d.ops[1]); Type* ot = I->getOperand(0)->getType();
      if (ot->isVectorTy()) { auto* v = new Agg(); for (size_t i = 0; i < ((Agg*)a.p)->size(); i++) v->push_back(fcmp(cast<CmpInst>(I)->getPredicate(), (*(Agg*)a.p)[i], (*(Agg*)b.p)[i], bitsOf(cast<VectorType>(ot)->getElementType()))); Frame& g = cur->top(); g.regs[d.dst] = aggV(v); g.pc++; return; }
      Val r = fcmp(cast<CmpInst>(I)->getPredicate(), a, b, bitsOf(ot)); Frame& g = cur->top(); g.regs[d.dst] = r; g.pc++; return; }
    case Instruction::Select: {
      Val c = opv(f, d.ops[0]), a = opv(f, d.ops[1]), b = opv(f, d.ops[2]); Val r;
      if (c.k == AGGR) { auto* v = new Agg(); for (size_t i = 0; i < ((Agg*)c.p)->size(); i++) { Val ci = (*(Agg*)c.p)[i]; if (ci.k == CONC) v->push_back(ci.lo ? (*(Agg*)a.p)[i] : (*(Agg*)b.p)[i]); else v->push_back(iteVal(toBool(ci), (*(Agg*)a.p)[i], (*(Agg*)b.p)[i], cast<VectorType>(d.ty)->getElementType())); } r = aggV(v); }
      else if (c.k == CONC) r = c.lo ? a : b; else if (c.k == UNDEF) { if (a.k == CONC && b.k == CONC && a.lo == b.lo) r = a; else r = undefOf(d.ty); } else {
        // boolean short-circuit forms stay expressions even with an undefined unused side
        if (d.ty->isIntegerTy(1) && ((a.k == UNDEF) != (b.k == UNDEF))) r = decide(toBool(c)) ? a : b; else r = iteVal(toBool(c), a, b, d.ty); }
      Frame& g = cur->top(); g.regs[d.dst] = r; g.pc++; return; }
    case Instruction::PHI: f.pc++; return;
    case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(I); Val v = opv(f, d.ops[0]); for (unsigned i : ev->indices()) { if (v.k == UNDEF) break; Val t = (*(Agg*)v.p)[i]; v = t; } f.regs[d.dst] = v; f.pc++; return; }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I); Val v = opv(f, d.ops[0]), x = opv(f, d.ops[1]);
      std::function<Val(const Val&, unsigned)> ins = [&](const Val& ag, unsigned lv) -> Val { auto* n = new Agg(*(Agg*)ag.p); unsigned i = iv->getIndices()[lv]; (*n)[i] = lv + 1 == iv->getNumIndices() ? x : ins((*n)[i], lv + 1); return aggV(n); };
      f.regs[d.dst] = ins(v, 0); f.pc++; return; }
    case Instruction::ExtractElement: { Val v = opv(f, d.ops[0]), i = opv(f, d.ops[1]); if (v.k != AGGR) { f.regs[d.dst] = undefOf(d.ty); f.pc++; return; } u64 k = concretize(i, "index"); Val t = (*(Agg*)v.p)[k]; Frame& g = cur->top(); g.regs[d.dst] = t; g.pc++; return; }
    case Instruction::InsertElement: { Val v = opv(f, d.ops[0]), x = opv(f, d.ops[1]), i = opv(f, d.ops[2]); u64 k = concretize(i, "index"); auto* n = new Agg(*(Agg*)v.p); (*n)[k] = x; Frame& g = cur->top(); g.regs[d.dst] = aggV(n); g.pc++; return; }
    case Instruction::ShuffleVector: { auto* s = cast<ShuffleVectorInst>(I); Val a = opv(f, d.ops[0]), b = opv(f, d.ops[1]); auto* n = new Agg(); size_t na = ((Agg*)a.p)->size(); for (int m : s->getShuffleMask()) n->push_back(m < 0 ? undefOf(cast<VectorType>(d.ty)->getElementType()) : (size_t)m < na ? (*(Agg*)a.p)[m] : (*(Agg*)b.p)[m - na]); f.regs[d.dst] = aggV(n); f.pc++; return; }
    case Instruction::Freeze: { Val v = opv(f, d.ops[0]); f.regs[d.dst] = v; f.pc++; return; }
    case Instruction::FNeg: { Val a = opv(f, d.ops[0]); Val r; if (a.k == CONC) r = bitsOf(d.ty) == 64 ? mkD(-asD(a)) : mkF(-asF(a)); else if (a.k == IDBL) { Val b = idConc(a); r = mkD(-asD(b)); } else if (a.k == GRID) { r = gNeg(a); r.w = a.w; } else if (a.k == UNDEF) r = a; else { r.k = SFPV; r.w = 64; r.p = Z3_mk_fpa_neg(Z, toFP(a)); } f.regs[d.dst] = r; f.pc++; return; }
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(I); Val p = opv(f, d.ops[0]), v = opv(f, d.ops[1]); Val old = memLoad(p, d.ty); Val nv; unsigned w = bitsOf(d.ty);
      switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v, w, I); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v, w, I); break; case AtomicRMWInst::Xchg: nv = v; break; default: unsup("atomicrmw"); }
      memStore(p, nv, d.ty); Frame& g = cur->top(); g.regs[d.dst] = old; g.pc++; return; }
    default: break;
  }
  if (I->isBinaryOp()) {
    Val a = opv(f, d.ops[0]), b = opv(f, d.ops[1]);
    if (d.ty->isVectorTy()) { auto* v = new Agg(); unsigned w = bitsOf(cast<VectorType>(d.ty)->getElementType()); for (size_t i = 0; i < ((Agg*)a.p)->size(); i++) v->push_back(binop(d.opc, (*(Agg*)a.p)[i], (*(Agg*)b.p)[i], w, I)); Frame& g = cur->top(); g.regs[d.dst] = aggV(v); g.pc++; return; }
    Val r = binop(d.opc, a, b, bitsOf(d.ty), I); Frame& g = cur->top(); g.regs[d.dst] = r; g.pc++; return;
  }
  if (I->isCast()) {
    Val a = opv(f, d.ops[0]); Type* ft = I->getOperand(0)->getType();
    if (d.ty->isVectorTy() && ft->isVectorTy() && d.opc != Instruction::BitCast) { auto* v = new Agg(); for (auto& e : *(Agg*)a.p) v->push_back(castV(d.opc, e, cast<VectorType>(ft)->getElementType(), cast<VectorType>(d.ty)->getElementType())); Frame& g = cur->top(); g.regs[d.dst] = aggV(v); g.pc++; return; }
    Val r = castV(d.opc, a, ft, d.ty); Frame& g = cur->top(); g.regs[d.dst] = r; g.pc++; return;
  }
  unsup(std::string("instruction ") + I->getOpcodeName());
}

// ---------------------------------------------------------------------------------------- driver
static void exportSample(State& S) {
  if (sh->samples.load() >= opt.samples) return;
  // spread samples: always take the first few of each process, then sparsely
  if (st.pathsDone > 3 && (st.pathsDone & (st.pathsDone - 1)) != 0) return;
  if (S.approx) return;
  sh->samples++;
  ModelH* own = nullptr; if (!S.model) { check(S, nullptr, &own); S.setModel(own); }
  if (!S.model) return;
  std::string in = inputsStr(S, S.model->m), ob; char b[64];
  for (auto& v : S.obs) {
    try {
      if (v.k == CONC) sprintf(b, "%llx ", (unsigned long long)v.lo);
      else if (v.k == GRID) { double d; if (!gEval(S.model->m, (GV*)v.p, &d)) strcpy(b, "? "); else sprintf(b, "%llx ", (unsigned long long)dbits(d)); }
      else if (v.k == UNDEF) strcpy(b, "? ");
      else if (v.k == IDBL) { A o; Z3_model_eval(Z, S.model->m, v.ast(), true, &o); o = simp(o); u64 x = 0; if (numeralU64(o, &x)) sprintf(b, "%llx ", (unsigned long long)dbits((double)sext64(x, v.hi))); else strcpy(b, "? "); }
      else { A o; Z3_model_eval(Z, S.model->m, toBV(v), true, &o); o = simp(o); u64 x = 0; if (numeralU64(o, &x)) sprintf(b, "%llx ", (unsigned long long)x); else strcpy(b, "? "); }
    } catch (Unsupported&) { strcpy(b, "? "); }
    ob += b;
  }
  std::string lb; for (auto& l : S.labels) { if (!lb.empty()) lb += ","; lb += l; }
  fprintf(outF, "{\"t\":\"sample\",\"inputs\":\"%s\",\"obs\":\"%s\",\"labels\":\"%s\"}\n", jesc(in).c_str(), ob.c_str(), jesc(lb).c_str()); fflush(outF);
}
static void finishProcess(bool root);
static void runState(State* S) {
  cur = S;
  try {
    while (true) {
      step();
      if ((S->instr & 0x3ff) == 0) {
        if (S->instr > opt.maxInstr) { reportViolation(*S, "nontermination", "instruction limit exceeded", nullptr); st.limits++; throw PathEnd{2}; }
        if (sh->stop || nowS() - t0 > opt.deadline) { if (!sh->stop) st.cutDeadline++; throw PathEnd{5}; }
      }
    }
  } catch (PathEnd& e) {
    if (e.why == 0) st.assumeEnd++;
    if (e.why == 3) { reportViolation(*S, "exception", "uncaught " + excName(), nullptr); }
    if (e.why == 4) { st.pathsDone++; for (auto& l : S->labels) reachLabels[l]++; exportSample(*S); }
  } catch (Unsupported& u) { st.unsupported++; std::string where = S->fr.empty() ? "" : " @ " + stackStr(*S); unsupportedWhy[u.why + where.substr(0, 300)]++; }
  st.paths++; sh->paths++;
  delete S; cur = nullptr;
}
static std::vector<pid_t> kids;
static void writeStats() {
  fprintf(outF, "{\"t\":\"stats\",\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"instr\":%llu,\"forks\":%llu,\"paths\":%llu,\"completed\":%llu,\"assume_end\":%llu,\"unsupported\":%llu,\"limits\":%llu,\"asserts\":%llu,\"asserts_proved\":%llu,\"ambiguous\":%llu,\"cut\":%llu",
      (unsigned long long)st.queries, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, st.solverTime, st.maxQuery, (unsigned long long)st.instr, (unsigned long long)st.forks, (unsigned long long)st.paths, (unsigned long long)st.pathsDone, (unsigned long long)st.assumeEnd, (unsigned long long)st.unsupported, (unsigned long long)st.limits, (unsigned long long)st.asserts, (unsigned long long)st.assertsProved, (unsigned long long)st.ambiguous, (unsigned long long)(st.cutDeadline + work.size()));
  fprintf(outF, ",\"fns\":["); bool first = true; for (auto& s : coveredFns) { fprintf(outF, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  fprintf(outF, "],\"labels\":{"); first = true; for (auto& l : reachLabels) { fprintf(outF, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
  fprintf(outF, "},\"sites\":{"); first = true; for (auto& l : assertSites) { fprintf(outF, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
  fprintf(outF, "},\"why\":{"); first = true; for (auto& l : unsupportedWhy) { fprintf(outF, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
  fprintf(outF, "}}\n"); fclose(outF);
}
static void explore() {
  bool root = true;
  while (!work.empty()) {
    if (sh->stop || nowS() - t0 > opt.deadline) break;
    if (work.size() > 1 && sh->tokens.load() > 0) {
      int t = sh->tokens.fetch_sub(1);
      if (t <= 0) sh->tokens.fetch_add(1);
      else {
        fflush(outF); fflush(stderr);
        pid_t p = fork();
        if (p == 0) { // child takes the oldest half of the worklist (largest subtrees)
          root = false; kids.clear();
          size_t take = work.size() / 2; if (take < 1) take = 1;
          // (states not taken are leaked in the child on purpose)
          work.resize(take);
          st = Stats(); reachLabels.clear(); assertSites.clear(); unsupportedWhy.clear(); coveredFns.clear(); for (auto& fi : finfo) fi.second->covered = false;
          char nm[4096]; snprintf(nm, sizeof nm, "%s.%d", opt.out.c_str(), (int)getpid()); outF = fopen(nm, "w");
        } else if (p > 0) {
          kids.push_back(p); size_t take = work.size() / 2; if (take < 1) take = 1;
          for (size_t i = 0; i < take; i++) delete work[i]; work.erase(work.begin(), work.begin() + take);
        } else sh->tokens.fetch_add(1);
      }
      if (work.empty()) break;
    }
    State* S = work.back(); work.pop_back(); runState(S);
  }
  writeStats();
  if (!root) { sh->tokens.fetch_add(1); for (pid_t p : kids) { int s; waitpid(p, &s, 0); } _exit(0); }
  sh->tokens.fetch_add(1);
  for (pid_t p : kids) { int s; waitpid(p, &s, 0); }
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--time") opt.deadline = atof(nx().c_str()); else if (a == "--jobs") opt.jobs = atoi(nx().c_str());
    else if (a == "--max-instr") opt.maxInstr = strtoull(nx().c_str(), 0, 10); else if (a == "--logic") opt.logic = nx(); else if (a == "--rlimit") opt.rlimit = strtoull(nx().c_str(), 0, 10); else if (a == "--max-viol") opt.maxViol = atoi(nx().c_str());
    else if (a == "--samples") opt.samples = atoi(nx().c_str()); else if (a == "--seed") opt.seed = atoi(nx().c_str()); else if (a == "-v") opt.verbose = true; else if (a == "--arg") opt.args.push_back(nx()); else opt.bc = a;
  }
  t0 = nowS();
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)sh, 0, sizeof *sh); sh->tokens = opt.jobs - 1;
  outF = fopen(opt.out.c_str(), "w"); if (!outF) { perror("out"); return 2; }
  SMDiagnostic err; M = parseIRFile(opt.bc, err, Ctx); if (!M) { err.print("symx", errs()); return 2; }
  DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, z3err);
  SInt = Z3_mk_int_sort(Z); SReal = Z3_mk_real_sort(Z); SBool = Z3_mk_bool_sort(Z); SFP = Z3_mk_fpa_sort_double(Z); ATrue = Z3_mk_true(Z); AFalse = Z3_mk_false(Z); RM = Z3_mk_fpa_rne(Z);
  if (opt.logic.empty() || opt.logic == "FP") SOL = opt.logic.empty() ? Z3_mk_simple_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BVFP")); else SOL = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, opt.logic.c_str()));
  Z3_solver_inc_ref(Z, SOL);
  { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)std::min<u64>(opt.rlimit, 4000000000ULL)); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "random_seed"), opt.seed); Z3_solver_set_params(Z, SOL, p); }
  setupHandlers();
  // globals
  State* S = new State(); cur = S; S->mem.next = 16;
  for (auto& F : *M) { u64 a = S->mem.alloc(1, O_GLOBAL | O_RO, false); gaddr[&F] = a; faddr[a] = &F; }
  for (auto& g : M->globals()) { u64 n = DL->getTypeAllocSize(g.getValueType()); u64 a = S->mem.alloc(n ? (g.isDeclaration() ? n + 256 : n) : 256, O_GLOBAL, false); gaddr[&g] = a; gByAddr[a] = &g; }
  try {
    for (auto& g : M->globals()) if (g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used") { if (isa<ConstantAggregateZero>(g.getInitializer())) continue; memStore(mkC(gaddr[&g], 64), evalConst(g.getInitializer()), g.getValueType()); }
  } catch (Unsupported& u) { fprintf(stderr, "global initialiser: %s\n", u.why.c_str()); return 2; }
  for (auto& g : M->globals()) if (g.isConstant()) S->mem.wget(gaddr[&g] >> SLOT)->fl |= O_RO;
  { ModelH* m = nullptr; check(*S, nullptr, &m); S->setModel(m); }
  Function* E = M->getFunction(opt.entry); if (!E) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 2; }
  // constructors run first, on the initial (concrete) state
  std::vector<std::pair<u64, const Function*>> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& c : ctors) {
    pushFrame(c.second, {});
    try { while (true) step(); } catch (PathEnd& e) { if (e.why != 4) { fprintf(stderr, "constructor %s failed (%d)\n", c.second->getName().str().c_str(), e.why); return 2; } }
    catch (Unsupported& u) { fprintf(stderr, "constructor %s: unsupported: %s @ %s\n", c.second->getName().str().c_str(), u.why.c_str(), stackStr(*S).c_str()); return 2; }
  }
  coveredFns.clear(); for (auto& fi : finfo) fi.second->covered = false; st.instr = 0;
  S->instr = 0; pushFrame(E, {}); work.push_back(S);
  explore();
  return 0;
}
