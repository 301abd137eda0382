// symex: a small forking symbolic executor over LLVM-18 IR, deciding with z3.
//
//   symex [options] module.bc entry
//
// Integers are bit-vectors, floats are exact IEEE (fp mode) or real numbers (real mode); memory is
// byte-exact per allocation (bounds, lifetime, double free, leaks); every branch on a symbolic
// value forks when the solver finds both sides feasible.  All vf_* inputs are fresh symbolic
// values; vf_assert is the obligation.  Output: JSON on stdout.
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <z3.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;
typedef std::string Str;
static Z3_context Z;
static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- z3 handles
struct E {
  Z3_ast a = nullptr;
  E() {}
  E(Z3_ast x) : a(x) { if (a) Z3_inc_ref(Z, a); }
  E(const E &o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
  E(E &&o) noexcept : a(o.a) { o.a = nullptr; }
  E &operator=(const E &o) { if (o.a) Z3_inc_ref(Z, o.a); if (a) Z3_dec_ref(Z, a); a = o.a; return *this; }
  E &operator=(E &&o) noexcept { std::swap(a, o.a); return *this; }
  ~E() { if (a) Z3_dec_ref(Z, a); }
  explicit operator bool() const { return a != nullptr; }
};
static E bvc(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, w)); }
static E Not(const E &x) { return Z3_mk_not(Z, x.a); }
static E And(const E &x, const E &y) { Z3_ast v[2] = {x.a, y.a}; return Z3_mk_and(Z, 2, v); }
static E Or(const E &x, const E &y) { Z3_ast v[2] = {x.a, y.a}; return Z3_mk_or(Z, 2, v); }
static E Ite(const E &c, const E &x, const E &y) { return Z3_mk_ite(Z, c.a, x.a, y.a); }
static unsigned depthf(Z3_ast a); static void diffprint(Z3_ast a, Z3_ast b, int lvl);
static E Eq(const E &x, const E &y) { if (x.a == y.a) return Z3_mk_true(Z); static bool dd = getenv("SX_DIFF"); if (dd && depthf(x.a) > 50) diffprint(x.a, y.a, 0); return Z3_mk_eq(Z, x.a, y.a); }
static unsigned simpdepth = 60;
static std::unordered_map<unsigned, unsigned> depthmemo; // heuristic only: ids may be recycled
static bool canon = false;
static unsigned depth(Z3_ast a) {
  if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return 1;
  unsigned id = Z3_get_ast_id(Z, a); auto it = depthmemo.find(id); if (it != depthmemo.end()) return it->second;
  Z3_app ap = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, ap), d = 0; for (unsigned i = 0; i < n; ++i) d = std::max(d, depth(Z3_get_app_arg(Z, ap, i)));
  static long pins = 0; if (canon || ++pins < 4000000) Z3_inc_ref(Z, a); // pinned: ids stay valid
  return depthmemo[id] = d + 1;
}
static unsigned depthf(Z3_ast a) { return depth(a); }
static E Simp(const E &x) { if (depth(x.a) > simpdepth) return x; return Z3_simplify(Z, x.a); }
static void diffprint(Z3_ast a, Z3_ast b, int lvl) { // debugging aid (SX_DIFF)
  if (a == b) return; auto app = [](Z3_ast x) { return Z3_get_ast_kind(Z, x) == Z3_APP_AST; };
  if (app(a) && app(b)) { Z3_app p = Z3_to_app(Z, a), q = Z3_to_app(Z, b); if (Z3_get_app_decl(Z, p) == Z3_get_app_decl(Z, q) && Z3_get_app_num_args(Z, p) == Z3_get_app_num_args(Z, q)) { int best = -1; for (unsigned i = 0; i < Z3_get_app_num_args(Z, p); ++i) { Z3_ast x = Z3_get_app_arg(Z, p, i), y = Z3_get_app_arg(Z, q, i); if (x != y && (best < 0 || depth(x) < depth(Z3_get_app_arg(Z, p, best)))) best = i; } if (best >= 0) { diffprint(Z3_get_app_arg(Z, p, best), Z3_get_app_arg(Z, q, best), lvl + 1); return; } } }
  std::function<Str(Z3_ast, int)> pr = [&](Z3_ast x, int d) -> Str { if (Z3_get_ast_kind(Z, x) != Z3_APP_AST) return Z3_ast_to_string(Z, x); Z3_app p = Z3_to_app(Z, x); unsigned n = Z3_get_app_num_args(Z, p); Str r = Z3_get_symbol_string(Z, Z3_get_decl_name(Z, Z3_get_app_decl(Z, p))); if (!n) return r; if (d == 0) return "#" + std::to_string(Z3_get_ast_id(Z, x)); r = "(" + r + "#" + std::to_string(Z3_get_ast_id(Z, x)); for (unsigned i = 0; i < n; ++i) r += " " + pr(Z3_get_app_arg(Z, p, i), d - 1); return r + ")"; };
  fprintf(stderr, "DIFF level %d depths %u %u\n%s\n---\n%s\n", lvl, depth(a), depth(b), pr(a, 5).c_str(), pr(b, 5).c_str()); exit(9);
}
static int boolv(const E &x) { Z3_lbool b = Z3_get_bool_value(Z, x.a); return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1; }

// ---------------------------------------------------------------- options / stats
static bool realmode = true, leakcheck = false, uninit_check = false;
static double tlimit = 600; static long maxpaths = 2000000; static long maxsteps = 20000000; static int nworkers = 1;
static unsigned qtimeout = 60000; static int itemax = 300; static int maxviol = 6;
static double t_start; static volatile double *t_viol; /* shared between workers: time of the first violation */
#include <sys/mman.h>
#include <thread>
#include <atomic>
#include <unordered_set>
struct Stats { long paths = 0, killed = 0, forks = 0, queries = 0, insts = 0, asserts = 0, assert_queries = 0, unknown = 0; double solver = 0; } ST;
static std::set<Str> fn_seen, covers, limits; static std::set<Str> nobody;
struct Viol { Str msg, where, inputs; };
static std::vector<Viol> viols; static std::set<Str> violkeys;
static std::map<Str, long> assert_hits;

// ---------------------------------------------------------------- values
enum Kind : uint8_t { UND, CI, SI, CF, SF, AGG };
struct Val;
typedef std::shared_ptr<std::vector<Val>> AggP;
struct Val {
  Kind k = UND; uint16_t w = 0; uint64_t c = 0; E e; AggP g;
  bool conc() const { return k == CI || k == CF; }
};
static inline uint64_t msk(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static Val ci(uint64_t v, unsigned w) { Val r; r.k = CI; r.w = w; r.c = v & msk(w); return r; }
static Val si(const E &e, unsigned w) {
  Val r; r.w = w;
  if (Z3_get_ast_kind(Z, e.a) == Z3_NUMERAL_AST && w <= 64) { uint64_t v; if (Z3_get_numeral_uint64(Z, e.a, &v)) { r.k = CI; r.c = v; return r; } }
  r.k = SI; r.e = e; return r;
}
static Val cf(double d, unsigned w) { Val r; r.k = CF; r.w = w; if (w == 32) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); r.c = b; } else memcpy(&r.c, &d, 8); return r; }
static double fval(const Val &v) { if (v.w == 32) { uint32_t b = (uint32_t)v.c; float f; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Z3_sort fsort(unsigned w) { return realmode ? Z3_mk_real_sort(Z) : w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static Val sf(const E &e, unsigned w) { Val r; r.k = SF; r.w = w; r.e = e; return r; }
static E real_of(double d) {
  if (!std::isfinite(d)) return Z3_mk_real(Z, 0, 1);
  if (d == 0) return Z3_mk_real(Z, 0, 1);
  int ex; double m = std::frexp(d, &ex); long long im = (long long)std::ldexp(m, 53); ex -= 53;
  while (im && !(im & 1) && ex < 0) { im /= 2; ++ex; }
  auto pow2 = [](int e) { Str s = "1"; for (int i = 0; i < e; ++i) { int car = 0; for (int j = (int)s.size() - 1; j >= 0; --j) { int d = (s[j] - '0') * 2 + car; s[j] = '0' + d % 10; car = d / 10; } if (car) s.insert(s.begin(), '0' + car); } return s; };
  Str s;
  if (ex < 0) { s = std::to_string(im) + "/" + pow2(-ex); return Z3_mk_numeral(Z, s.c_str(), Z3_mk_real_sort(Z)); }
  E a = Z3_mk_numeral(Z, std::to_string(im).c_str(), Z3_mk_real_sort(Z)), b = Z3_mk_numeral(Z, pow2(ex).c_str(), Z3_mk_real_sort(Z));
  Z3_ast v[2] = {a.a, b.a}; return Simp(Z3_mk_mul(Z, 2, v));
}
static E rne() { return Z3_mk_fpa_rne(Z); }
static E fe(const Val &v) { // float value as z3 expr
  if (v.k == SF) return v.e;
  if (realmode) return real_of(fval(v));
  E b = bvc(v.c, v.w); return Z3_mk_fpa_to_fp_bv(Z, b.a, fsort(v.w));
}
static E ie(const Val &v) { if (v.k == SI) return v.e; return bvc(v.c, v.w); }
static E be(const Val &v) { // i1 as Bool
  if (v.k == CI) return v.c ? E(Z3_mk_true(Z)) : E(Z3_mk_false(Z));
  // ite(b,#b1,#b0) -> b
  if (Z3_get_ast_kind(Z, v.e.a) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, v.e.a);
    if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_ITE) {
      Z3_ast t = Z3_get_app_arg(Z, ap, 1), f = Z3_get_app_arg(Z, ap, 2); uint64_t x, y;
      if (Z3_get_ast_kind(Z, t) == Z3_NUMERAL_AST && Z3_get_ast_kind(Z, f) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, t, &x) && Z3_get_numeral_uint64(Z, f, &y) && x == 1 && y == 0) return Z3_get_app_arg(Z, ap, 0);
    }
  }
  return Eq(v.e, bvc(1, 1));
}
static Val b2v(const E &b) { int k = boolv(b); if (k >= 0) return ci(k, 1); return si(Ite(b, bvc(1, 1), bvc(0, 1)), 1); }
static int freshn = 0;
static E freshbv(unsigned w, const char *p) { Str n = Str(p) + "!" + std::to_string(freshn++); return Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_bv_sort(Z, w)); }
static E freshf(unsigned w, const char *p) { Str n = Str(p) + "!" + std::to_string(freshn++); return Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), fsort(w)); }

// ---------------------------------------------------------------- memory
struct Byte { std::shared_ptr<Val> v; uint8_t c = 0; uint8_t idx = 0; uint8_t st = 0; /*0 uninit,1 concrete,2 fragment*/ };
enum OKind : uint8_t { O_GLOBAL, O_STACK, O_HEAP };
struct Obj { uint64_t base, size; OKind kind; bool freed = false, ro = false; std::vector<Byte> b; Str tag; };
typedef std::shared_ptr<Obj> ObjP;
struct Frame { Function *f = nullptr; BasicBlock *bb = nullptr, *prev = nullptr; BasicBlock::iterator it; std::unordered_map<const Value *, Val> r; std::vector<uint64_t> allocas; std::vector<Val> va; CallBase *call = nullptr; };
struct Input { char kind; Val v; };
typedef std::map<uint64_t, ObjP> MemMap;
struct PC { E c; std::shared_ptr<PC> up; int depth; };
typedef std::shared_ptr<PC> PCP;
struct Model { Z3_model m; Model(Z3_model x) : m(x) { Z3_model_inc_ref(Z, m); } ~Model() { Z3_model_dec_ref(Z, m); } };
struct State {
  std::vector<Frame> fr; MemMap mem; uint64_t next; PCP pc; std::shared_ptr<Model> model; std::vector<Input> in; long steps = 0;
  std::vector<std::pair<E, std::pair<E, E>>> trig; // memo for sin/cos
  std::vector<std::pair<E, E>> sqrts, rcasts, floors; std::vector<std::pair<std::pair<E, E>, E>> quots;
  std::vector<std::pair<E, E>> pend; // definitions of fresh symbols, asserted once the symbol is used
  bool dead = false; bool fatal_ok = false;
};
static MemMap rom; // read-only globals shared by all states
static std::unordered_map<const GlobalValue *, uint64_t> gaddr; static std::unordered_map<uint64_t, Function *> faddr;
static const DataLayout *DL; static Module *M; static LLVMContext CX;

// ---------------------------------------------------------------- solver
static Z3_solver SV; static std::vector<PCP> stack_;
static Z3_params mkparams() { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), qtimeout); return p; }
static Str logic_tactic;
static void sync(State &s) {
  int d = s.pc ? s.pc->depth : 0;
  std::vector<PCP> want(d); PCP p = s.pc; for (int i = d - 1; i >= 0; --i) { want[i] = p; p = p->up; }
  size_t k = 0; while (k < stack_.size() && k < want.size() && stack_[k] == want[k]) ++k;
  if (stack_.size() > k) { Z3_solver_pop(Z, SV, stack_.size() - k); stack_.resize(k); }
  for (; k < want.size(); ++k) { Z3_solver_push(Z, SV); Z3_solver_assert(Z, SV, want[k]->c.a); stack_.push_back(want[k]); }
}
static Z3_solver fresh_solver() {
  Z3_solver s;
  if (logic_tactic == "nl") { Z3_tactic t = Z3_mk_tactic(Z, "qfnra-nlsat"); Z3_tactic_inc_ref(Z, t); s = Z3_mk_solver_from_tactic(Z, t); }
  else if (!logic_tactic.empty()) s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, logic_tactic.c_str()));
  else s = Z3_mk_solver(Z);
  Z3_solver_inc_ref(Z, s); Z3_solver_set_params(Z, s, mkparams()); return s;
}
static void add(State &s, const E &c);
static void activate(State &s, const E &c) {
  if (s.pend.empty()) return;
  std::unordered_set<Z3_ast> seen; std::vector<Z3_ast> st{c.a}; std::vector<E> use;
  while (!st.empty()) {
    Z3_ast a = st.back(); st.pop_back(); if (!seen.insert(a).second || Z3_get_ast_kind(Z, a) != Z3_APP_AST) continue;
    Z3_app ap = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, ap);
    if (!n) { for (size_t i = 0; i < s.pend.size(); ++i) if (Z3_is_eq_ast(Z, s.pend[i].first.a, a)) { use.push_back(s.pend[i].second); s.pend.erase(s.pend.begin() + i); --i; } }
    for (unsigned i = 0; i < n; ++i) st.push_back(Z3_get_app_arg(Z, ap, i));
  }
  for (auto &d : use) { s.model.reset(); add(s, d); }
}
// 1 sat, 0 unsat, -1 unknown
static int sat(State &s, const E &c, std::shared_ptr<Model> *m = nullptr) {
  double t = now(); ++ST.queries; int r;
  activate(s, c); sync(s);
  Z3_solver_push(Z, SV); Z3_solver_assert(Z, SV, c.a);
  Str qtxt; if (getenv("SX_DUMP")) qtxt = Z3_solver_to_string(Z, SV);
  Z3_lbool b = Z3_solver_check(Z, SV);
  r = b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
  if (r == 1 && m) *m = std::make_shared<Model>(Z3_solver_get_model(Z, SV));
  Z3_solver_pop(Z, SV, 1);
  if (const char *dp = getenv("SX_DUMP")) if (now() - t > 3) { static int dn = 0; FILE *df = fopen((Str(dp) + std::to_string(getpid()) + "_" + std::to_string(dn++) + ".smt2").c_str(), "w"); if (df) { fprintf(df, "; %d %.1f\n%s(check-sat)\n", r, now() - t, qtxt.c_str()); fclose(df); } }
  if (r == -1) { // second opinion: a fresh, non-incremental solver
    Z3_solver f = fresh_solver();
    for (PCP p = s.pc; p; p = p->up) Z3_solver_assert(Z, f, p->c.a);
    Z3_solver_assert(Z, f, c.a); ++ST.queries;
    b = Z3_solver_check(Z, f); r = b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
    if (r == 1 && m) *m = std::make_shared<Model>(Z3_solver_get_model(Z, f));
    Z3_solver_dec_ref(Z, f);
  }
  double dt = now() - t; ST.solver += dt;
  if (getenv("SX_SLOW") && dt > atof(getenv("SX_SLOW"))) fprintf(stderr, "slow query %.2fs -> %d\n%s\n", dt, r, Z3_ast_to_string(Z, c.a));
  if (r == -1) ++ST.unknown;
  return r;
}
static void add(State &s, const E &c) { activate(s, c); auto p = std::make_shared<PC>(); p->c = c; p->up = s.pc; p->depth = (s.pc ? s.pc->depth : 0) + 1; s.pc = p; }

// concrete evaluation of a bit-vector/boolean term under a model (iterative, linear in the DAG); false if an operator is not covered
static bool ceval(Z3_model m, Z3_ast root, uint64_t &out) {
  std::unordered_map<Z3_ast, uint64_t> memo; std::vector<Z3_ast> st{root};
  auto W = [](Z3_ast a) -> unsigned { Z3_sort so = Z3_get_sort(Z, a); return Z3_get_sort_kind(Z, so) == Z3_BV_SORT ? Z3_get_bv_sort_size(Z, so) : Z3_get_sort_kind(Z, so) == Z3_BOOL_SORT ? 1 : 0; };
  auto M = [](unsigned w) { return w >= 64 ? ~0ULL : (1ULL << w) - 1; };
  while (!st.empty()) {
    Z3_ast a = st.back(); if (memo.count(a)) { st.pop_back(); continue; }
    unsigned w = W(a); if (!w || w > 64) return false;
    if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) { uint64_t v; if (!Z3_get_numeral_uint64(Z, a, &v)) return false; memo[a] = v; st.pop_back(); continue; }
    if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return false;
    Z3_app ap = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, ap); bool ready = true; uint64_t x[64]; if (n > 64) return false;
    for (unsigned i = 0; i < n; ++i) { Z3_ast c = Z3_get_app_arg(Z, ap, i); auto it = memo.find(c); if (it == memo.end()) { st.push_back(c); ready = false; } else x[i] = it->second; }
    if (!ready) continue;
    Z3_func_decl d = Z3_get_app_decl(Z, ap); uint64_t r = 0; Z3_ast a0 = n ? Z3_get_app_arg(Z, ap, 0) : nullptr; unsigned w0 = n ? W(a0) : 0; auto S = [&](uint64_t v) -> int64_t { return (int64_t)(v << (64 - w0)) >> (64 - w0); };
    switch (Z3_get_decl_kind(Z, d)) {
    case Z3_OP_UNINTERPRETED: { if (n) return false; Z3_ast v; if (!Z3_model_eval(Z, m, a, true, &v)) return false; E h(v); int b = boolv(h); if (b >= 0) r = b; else if (!Z3_get_numeral_uint64(Z, h.a, &r)) return false; break; }
    case Z3_OP_TRUE: r = 1; break; case Z3_OP_FALSE: r = 0; break; case Z3_OP_NOT: r = !x[0]; break;
    case Z3_OP_AND: r = 1; for (unsigned i = 0; i < n; ++i) r &= x[i]; break; case Z3_OP_OR: for (unsigned i = 0; i < n; ++i) r |= x[i]; break; case Z3_OP_XOR: for (unsigned i = 0; i < n; ++i) r ^= x[i]; break;
    case Z3_OP_IMPLIES: r = !x[0] | x[1]; break; case Z3_OP_EQ: case Z3_OP_IFF: r = x[0] == x[1]; break; case Z3_OP_ITE: r = x[0] ? x[1] : x[2]; break;
    case Z3_OP_BADD: for (unsigned i = 0; i < n; ++i) r += x[i]; break; case Z3_OP_BMUL: r = 1; for (unsigned i = 0; i < n; ++i) r *= x[i]; break; case Z3_OP_BSUB: r = x[0] - x[1]; break; case Z3_OP_BNEG: r = -x[0]; break;
    case Z3_OP_BAND: r = ~0ULL; for (unsigned i = 0; i < n; ++i) r &= x[i]; break; case Z3_OP_BOR: for (unsigned i = 0; i < n; ++i) r |= x[i]; break; case Z3_OP_BXOR: for (unsigned i = 0; i < n; ++i) r ^= x[i]; break; case Z3_OP_BNOT: r = ~x[0]; break;
    case Z3_OP_BSHL: r = x[1] >= w ? 0 : x[0] << x[1]; break; case Z3_OP_BLSHR: r = x[1] >= w ? 0 : x[0] >> x[1]; break; case Z3_OP_BASHR: r = S(x[0]) >> (x[1] >= w ? 63 : x[1]); break;
    case Z3_OP_CONCAT: for (unsigned i = 0; i < n; ++i) { unsigned wi = W(Z3_get_app_arg(Z, ap, i)); r = wi >= 64 ? x[i] : r << wi | x[i]; } break;
    case Z3_OP_EXTRACT: r = x[0] >> Z3_get_decl_int_parameter(Z, d, 1); break; case Z3_OP_ZERO_EXT: r = x[0]; break; case Z3_OP_SIGN_EXT: r = S(x[0]); break;
    case Z3_OP_ROTATE_LEFT: { unsigned k = Z3_get_decl_int_parameter(Z, d, 0) % w; r = k ? x[0] << k | x[0] >> (w - k) : x[0]; break; } case Z3_OP_ROTATE_RIGHT: { unsigned k = Z3_get_decl_int_parameter(Z, d, 0) % w; r = k ? x[0] >> k | x[0] << (w - k) : x[0]; break; }
    case Z3_OP_ULEQ: r = x[0] <= x[1]; break; case Z3_OP_UGEQ: r = x[0] >= x[1]; break; case Z3_OP_ULT: r = x[0] < x[1]; break; case Z3_OP_UGT: r = x[0] > x[1]; break;
    case Z3_OP_SLEQ: r = S(x[0]) <= S(x[1]); break; case Z3_OP_SGEQ: r = S(x[0]) >= S(x[1]); break; case Z3_OP_SLT: r = S(x[0]) < S(x[1]); break; case Z3_OP_SGT: r = S(x[0]) > S(x[1]); break;
    default: return false;
    }
    memo[a] = r & M(w); st.pop_back();
  }
  out = memo[root]; return true;
}
static int evalb(State &s, const E &c) { // truth under the state's cached model
  if (!s.model) return -1; if (depth(c.a) > simpdepth) { uint64_t v; if (ceval(s.model->m, c.a, v)) return v != 0; } Z3_ast r; if (!Z3_model_eval(Z, s.model->m, c.a, true, &r)) return -1; E h(r); int k = boolv(h); if (k < 0) { h = Simp(h); k = boolv(h); } return k;
}
// feasible truth values of c: bit0 = can be false, bit1 = can be true (unknown counts as feasible)
static int feas(State &s, const E &c, std::shared_ptr<Model> mm[2]) {
  activate(s, c); int k = evalb(s, c), res = 0;
  for (int v = 0; v < 2; ++v) {
    if (k == v) { res |= 1 << v; mm[v] = s.model; continue; }
    E q = v ? c : Not(c); int r = sat(s, q, &mm[v]);
    if (r) res |= 1 << v;
  }
  return res;
}
static Str hexval(State &s, Z3_model m, const Input &in) {
  const Val &v = in.v; char buf[64];
  if (v.conc()) { snprintf(buf, 64, "%llx", (unsigned long long)v.c); return buf; }
  Z3_ast r; if (!Z3_model_eval(Z, m, v.e.a, true, &r)) return "0"; E h(r);
  if (v.k == SI) { uint64_t x = 0; Z3_get_numeral_uint64(Z, h.a, &x); snprintf(buf, 64, "%llx", (unsigned long long)x); return buf; }
  if (realmode) {
    double d = 0;
    if (Z3_is_algebraic_number(Z, h.a)) { E q(Z3_get_algebraic_number_lower(Z, h.a, 20)); Str t = Z3_get_numeral_string(Z, q.a); size_t p = t.find('/'); d = atof(t.c_str()); if (p != Str::npos) d /= atof(t.c_str() + p + 1); }
    else { E sm = Simp(h); if (Z3_get_ast_kind(Z, sm.a) == Z3_NUMERAL_AST) { Str t = Z3_get_numeral_string(Z, sm.a); size_t p = t.find('/'); long double n = strtold(t.c_str(), 0); if (p != Str::npos) n /= strtold(t.c_str() + p + 1, 0); d = (double)n; } }
    Val c = cf(d, v.w); snprintf(buf, 64, "%llx", (unsigned long long)c.c); return buf;
  }
  E bvx = Z3_mk_fpa_to_ieee_bv(Z, h.a); E sm = Simp(bvx); uint64_t x = 0; Z3_get_numeral_uint64(Z, sm.a, &x); snprintf(buf, 64, "%llx", (unsigned long long)x); return buf;
}
static Str where(State &s) {
  Str r; for (int i = (int)s.fr.size() - 1; i >= 0 && r.size() < 300; --i) { r += s.fr[i].f->getName().str(); if (s.fr[i].it != s.fr[i].bb->end()) if (auto &dl = s.fr[i].it->getDebugLoc()) r += ":" + std::to_string(dl.getLine()); if (i) r += " < "; } return r;
}
static void violation(State &s, const Str &msg, std::shared_ptr<Model> m) {
  Str key = msg + "@" + s.fr.back().f->getName().str();
  if (violkeys.count(key) || (int)viols.size() >= maxviol) return;
  if (!m) { int r = sat(s, Z3_mk_true(Z), &m); if (r != 1) { if (r == -1) limits.insert("solver unknown while building counterexample: " + msg); return; } }
  violkeys.insert(key);
  Viol v; v.msg = msg; v.where = where(s);
  for (auto &i : s.in) { v.inputs += i.kind; v.inputs += " "; v.inputs += hexval(s, m->m, i); v.inputs += "\n"; }
  viols.push_back(v); if (*t_viol == 0) *t_viol = now();
}
// obligation c in state s; afterwards c is assumed. false when the path cannot go on
static bool require(State &s, const E &c0, const Str &msg) {
  ++ST.asserts; E c = Simp(c0); int k = boolv(c);
  if (k == 1) return true;
  if (k < 0 && realmode && depth(c.a) < 60) { static Z3_params ps = nullptr; if (!ps) { ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps); Z3_params_set_bool(Z, ps, Z3_mk_string_symbol(Z, "som"), true); } E n = Z3_simplify_ex(Z, c.a, ps); if (boolv(n) == 1) { ++ST.queries; return true; } }
  std::shared_ptr<Model> m; ++ST.assert_queries; activate(s, c);
  if (k == 0) { violation(s, msg, nullptr); s.dead = true; return false; }
  if (!s.model && depth(c.a) > simpdepth) sat(s, Z3_mk_true(Z), &s.model); // large term: try the path's own model first
  int e = evalb(s, c), r;
  if (e == 0) { r = 1; m = s.model; } else r = sat(s, Not(c), &m);
  if (r == 1) { violation(s, msg, m); if (depth(c.a) > simpdepth) { s.dead = true; return false; } add(s, c); s.model.reset(); int q = sat(s, Z3_mk_true(Z), &s.model); if (q == 0) { s.dead = true; return false; } }
  else if (r == -1) { limits.insert("solver gave no answer on: " + msg); add(s, c); }
  return true;
}
static void die(State &s, const Str &msg) { ++ST.asserts; violation(s, msg, nullptr); s.dead = true; }
static std::deque<State> work;
static bool too_many = false;

// ---------------------------------------------------------------- memory access
static ObjP *findobj(State &s, uint64_t a) {
  auto look = [&](MemMap &m) -> ObjP * { auto it = m.upper_bound(a); if (it == m.begin()) return nullptr; --it; Obj &o = *it->second; if (a >= o.base && a <= o.base + o.size) return &it->second; return nullptr; };
  if (auto p = look(s.mem)) return p; return look(rom);
}
static Obj &own(ObjP &p) { if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
static ObjP mkobj(State &s, uint64_t size, OKind k, unsigned align, const Str &tag) {
  auto o = std::make_shared<Obj>(); uint64_t al = align < 16 ? 16 : align; s.next = (s.next + al - 1) / al * al; o->base = s.next; o->size = size; o->kind = k; o->b.resize(size); o->tag = tag;
  s.next += size + 48 + 16; s.mem[o->base] = o; return o;
}
static E byte_e(const Byte &b) {
  if (b.st == 1) return bvc(b.c, 8);
  const Val &v = *b.v;
  if (v.k == SI) { if (v.w == 8) return v.e; unsigned hi = b.idx * 8 + 7; if (hi >= v.w) { E x = Z3_mk_zero_ext(Z, (v.w + 7) / 8 * 8 - v.w, v.e.a); return Z3_mk_extract(Z, hi, b.idx * 8, x.a); } return Z3_mk_extract(Z, hi, b.idx * 8, v.e.a); }
  if (v.k == SF && !realmode) { E x = Z3_mk_fpa_to_ieee_bv(Z, v.e.a); return Z3_mk_extract(Z, b.idx * 8 + 7, b.idx * 8, x.a); }
  limits.insert("bytes of a symbolic real number inspected"); return bvc(0, 8);
}
static Val tofloat(State &s, const Val &v, unsigned w) { // reinterpret bits
  if (v.k == CF || v.k == SF) return v;
  if (v.k == CI) { Val r = v; r.k = CF; r.w = w; return r; }
  if (realmode) { limits.insert("symbolic bits reinterpreted as a real number"); s.dead = true; return cf(0, w); }
  return sf(Z3_mk_fpa_to_fp_bv(Z, v.e.a, fsort(w)), w);
}
static Val toint(State &s, const Val &v, unsigned w) {
  if (v.k == CI || v.k == SI) return v;
  if (v.k == CF) return ci(v.c, w);
  if (realmode) { limits.insert("symbolic real number reinterpreted as bits"); s.dead = true; return ci(0, w); }
  return si(Z3_mk_fpa_to_ieee_bv(Z, v.e.a), w);
}
static Val undefval(Type *t);
static unsigned bits(Type *t) { if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return t->getPrimitiveSizeInBits(); }
static Val loadscalar(State &s, Obj &o, uint64_t off, Type *t) {
  unsigned w = bits(t), n = (w + 7) / 8; bool isf = t->isFloatTy() || t->isDoubleTy();
  Byte *b = &o.b[off];
  bool allc = true; for (unsigned i = 0; i < n; ++i) if (b[i].st != 1) { allc = false; break; }
  if (allc && n <= 8) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v |= (uint64_t)b[i].c << (8 * i); Val r = ci(v, w); if (isf) r.k = CF; return r; }
  if (b[0].st == 2 && b[0].idx == 0) {
    bool same = ((b[0].v->w + 7) / 8 == n); for (unsigned i = 1; same && i < n; ++i) if (b[i].st != 2 || b[i].v != b[0].v || b[i].idx != i) same = false;
    if (same) { Val v = *b[0].v; if (v.w == w) return isf ? tofloat(s, v, w) : toint(s, v, w); if (v.w < w) { Val x = toint(s, v, v.w); return x; } if (v.k == SI) return si(Z3_mk_extract(Z, w - 1, 0, v.e.a), w); }
  }
  // materialise uninitialised bytes as unconstrained values
  bool anyun = false; for (unsigned i = 0; i < n; ++i) if (b[i].st == 0) anyun = true;
  if (anyun) {
    bool all = true; for (unsigned i = 0; i < n; ++i) if (b[i].st != 0) all = false;
    if (uninit_check) { die(s, "use of uninitialised memory"); return ci(0, w); }
    auto p = std::make_shared<Val>();
    if (all) { if (isf) *p = sf(freshf(w, "uninit"), w); else *p = si(freshbv(w, "uninit"), w); for (unsigned i = 0; i < n; ++i) { b[i].st = 2; b[i].v = p; b[i].idx = i; } return *p; }
    for (unsigned i = 0; i < n; ++i) if (b[i].st == 0) { auto q = std::make_shared<Val>(si(freshbv(8, "uninit"), 8)); b[i].st = 2; b[i].v = q; b[i].idx = 0; }
  }
  E acc = byte_e(b[n - 1]); for (int i = (int)n - 2; i >= 0; --i) { E x = byte_e(b[i]); acc = Z3_mk_concat(Z, acc.a, x.a); }
  if (w % 8) acc = Z3_mk_extract(Z, w - 1, 0, acc.a);
  acc = Simp(acc); Val r = si(acc, w); if (isf) r = tofloat(s, r, w); return r;
}
static void storescalar(Obj &o, uint64_t off, const Val &v, Type *t) {
  unsigned w = bits(t), n = (w + 7) / 8; Byte *b = &o.b[off];
  if (v.conc()) { for (unsigned i = 0; i < n; ++i) { b[i].st = 1; b[i].c = i < 8 ? (v.c >> (8 * i)) & 255 : 0; b[i].v.reset(); } return; }
  if (v.k == UND) { for (unsigned i = 0; i < n; ++i) { b[i].st = 0; b[i].v.reset(); } return; }
  auto p = std::make_shared<Val>(v); for (unsigned i = 0; i < n; ++i) { b[i].st = 2; b[i].v = p; b[i].idx = i; }
}
static Val loadt(State &s, Obj &o, uint64_t off, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(); auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) r.g->push_back(loadt(s, o, off + sl->getElementOffset(i), st->getElementType(i))); return r; }
  if (auto *at = dyn_cast<ArrayType>(t)) { Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(); uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) r.g->push_back(loadt(s, o, off + i * es, at->getElementType())); return r; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(); uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); ++i) r.g->push_back(loadt(s, o, off + i * es, vt->getElementType())); return r; }
  return loadscalar(s, o, off, t);
}
static void storet(State &s, Obj &o, uint64_t off, const Val &v, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storet(s, o, off + sl->getElementOffset(i), v.k == AGG ? (*v.g)[i] : Val(), st->getElementType(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) storet(s, o, off + i * es, v.k == AGG ? (*v.g)[i] : Val(), at->getElementType()); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); ++i) storet(s, o, off + i * es, v.k == AGG ? (*v.g)[i] : Val(), vt->getElementType()); return; }
  storescalar(o, off, v, t);
}
static Str hexs(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
// resolve concrete address for an access of n bytes
static ObjP *resolve(State &s, uint64_t a, uint64_t n, bool wr, const char *what) {
  if (n == 0) { static ObjP dummy = std::make_shared<Obj>(); if (!dummy->size) { dummy->base = a; } return &dummy; }
  ObjP *p = findobj(s, a);
  if (!p) { die(s, Str("memory ") + what + (a < 4096 ? " through a null pointer" : " outside any object")); return nullptr; }
  Obj &o = **p;
  if (o.freed) { die(s, Str("memory ") + what + " after the object's lifetime ended (" + o.tag + ")"); return nullptr; }
  if (a + n > o.base + o.size) { die(s, Str("memory ") + what + " out of bounds (" + o.tag + ", size " + std::to_string(o.size) + ", offset " + std::to_string(a - o.base) + ", bytes " + std::to_string(n) + ")"); return nullptr; }
  if (wr && o.ro) { die(s, "write to read-only memory (" + o.tag + ")"); return nullptr; }
  return p;
}
static bool modelval(State &s, const E &e, uint64_t &v) {
  if (!s.model) { int r = sat(s, Z3_mk_true(Z), &s.model); if (r != 1) { limits.insert("no model for symbolic value"); s.dead = true; return false; } }
  Z3_ast r; if (!Z3_model_eval(Z, s.model->m, e.a, true, &r)) return false; E h(r); return Z3_get_numeral_uint64(Z, h.a, &v);
}
// make a symbolic integer concrete by forking over its feasible values
static bool concretize(State &s, Val &v, const State &before) {
  if (v.k == CI) return true;
  if (v.k == UND) { v = ci(0, v.w ? v.w : 64); return true; }
  uint64_t x; if (!modelval(s, v.e, x)) { s.dead = true; return false; }
  E eq = Eq(v.e, bvc(x, v.w)); std::shared_ptr<Model> m;
  int r = sat(s, Not(eq), &m);
  if (r) { State o = before; add(o, Not(eq)); o.model = m; ++ST.forks; work.push_back(std::move(o)); }
  add(s, eq); v = ci(x, v.w); return true;
}
static Val ite_val(const E &c, const Val &a, const Val &b, unsigned w, bool isf) { if (isf) return sf(Ite(c, fe(a), fe(b)), w); return si(Simp(Ite(c, ie(a), ie(b))), w); }

// access through symbolic pointer. Returns false if the state died or was re-queued.
static bool sym_access(State &s, const State &before, const Val &ptr, Type *t, bool wr, Val &val) {
  uint64_t a0, n = DL->getTypeStoreSize(t); if (!modelval(s, ptr.e, a0)) { s.dead = true; return false; }
  ObjP *p = findobj(s, a0);
  const char *what = wr ? "write" : "read";
  if (!p || (*p)->freed || a0 + n > (*p)->base + (*p)->size || (wr && (*p)->ro)) { // the model itself is a bad access
    State bad = s; add(bad, Eq(ptr.e, bvc(a0, 64))); bad.model.reset(); resolve(bad, a0, n, wr, what);
    add(s, Not(Eq(ptr.e, bvc(a0, 64)))); s.model.reset();
    // look for a good object
    int r = sat(s, Z3_mk_true(Z), &s.model); if (r != 1) { s.dead = true; return false; }
    // avoid enumerating bad addresses one by one: exclude this region wholesale
    if (p) { E lo = Z3_mk_bvult(Z, ptr.e.a, bvc((*p)->base, 64).a), hi = Z3_mk_bvuge(Z, ptr.e.a, bvc((*p)->base + (*p)->size + 1, 64).a); E in = Z3_mk_bvule(Z, ptr.e.a, bvc((*p)->base + (*p)->size - n, 64).a); E ge = Z3_mk_bvuge(Z, ptr.e.a, bvc((*p)->base, 64).a); (void)lo; (void)hi; if (!(*p)->freed) { add(s, And(ge, in)); s.model.reset(); r = sat(s, Z3_mk_true(Z), &s.model); if (r != 1) { s.dead = true; return false; } return sym_access(s, before, ptr, t, wr, val); } }
    s.dead = true; return false;
  }
  Obj &o0 = **p;
  E inb = And(Z3_mk_bvuge(Z, ptr.e.a, bvc(o0.base, 64).a), Z3_mk_bvule(Z, ptr.e.a, bvc(o0.base + o0.size - n, 64).a));
  std::shared_ptr<Model> m; int r = sat(s, Not(inb), &m);
  if (r) { State o = before; add(o, Not(inb)); o.model = m; ++ST.forks; work.push_back(std::move(o)); add(s, inb); }
  E off = Simp(Z3_mk_bvsub(Z, ptr.e.a, bvc(o0.base, 64).a));
  bool scal = !t->isAggregateType() && !t->isVectorTy(); unsigned w = scal ? bits(t) : 0; bool isf = t->isFloatTy() || t->isDoubleTy();
  uint64_t step = 1; if (n > 1) { E al = Eq(Z3_mk_bvurem(Z, off.a, bvc(n, 64).a), bvc(0, 64)); if (sat(s, Not(al)) == 0) step = n; }
  // feasible range
  std::vector<uint64_t> cand;
  if (scal && (o0.size / step) <= (uint64_t)itemax) for (uint64_t k = 0; k + n <= o0.size; k += step) cand.push_back(k);
  if (cand.empty()) { Val pv = ptr; if (!concretize(s, pv, before)) return false; ObjP *q = resolve(s, pv.c, n, wr, what); if (!q) return false; if (wr) storet(s, own(*q), pv.c - (*q)->base, val, t); else val = loadt(s, (*q)->ro ? **q : own(*q), pv.c - (*q)->base, t); return true; }
  if (cand.size() > 4) { // narrow by solver: find lo/hi quickly by testing feasibility of each when few
    if (cand.size() <= 24) { std::vector<uint64_t> c2; for (auto k : cand) { E q = Eq(off, bvc(k, 64)); if (evalb(s, q) == 1 || sat(s, q) != 0) c2.push_back(k); } cand = c2; if (cand.empty()) { s.dead = true; return false; } }
  }
  Obj &o = wr ? own(*p) : (o0.ro ? o0 : own(*p));
  if (!wr) {
    Val acc = loadt(s, o, cand.back(), t); if (s.dead) return false;
    for (int i = (int)cand.size() - 2; i >= 0; --i) { Val x = loadt(s, o, cand[i], t); acc = ite_val(Eq(off, bvc(cand[i], 64)), x, acc, w, isf); }
    val = acc;
  } else for (auto k : cand) {
    E eq = Eq(off, bvc(k, 64)); Val old; bool un = o.b[k].st == 0; if (un && cand.size() > 1) old = isf ? sf(freshf(w, "uninit"), w) : si(freshbv(w, "uninit"), w); else old = loadt(s, o, k, t);
    storet(s, o, k, cand.size() == 1 ? val : ite_val(eq, val, old, w, isf), t);
  }
  return true;
}

// ---------------------------------------------------------------- constants / operands
static Val constval(State &s, const Constant *c);
static Val undefval(Type *t) { Val v; v.k = UND; if (!t->isAggregateType() && !t->isVectorTy() && t->isSized()) v.w = bits(t); if (auto *st = dyn_cast<StructType>(t)) { v.k = AGG; v.g = std::make_shared<std::vector<Val>>(); for (auto *e : st->elements()) v.g->push_back(undefval(e)); } else if (auto *at = dyn_cast<ArrayType>(t)) { v.k = AGG; v.g = std::make_shared<std::vector<Val>>(at->getNumElements(), undefval(at->getElementType())); } else if (auto *vt = dyn_cast<FixedVectorType>(t)) { v.k = AGG; v.g = std::make_shared<std::vector<Val>>(vt->getNumElements(), undefval(vt->getElementType())); } return v; }
static Val zeroval(Type *t) { if (t->isFloatTy()) return cf(0, 32); if (t->isDoubleTy()) return cf(0, 64); Val v = undefval(t); if (v.k == AGG) { for (unsigned i = 0; i < v.g->size(); ++i) { Type *et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType(); (*v.g)[i] = zeroval(et); } return v; } return ci(0, bits(t)); }
static void ginit(State &s, Obj &o, uint64_t off, const Constant *c) {
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { uint64_t n = DL->getTypeAllocSize(c->getType()); for (uint64_t i = 0; i < n; ++i) { o.b[off + i].st = 1; o.b[off + i].c = 0; } return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); uint64_t n = DL->getTypeAllocSize(c->getType()); for (uint64_t i = 0; i < n; ++i) { o.b[off + i].st = 1; o.b[off + i].c = 0; } for (unsigned i = 0; i < cs->getNumOperands(); ++i) ginit(s, o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) ginit(s, o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); ++i) ginit(s, o, off + i * es, cd->getElementAsConstant(i)); return; }
  if (isa<UndefValue>(c)) return;
  Val v = constval(s, c); storet(s, o, off, v, c->getType());
}
static uint64_t rom_next = 0x100000;
static uint64_t globaladdr(State &s, const GlobalValue *g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  if (auto *f = dyn_cast<Function>(g)) { uint64_t a = rom_next; rom_next += 64; gaddr[g] = a; faddr[a] = const_cast<Function *>(f); return a; }
  if (auto *ga = dyn_cast<GlobalAlias>(g)) return globaladdr(s, cast<GlobalValue>(ga->getAliasee()));
  auto *gv = cast<GlobalVariable>(g); uint64_t n = DL->getTypeAllocSize(gv->getValueType());
  auto o = std::make_shared<Obj>(); uint64_t al = 64; rom_next = (rom_next + al - 1) / al * al; o->base = rom_next; rom_next += n + 64; o->size = n; o->kind = O_GLOBAL; o->b.resize(n); o->tag = "global " + gv->getName().str(); gaddr[g] = o->base;
  if (gv->hasInitializer()) ginit(s, *o, 0, gv->getInitializer()); else if (gv->getName() != "stderr" && gv->getName() != "stdout" && gv->getName() != "stdin") limits.insert("external global " + gv->getName().str());
  o->ro = gv->isConstant();
  rom[o->base] = o; return o->base;
}
static Val gepval(State &s, Val base, const GEPOperator *g, std::function<Val(const Value *)> opv) {
  Val r = base; E sym; uint64_t off = 0; bool symb = false;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value *idx = it.getOperand();
    if (auto *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
    uint64_t es = DL->getTypeAllocSize(it.getIndexedType()); Val i = opv(idx);
    if (i.k == UND) i = ci(0, i.w);
    if (i.k == CI) { int64_t v = i.w < 64 ? (int64_t)(i.c << (64 - i.w)) >> (64 - i.w) : (int64_t)i.c; off += (uint64_t)v * es; continue; }
    E x = i.w < 64 ? E(Z3_mk_sign_ext(Z, 64 - i.w, i.e.a)) : i.e; if (es != 1) x = Z3_mk_bvmul(Z, x.a, bvc(es, 64).a);
    sym = symb ? E(Z3_mk_bvadd(Z, sym.a, x.a)) : x; symb = true;
  }
  if (base.k == UND) r = ci(0, 64);
  if (r.k == CI && !symb) return ci(r.c + off, 64);
  E b = ie(r); if (off) b = Z3_mk_bvadd(Z, b.a, bvc(off, 64).a); if (symb) b = Z3_mk_bvadd(Z, b.a, sym.a);
  return si(Simp(b), 64);
}

// ---------------------------------------------------------------- --canon: normal forms for word arithmetic
// sums are kept as linear combinations (mod 2^w), bitwise expressions over <= 8 leaves in algebraic normal form,
// complementary shifts as rotations; structurally different but equal computations get the same term.
struct Canon { E self; std::map<unsigned, std::pair<E, uint64_t>> lin; uint64_t k = 0; bool haslin = false;
               std::vector<E> lv; std::map<unsigned, uint64_t> anf; bool hasbit = false; E sh_x; int sh = 0; /* >0 shl, <0 lshr */ };
static std::unordered_map<unsigned, Canon> cmemo;
static unsigned aid(const E &x) { return Z3_get_ast_id(Z, x.a); }
static Canon *cfind(const E &x) { auto it = cmemo.find(aid(x)); return it == cmemo.end() ? nullptr : &it->second; }
static bool cnum(const E &x, uint64_t &v) { return Z3_get_ast_kind(Z, x.a) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, x.a, &v); }
static uint64_t cmask(unsigned w) { return w >= 64 ? ~0ULL : (1ULL << w) - 1; }
static void lin_add(Canon &d, const E &x, uint64_t c, unsigned w) {
  uint64_t v; if (cnum(x, v)) { d.k += c * v; return; }
  Canon *q = cfind(x);
  if (q && q->haslin) { d.k += c * q->k; for (auto &p : q->lin) { auto &t = d.lin[p.first]; t.first = p.second.first; t.second += c * p.second.second; } }
  else { auto &t = d.lin[aid(x)]; t.first = x; t.second += c; }
}
static E canon_add(const E &x, const E &y, bool sub, unsigned w) {
  Canon d; lin_add(d, x, 1, w); lin_add(d, y, sub ? ~0ULL : 1, w); d.k &= cmask(w); E r; uint64_t m = cmask(w);
  for (auto it = d.lin.begin(); it != d.lin.end();) { it->second.second &= m; if (!it->second.second) it = d.lin.erase(it); else ++it; }
  for (auto &p : d.lin) { E t = p.second.second == 1 ? p.second.first : E(Z3_mk_bvmul(Z, bvc(p.second.second, w).a, p.second.first.a)); r = r ? E(Z3_mk_bvadd(Z, r.a, t.a)) : t; }
  if (!r) return bvc(d.k, w); if (d.k) r = Z3_mk_bvadd(Z, r.a, bvc(d.k, w).a);
  if (d.lin.size() == 1 && !d.k && d.lin.begin()->second.second == 1) return r;
  d.self = r; d.haslin = true; auto &c = cmemo[aid(r)]; c.self = r; c.lin = d.lin; c.k = d.k; c.haslin = true; return r;
}
typedef std::map<unsigned, uint64_t> Anf; // algebraic normal form: subset of leaves -> constant mask (bitwise polynomial over GF(2))
static bool bit_of(const E &x, unsigned w, std::vector<E> &lv, Anf &f) {
  uint64_t v; f.clear(); if (cnum(x, v)) { if (v) f[0] = v; return true; }
  Canon *q = cfind(x); std::vector<E> one{x}; bool has = q && q->hasbit; const std::vector<E> &src = has ? q->lv : one; std::vector<int> pos;
  for (auto &e : src) { int k = -1; for (size_t i = 0; i < lv.size(); ++i) if (lv[i].a == e.a) k = i; if (k < 0) { if (lv.size() == 8) return false; k = lv.size(); lv.push_back(e); } pos.push_back(k); }
  if (!has) { f[1u << pos[0]] = cmask(w); return true; }
  for (auto &t : q->anf) { unsigned m = 0; for (size_t i = 0; i < pos.size(); ++i) if (t.first >> i & 1) m |= 1u << pos[i]; f[m] = t.second; }
  return true;
}
static void anf_x(Anf &d, unsigned k, uint64_t m) { auto &c = d[k]; c ^= m; if (!c) d.erase(k); }
static E canon_bit(unsigned opc, const E &x, const E &y, unsigned w) {
  Canon *p = cfind(x), *q = cfind(y);
  if (opc != Instruction::And && p && q && p->sh && q->sh && p->sh_x.a == q->sh_x.a && (p->sh > 0) != (q->sh > 0) && std::abs(p->sh) + std::abs(q->sh) == (int)w)
    return Z3_mk_rotate_right(Z, p->sh < 0 ? -p->sh : -q->sh, p->sh_x.a);
  std::vector<E> lv; Anf a, b, f; if (!bit_of(x, w, lv, a) || !bit_of(y, w, lv, b)) return E();
  if (opc != Instruction::And) { f = a; for (auto &t : b) anf_x(f, t.first, t.second); }
  if (opc != Instruction::Xor) for (auto &t : a) for (auto &u : b) if (t.second & u.second) anf_x(f, t.first | u.first, t.second & u.second);
  if (f.size() > 24) return E();
  unsigned used = 0; for (auto &t : f) used |= t.first;
  std::vector<int> ord; for (size_t i = 0; i < lv.size(); ++i) if (used >> i & 1) ord.push_back(i); std::sort(ord.begin(), ord.end(), [&](int i, int j) { return aid(lv[i]) < aid(lv[j]); });
  std::vector<E> sl; for (int i : ord) sl.push_back(lv[i]);
  Anf g; for (auto &t : f) { unsigned m = 0; for (size_t i = 0; i < ord.size(); ++i) if (t.first >> ord[i] & 1) m |= 1u << i; g[m] = t.second; }
  E r; for (auto &t : g) { E pr; for (size_t i = 0; i < sl.size(); ++i) if (t.first >> i & 1) pr = pr ? E(Z3_mk_bvand(Z, pr.a, sl[i].a)) : sl[i]; if (!pr) pr = bvc(t.second, w); else if (t.second != cmask(w)) pr = Z3_mk_bvand(Z, pr.a, bvc(t.second, w).a); r = r ? E(Z3_mk_bvxor(Z, r.a, pr.a)) : pr; }
  if (!r) return bvc(0, w); uint64_t v; if (cnum(r, v)) return r; if (sl.size() == 1 && r.a == sl[0].a) return r;
  auto &c = cmemo[aid(r)]; c.self = r; c.lv = sl; c.anf = g; c.hasbit = true; return r;
}
static E canon_shift(const E &x, int sh, unsigned w) { // constant shift, |sh| < w
  E r = sh > 0 ? Z3_mk_bvshl(Z, x.a, bvc(sh, w).a) : Z3_mk_bvlshr(Z, x.a, bvc(-sh, w).a); auto &c = cmemo[aid(r)]; c.self = r; c.sh_x = x; c.sh = sh; return r;
}
static Val doBin(State &s, unsigned op, const Val &a, const Val &b, Type *t, const Instruction *I);
static Val doCast(State &s, unsigned op, const Val &a, Type *st, Type *dt);
static Val doCmp(State &s, unsigned pred, const Val &a, const Val &b);
static Val constval(State &s, const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() <= 64) return ci(i->getZExtValue(), i->getBitWidth()); SmallString<64> str; i->getValue().toStringUnsigned(str); return si(Z3_mk_numeral(Z, str.c_str(), Z3_mk_bv_sort(Z, i->getBitWidth())), i->getBitWidth()); }
  if (auto *f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isFloatTy()) return cf(f->getValueAPF().convertToFloat(), 32); if (f->getType()->isDoubleTy()) return cf(f->getValueAPF().convertToDouble(), 64); bool l; APFloat x = f->getValueAPF(); x.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return cf(x.convertToDouble(), 64); }
  if (isa<ConstantPointerNull>(c)) return ci(0, 64);
  if (isa<UndefValue>(c)) return undefval(c->getType());
  if (isa<ConstantAggregateZero>(c)) return zeroval(c->getType());
  if (auto *g = dyn_cast<GlobalValue>(c)) return ci(globaladdr(s, g), 64);
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { Val v; v.k = AGG; v.g = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < c->getNumOperands(); ++i) v.g->push_back(constval(s, cast<Constant>(c->getOperand(i)))); return v; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { Val v; v.k = AGG; v.g = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < d->getNumElements(); ++i) v.g->push_back(constval(s, d->getElementAsConstant(i))); return v; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto opv = [&](const Value *v) { return constval(s, cast<Constant>(v)); };
    if (auto *g = dyn_cast<GEPOperator>(ce)) return gepval(s, opv(g->getPointerOperand()), g, opv);
    if (ce->isCast()) return doCast(s, ce->getOpcode(), opv(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType());
    if (ce->getNumOperands() == 2 && Instruction::isBinaryOp(ce->getOpcode())) return doBin(s, ce->getOpcode(), opv(ce->getOperand(0)), opv(ce->getOperand(1)), ce->getType(), nullptr);
    if (ce->isCompare()) return doCmp(s, ce->getPredicate(), opv(ce->getOperand(0)), opv(ce->getOperand(1)));
  }
  limits.insert("constant kind not supported"); s.dead = true; return ci(0, 64);
}
static Val op(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constval(s, c);
  auto &r = s.fr.back().r; auto it = r.find(v); if (it == r.end()) { return undefval(v->getType()); } return it->second;
}

// ---------------------------------------------------------------- arithmetic
static int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static Val fix(State &s, const Val &v, Type *t) { // undefined operand -> unconstrained value
  if (v.k != UND) return v; if (t->isFloatTy() || t->isDoubleTy()) return sf(freshf(bits(t), "undef"), bits(t)); return si(freshbv(bits(t), "undef"), bits(t));
}
static E rbin(decltype(Z3_mk_add) f, const E &a, const E &b) { Z3_ast v[2] = {a.a, b.a}; return f(Z, 2, v); }
static bool isreal0(const E &e) { if (Z3_get_ast_kind(Z, e.a) != Z3_NUMERAL_AST) return false; Str t = Z3_get_numeral_string(Z, e.a); return t == "0" || t == "0.0"; }
static Val doBin(State &s, unsigned opc, const Val &a0, const Val &b0, Type *t, const Instruction *I) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < vt->getNumElements(); ++i) r.g->push_back(doBin(s, opc, (*a0.g)[i], (*b0.g)[i], vt->getElementType(), I)); return r; }
  Val a = fix(s, a0, t), b = fix(s, b0, t); unsigned w = bits(t);
  if (opc == Instruction::FAdd || opc == Instruction::FSub || opc == Instruction::FMul || opc == Instruction::FDiv || opc == Instruction::FRem) {
    if (a.k == CF && b.k == CF) {
      double x = fval(a), y = fval(b);
      if (w == 32) { float p = (float)x, q = (float)y, r = 0; switch (opc) { case Instruction::FAdd: r = p + q; break; case Instruction::FSub: r = p - q; break; case Instruction::FMul: r = p * q; break; case Instruction::FDiv: r = p / q; break; default: r = fmodf(p, q); } return cf(r, 32); }
      double r = 0; switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } return cf(r, 64);
    }
    E x = fe(a), y = fe(b);
    if (realmode) {
      auto isc = [](const Val &v, double d) { return v.k == CF && fval(v) == d; };
      switch (opc) {
      case Instruction::FAdd: if (isc(a, 0)) return b; if (isc(b, 0)) return a; return sf(rbin(Z3_mk_add, x, y), w);
      case Instruction::FSub: if (isc(b, 0)) return a; return sf(rbin(Z3_mk_sub, x, y), w);
      case Instruction::FMul: if (isc(a, 0) || isc(b, 0)) return cf(0, w); if (isc(a, 1)) return b; if (isc(b, 1)) return a; return sf(rbin(Z3_mk_mul, x, y), w);
      case Instruction::FDiv: if (isc(a, 0)) return a; if (isc(b, 1)) return a; if (b.k == CF && fval(b) != 0) { E inv = Simp(Z3_mk_div(Z, real_of(1.0).a, y.a)); return sf(rbin(Z3_mk_mul, x, inv), w); }
        { // q * y = x with y != 0 (division by zero is outside the real-arithmetic claim)
          std::shared_ptr<Model> mm[2]; E nz = Simp(Not(Eq(y, real_of(0)))); int k = boolv(nz); if (k == 0) { s.dead = true; ++ST.killed; return cf(0, w); }
          if (k < 0) { add(s, nz); if (evalb(s, nz) != 1) s.model.reset(); }
          E xs = a.k == CF ? real_of(1) : Simp(x), ys = Simp(y); E q; bool have = false;
          for (auto &t : s.quots) if (Z3_is_eq_ast(Z, t.first.first.a, xs.a) && Z3_is_eq_ast(Z, t.first.second.a, ys.a)) { q = t.second; have = true; }
          if (!have) { q = freshf(w, "quot"); E d = Eq(rbin(Z3_mk_mul, q, y), xs); add(s, d); s.model.reset(); s.quots.push_back({{xs, ys}, q}); }
          return a.k == CF && fval(a) != 1 ? sf(rbin(Z3_mk_mul, x, q), w) : sf(q, w); }
      default: limits.insert("frem on reals"); s.dead = true; return cf(0, w);
      }
    }
    E rm = rne();
    switch (opc) { case Instruction::FAdd: return sf(Z3_mk_fpa_add(Z, rm.a, x.a, y.a), w); case Instruction::FSub: return sf(Z3_mk_fpa_sub(Z, rm.a, x.a, y.a), w); case Instruction::FMul: return sf(Z3_mk_fpa_mul(Z, rm.a, x.a, y.a), w); case Instruction::FDiv: return sf(Z3_mk_fpa_div(Z, rm.a, x.a, y.a), w); default: limits.insert("frem"); s.dead = true; return cf(0, w); }
  }
  a = toint(s, a, w); b = toint(s, b, w);
  bool isdiv = opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem;
  if (isdiv) { if (b.k == CI) { if (!b.c) { die(s, "integer division by zero"); return ci(0, w); } } else if (!require(s, Not(Eq(b.e, bvc(0, w))), "integer division by zero")) return ci(0, w); }
  if (a.k == CI && b.k == CI && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t p = sx(x, w), q = sx(y, w);
    switch (opc) {
    case Instruction::Add: return ci(x + y, w); case Instruction::Sub: return ci(x - y, w); case Instruction::Mul: return ci(x * y, w);
    case Instruction::UDiv: return ci(x / y, w); case Instruction::URem: return ci(x % y, w);
    case Instruction::SDiv: if (q == -1) return ci(0 - x, w); return ci(p / q, w); case Instruction::SRem: if (q == -1) return ci(0, w); return ci(p % q, w);
    case Instruction::And: return ci(x & y, w); case Instruction::Or: return ci(x | y, w); case Instruction::Xor: return ci(x ^ y, w);
    case Instruction::Shl: return ci(y >= w ? 0 : x << y, w); case Instruction::LShr: return ci(y >= w ? 0 : x >> y, w); case Instruction::AShr: return ci(y >= w ? (p < 0 ? -1 : 0) : p >> y, w);
    }
  }
  auto cz = [](const Val &v, uint64_t k) { return v.k == CI && v.c == k; };
  switch (opc) { case Instruction::Add: case Instruction::Or: case Instruction::Xor: if (cz(a, 0)) return b; if (cz(b, 0)) return a; break; case Instruction::Sub: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: if (cz(b, 0)) return a; break; case Instruction::Mul: if (cz(a, 0) || cz(b, 0)) return ci(0, w); if (cz(a, 1)) return b; if (cz(b, 1)) return a; break; case Instruction::And: if (cz(a, 0) || cz(b, 0)) return ci(0, w); if (w <= 64 && cz(a, msk(w))) return b; if (w <= 64 && cz(b, msk(w))) return a; break; default: break; }
  E x = ie(a), y = ie(b); Z3_ast r = nullptr;
  if ((opc == Instruction::Add || opc == Instruction::Mul || opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor) && Z3_get_ast_id(Z, x.a) > Z3_get_ast_id(Z, y.a)) std::swap(x, y); // canonical operand order
  if (w == 1) { E p = be(a), q = be(b); switch (opc) { case Instruction::And: return b2v(And(p, q)); case Instruction::Or: return b2v(Or(p, q)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: { if (b.k == CI) return b2v(b.c ? Not(p) : p); if (a.k == CI) return b2v(a.c ? Not(q) : q); E z = Z3_mk_xor(Z, p.a, q.a); return b2v(z); } default: break; } }
  if (canon && w > 1 && w <= 64) {
    if (opc == Instruction::Add || opc == Instruction::Sub) return si(canon_add(ie(a), ie(b), opc == Instruction::Sub, w), w);
    if (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor) { E z = canon_bit(opc, x, y, w); if (z) return si(z, w); }
    if ((opc == Instruction::Shl || opc == Instruction::LShr) && b.k == CI && b.c && b.c < w) return si(canon_shift(ie(a), opc == Instruction::Shl ? (int)b.c : -(int)b.c, w), w);
  }
  switch (opc) {
  case Instruction::Add: r = Z3_mk_bvadd(Z, x.a, y.a); break; case Instruction::Sub: r = Z3_mk_bvsub(Z, x.a, y.a); break; case Instruction::Mul: r = Z3_mk_bvmul(Z, x.a, y.a); break;
  case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x.a, y.a); break; case Instruction::URem: r = Z3_mk_bvurem(Z, x.a, y.a); break; case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x.a, y.a); break; case Instruction::SRem: r = Z3_mk_bvsrem(Z, x.a, y.a); break;
  case Instruction::And: r = Z3_mk_bvand(Z, x.a, y.a); break; case Instruction::Or: r = Z3_mk_bvor(Z, x.a, y.a); break; case Instruction::Xor: r = Z3_mk_bvxor(Z, x.a, y.a); break;
  case Instruction::Shl: r = Z3_mk_bvshl(Z, x.a, y.a); break; case Instruction::LShr: r = Z3_mk_bvlshr(Z, x.a, y.a); break; case Instruction::AShr: r = Z3_mk_bvashr(Z, x.a, y.a); break;
  default: limits.insert("binary op"); s.dead = true; return ci(0, w);
  }
  E h(r); return si(Simp(h), w);
}
static E real_num(long double d) { char buf[64]; snprintf(buf, 64, "%.0Lf", d); return E(Z3_mk_numeral(Z, buf, Z3_mk_real_sort(Z))); }
// value of a bit-vector as a real: weighted sum of the bits; equal bits (sign extension) are merged
static E bits_real(const E &e, unsigned w, bool sg, double &lo, double &hi) {
  std::vector<std::pair<E, long double>> bits; long double k0 = 0; E one = bvc(1, 1);
  for (unsigned i = 0; i < w; ++i) {
    long double wt = ldexpl(1.0L, i); if (sg && i == w - 1) wt = -wt;
    E b = Z3_mk_extract(Z, i, i, e.a); b = Simp(b);
    if (Z3_get_ast_kind(Z, b.a) == Z3_NUMERAL_AST) { uint64_t v = 0; Z3_get_numeral_uint64(Z, b.a, &v); if (v) k0 += wt; continue; }
    bool f = false; for (auto &x : bits) if (Z3_is_eq_ast(Z, x.first.a, b.a)) { x.second += wt; f = true; break; }
    if (!f) bits.push_back({b, wt});
  }
  std::vector<E> ts{real_num(k0)}; E z = real_num(0); lo = hi = (double)k0;
  for (auto &x : bits) if (x.second != 0) { ts.push_back(Ite(Eq(x.first, one), real_num(x.second), z)); (x.second < 0 ? lo : hi) += (double)x.second; }
  std::vector<Z3_ast> v; for (auto &e2 : ts) v.push_back(e2.a);
  return E(Z3_mk_add(Z, v.size(), v.data()));
}
// the same through sums, differences and constant multiples that cannot wrap around
static E bv_real(const E &e, unsigned w, bool sg, double &lo, double &hi, int d = 0) {
  double mn = sg ? -std::ldexp(1.0, w - 1) : 0, mx = std::ldexp(1.0, sg ? w - 1 : w) - 1;
  if (d < 12 && w <= 64 && Z3_get_ast_kind(Z, e.a) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, e.a); unsigned n = Z3_get_app_num_args(Z, ap); auto arg = [&](unsigned i) { return E(Z3_get_app_arg(Z, ap, i)); }; auto W = [](const E &x) { return Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x.a)); };
    auto snum = [&](const E &x, double &v) { if (Z3_get_ast_kind(Z, x.a) != Z3_NUMERAL_AST) return false; uint64_t u; if (!Z3_get_numeral_uint64(Z, x.a, &u)) return false; int64_t q = (int64_t)(u << (64 - w)) >> (64 - w); if (q > (1LL << 50) || q < -(1LL << 50)) return false; v = (double)q; return true; };
    switch (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap))) {
    case Z3_OP_ZERO_EXT: return bv_real(arg(0), W(arg(0)), false, lo, hi, d + 1);
    case Z3_OP_SIGN_EXT: if (sg) return bv_real(arg(0), W(arg(0)), true, lo, hi, d + 1); break;
    case Z3_OP_CONCAT: if (n == 2) { E h = arg(0); uint64_t u; if (Z3_get_ast_kind(Z, h.a) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, h.a, &u) && !u) return bv_real(arg(1), W(arg(1)), false, lo, hi, d + 1); } break;
    case Z3_OP_ITE: { double l1, h1; E x = bv_real(arg(1), w, sg, lo, hi, d + 1), y = bv_real(arg(2), w, sg, l1, h1, d + 1); lo = std::min(lo, l1); hi = std::max(hi, h1); return Ite(arg(0), x, y); }
    case Z3_OP_BADD: { std::vector<E> ts; lo = hi = 0; for (unsigned i = 0; i < n; ++i) { double l, h, c; E x = arg(i); if (snum(x, c)) { ts.push_back(real_num(c)); lo += c; hi += c; } else { ts.push_back(bv_real(x, w, true, l, h, d + 1)); lo += l; hi += h; } }
      if (lo >= mn && hi <= mx) { std::vector<Z3_ast> v; for (auto &x : ts) v.push_back(x.a); return Z3_mk_add(Z, v.size(), v.data()); } break; }
    case Z3_OP_BSUB: if (n == 2) { double l, h; E x = bv_real(arg(0), w, true, lo, hi, d + 1), y = bv_real(arg(1), w, true, l, h, d + 1); lo -= h; hi -= l; if (lo >= mn && hi <= mx) { Z3_ast v[2] = {x.a, y.a}; return Z3_mk_sub(Z, 2, v); } } break;
    case Z3_OP_BSHL: { double c, l, h; if (snum(arg(1), c) && c >= 0 && c < 32) { double m = std::ldexp(1.0, (int)c); E y = bv_real(arg(0), w, true, l, h, d + 1); lo = m * l; hi = m * h; if (lo >= mn && hi <= mx) { E q = real_num(m); Z3_ast v[2] = {q.a, y.a}; return Z3_mk_mul(Z, 2, v); } } break; }
    case Z3_OP_BNEG: { double l, h; E x = bv_real(arg(0), w, true, l, h, d + 1); lo = -h; hi = -l; if (lo >= mn && hi <= mx) return Z3_mk_unary_minus(Z, x.a); break; }
    case Z3_OP_BMUL: if (n == 2) { double c, l, h; E k = arg(0), x = arg(1); if (!snum(k, c)) std::swap(k, x); if (snum(k, c)) { E y = bv_real(x, w, true, l, h, d + 1); lo = std::min(c * l, c * h); hi = std::max(c * l, c * h); if (lo >= mn && hi <= mx) { E q = real_num(c); Z3_ast v[2] = {q.a, y.a}; return Z3_mk_mul(Z, 2, v); } } } break;
    default: break;
    }
  }
  return bits_real(e, w, sg, lo, hi);
}
static E real_to_int_trunc(const E &x) { // Int expr, toward zero
  E z = real_of(0); E fl = Z3_mk_real2int(Z, x.a); E neg = Z3_mk_unary_minus(Z, x.a); E fn = Z3_mk_real2int(Z, neg.a); E nn = Z3_mk_unary_minus(Z, fn.a); return Ite(Z3_mk_ge(Z, x.a, z.a), fl, nn);
}
// interval of a real term from its shape alone
static bool rbounds(Z3_ast a, double &lo, double &hi, std::unordered_map<Z3_ast, std::pair<double, double>> &memo) {
  auto it = memo.find(a); if (it != memo.end()) { lo = it->second.first; hi = it->second.second; return lo <= hi; }
  bool ok = false; lo = 1; hi = 0;
  if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) { lo = hi = Z3_get_numeral_double(Z, a); ok = true; }
  else if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, ap); double l, h; auto arg = [&](unsigned i) { return rbounds(Z3_get_app_arg(Z, ap, i), l, h, memo); };
    switch (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap))) {
    case Z3_OP_ADD: ok = true; lo = hi = 0; for (unsigned i = 0; ok && i < n; ++i) { ok = arg(i); lo += l; hi += h; } break;
    case Z3_OP_SUB: ok = arg(0); lo = l; hi = h; for (unsigned i = 1; ok && i < n; ++i) { ok = arg(i); lo -= h; hi -= l; } break;
    case Z3_OP_UMINUS: ok = arg(0); lo = -h; hi = -l; break;
    case Z3_OP_MUL: ok = true; lo = hi = 1; for (unsigned i = 0; ok && i < n; ++i) { ok = arg(i); double c[4] = {lo * l, lo * h, hi * l, hi * h}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); } break;
    case Z3_OP_DIV: { double l0, h0; ok = arg(0); l0 = l; h0 = h; ok = ok && arg(1) && l == h && l != 0; if (ok) { double p = l0 / l, q = h0 / l; lo = std::min(p, q); hi = std::max(p, q); } break; }
    case Z3_OP_ITE: { ok = arg(1); lo = l; hi = h; ok = ok && arg(2); lo = std::min(lo, l); hi = std::max(hi, h); break; }
    default: break;
    }
  }
  if (!ok) { lo = 1; hi = 0; }
  memo[a] = {lo, hi}; return ok;
}
static E bitsum(const E &t, unsigned k, bool sg) { // value of a k-bit vector as a real
  std::vector<E> ts; E z = real_of(0), one = bvc(1, 1);
  for (unsigned i = 0; i < k; ++i) { E b = Z3_mk_extract(Z, i, i, t.a); double wt = std::ldexp(1.0, i); if (sg && i == k - 1) wt = -wt; ts.push_back(Ite(Eq(Simp(b), one), real_of(wt), z)); }
  std::vector<Z3_ast> v; for (auto &e : ts) v.push_back(e.a); return Z3_mk_add(Z, v.size(), v.data());
}
static bool only_cell(State &s, const E &x, double &c) { // does the path leave one integer part?
  if (!s.model) { E t = Z3_mk_true(Z); std::shared_ptr<Model> m; if (sat(s, t, &m) != 1) return false; s.model = m; }
  Z3_ast r; if (!Z3_model_eval(Z, s.model->m, x.a, true, &r)) return false; E h(r); if (Z3_get_ast_kind(Z, h.a) != Z3_NUMERAL_AST) return false;
  double d = std::floor(Z3_get_numeral_double(Z, h.a)); if (!(std::fabs(d) < 1 << 20)) return false;
  E lo = real_of(d), hi = real_of(d + 1); E c0 = Or(Z3_mk_lt(Z, x.a, lo.a), Z3_mk_ge(Z, x.a, hi.a)); if (sat(s, c0) != 0) return false; c = d; return true;
}
static bool real_cast(State &s, const E &x0, unsigned dw, Val &out) { // truncation of a bounded real: a fresh narrow vector with a linear definition
  E x = Simp(x0); for (auto &p : s.rcasts) if (Z3_is_eq_ast(Z, p.first.a, x.a) && Z3_get_bv_sort_size(Z, Z3_get_sort(Z, p.second.a)) == dw) { out = si(p.second, dw); return true; }
  double lo, hi; std::unordered_map<Z3_ast, std::pair<double, double>> memo; bool ok = rbounds(x0.a, lo, hi, memo);
  if (!ok || hi >= 1 << 20 || lo <= -(1 << 20)) {
    ok = false;
    for (int k = 10; k <= 20 && !ok; k += 10) { E b = real_of(std::ldexp(1.0, k)), nb = real_of(-std::ldexp(1.0, k)); E c = Or(Z3_mk_ge(Z, x.a, b.a), Z3_mk_le(Z, x.a, nb.a)); if (sat(s, c) == 0) { ok = true; lo = -std::ldexp(1.0, k); hi = -lo; } }
    if (ok) { E nz = real_of(-1); E c = Z3_mk_le(Z, x.a, nz.a); if (sat(s, c) == 0) lo = 0; }
  }
  if (!ok) return false;
  bool neg = lo <= -1; unsigned k = 1; double m = std::max(std::fabs(lo), std::fabs(hi)) + 1; while (std::ldexp(1.0, k) <= m) ++k; if (neg) ++k;
  if (k >= 32) return false;
  E t = freshbv(k, "cast"); E R = bitsum(t, k, neg); E one = real_of(1), z = real_of(0); Z3_ast v1[2] = {R.a, one.a}, v2[2] = {R.a, one.a}; E R1 = Z3_mk_add(Z, 2, v1), Rm = Z3_mk_sub(Z, 2, v2);
  E pos = And(Z3_mk_le(Z, R.a, x.a), Z3_mk_lt(Z, x.a, R1.a)); E ng = And(Z3_mk_lt(Z, Rm.a, x.a), Z3_mk_le(Z, x.a, R.a));
  if (!neg) { E zr = Eq(t, bvc(0, k)); ng = lo >= 0 ? Z3_mk_false(Z) : zr.a; }
  E d = lo >= 0 ? pos : Ite(Z3_mk_ge(Z, x.a, z.a), pos, ng); s.pend.push_back({t, d});
  E w = k == dw ? t.a : k > dw ? Z3_mk_extract(Z, dw - 1, 0, t.a) /* what the hardware does */ : neg ? Z3_mk_sign_ext(Z, dw - k, t.a) : Z3_mk_zero_ext(Z, dw - k, t.a); s.rcasts.push_back({x, w}); out = si(w, dw); return true;
}
static bool real_floor(State &s, const E &x0, E &out) { // floor of a bounded real, the same way; its cast to int is known
  E x = Simp(x0); for (auto &p : s.floors) if (Z3_is_eq_ast(Z, p.first.a, x.a)) { out = p.second; return true; }
  double cell; if (only_cell(s, x, cell)) { out = real_of(cell); s.floors.push_back({x, out}); return true; }
  double lo, hi; std::unordered_map<Z3_ast, std::pair<double, double>> memo; bool ok = rbounds(x0.a, lo, hi, memo) && hi < 1 << 20 && lo > -(1 << 20);
  for (int k = 5; k <= 20 && !ok; k += 5) { E b = real_of(std::ldexp(1.0, k)), nb = real_of(-std::ldexp(1.0, k)); E c = Or(Z3_mk_ge(Z, x.a, b.a), Z3_mk_le(Z, x.a, nb.a)); if (sat(s, c) == 0) { ok = true; lo = -std::ldexp(1.0, k); hi = -lo; } }
  if (!ok) return false;
  unsigned k = 2; double m = std::max(std::fabs(lo), std::fabs(hi)) + 2; while (std::ldexp(1.0, k - 1) <= m) ++k;
  E t = freshbv(k, "floor"), R = bitsum(t, k, true), one = real_of(1); Z3_ast v1[2] = {R.a, one.a}; E R1 = Z3_mk_add(Z, 2, v1);
  s.pend.push_back({t, And(Z3_mk_le(Z, R.a, x.a), Z3_mk_lt(Z, x.a, R1.a))});
  out = R; s.floors.push_back({x, R}); E rs = Simp(R); for (unsigned dw : {32u, 64u}) { E w = Z3_mk_sign_ext(Z, dw - k, t.a); s.rcasts.push_back({rs, w}); } return true;
}
static Val doCast(State &s, unsigned opc, const Val &a0, Type *stt, Type *dt) {
  if (auto *vt = dyn_cast<FixedVectorType>(dt)) {
    if (opc != Instruction::BitCast && a0.k == AGG) { Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(); for (auto &x : *a0.g) r.g->push_back(doCast(s, opc, x, cast<VectorType>(stt)->getElementType(), vt->getElementType())); return r; }
  }
  if (opc == Instruction::BitCast) {
    if (stt == dt) return a0;
    if (!stt->isVectorTy() && !dt->isVectorTy()) { if (a0.k == UND) return undefval(dt); if (dt->isFloatTy() || dt->isDoubleTy()) return tofloat(s, a0, bits(dt)); return toint(s, a0, bits(dt)); }
    Obj tmp; tmp.b.resize(DL->getTypeStoreSize(stt)); storet(s, tmp, 0, a0, stt); return loadt(s, tmp, 0, dt);
  }
  unsigned dw = bits(dt), sw = bits(stt); Val a = fix(s, a0, stt);
  switch (opc) {
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
    bool sg = opc == Instruction::SExt;
    if (a.k == CI && dw <= 64) return ci(sg ? (uint64_t)sx(a.c, sw) : a.c, dw);
    if (dw == sw) return a; if (a.k == CF || a.k == SF) a = toint(s, a, sw);
    E e = ie(a);
    if (dw < sw) return si(Simp(Z3_mk_extract(Z, dw - 1, 0, e.a)), dw);
    return si(Simp(sg ? Z3_mk_sign_ext(Z, dw - sw, e.a) : Z3_mk_zero_ext(Z, dw - sw, e.a)), dw);
  }
  case Instruction::FPExt: case Instruction::FPTrunc: if (a.k == CF) return cf(fval(a), dw); if (realmode) return sf(a.e, dw); { E rm = rne(); return sf(Z3_mk_fpa_to_fp_float(Z, rm.a, a.e.a, fsort(dw)), dw); }
  case Instruction::SIToFP: case Instruction::UIToFP: {
    bool sg = opc == Instruction::SIToFP;
    if (a.k == CI) return dw == 32 ? (sg ? cf((float)sx(a.c, sw), 32) : cf((float)a.c, 32)) : (sg ? cf((double)sx(a.c, sw), 64) : cf((double)a.c, 64));
    if (realmode) { double lo, hi; return sf(bv_real(a.e, a.w, sg, lo, hi), dw); }
    E rm = rne(); return sf(sg ? Z3_mk_fpa_to_fp_signed(Z, rm.a, a.e.a, fsort(dw)) : Z3_mk_fpa_to_fp_unsigned(Z, rm.a, a.e.a, fsort(dw)), dw);
  }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    bool sg = opc == Instruction::FPToSI;
    if (a.k == CF) { double d = fval(a); double lim = std::ldexp(1.0, sg ? dw - 1 : dw); if (!(d < lim && d >= (sg ? -lim - 1 : -1.0))) { return si(freshbv(dw, "badcast"), dw); } return sg ? ci((uint64_t)(int64_t)d, dw) : ci((uint64_t)d, dw); }
    if (realmode) { Val rc; if (real_cast(s, a.e, dw, rc)) return rc; E i = real_to_int_trunc(a.e); return si(Z3_mk_int2bv(Z, dw, i.a), dw); }
    E rm = Z3_mk_fpa_rtz(Z); return si(sg ? Z3_mk_fpa_to_sbv(Z, rm.a, a.e.a, dw) : Z3_mk_fpa_to_ubv(Z, rm.a, a.e.a, dw), dw);
  }
  }
  limits.insert("cast"); s.dead = true; return ci(0, dw);
}
static Val doCmp(State &s, unsigned pred, const Val &a0, const Val &b0) {
  Val a = a0, b = b0;
  if (a.k == AGG) { Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.g->size(); ++i) r.g->push_back(doCmp(s, pred, (*a.g)[i], (*b.g)[i])); return r; }
  if (CmpInst::isFPPredicate((CmpInst::Predicate)pred)) {
    unsigned w = a.w ? a.w : b.w; if (a.k == UND) a = sf(freshf(w, "undef"), w); if (b.k == UND) b = sf(freshf(w, "undef"), w);
    unsigned p = pred; // bit0 eq, bit1 gt, bit2 lt, bit3 uno
    if (a.k == CF && b.k == CF) { double x = fval(a), y = fval(b); bool u = std::isnan(x) || std::isnan(y); int r = u ? 8 : x == y ? 1 : x > y ? 2 : 4; return ci((p & r) ? 1 : 0, 1); }
    E x = fe(a), y = fe(b);
    if (realmode) {
      if ((a.k == CF && !std::isfinite(fval(a))) || (b.k == CF && !std::isfinite(fval(b)))) { double v = a.k == CF ? fval(a) : fval(b); if (std::isnan(v)) return ci((p & 8) ? 1 : 0, 1); bool alt = (a.k == CF) == (v < 0); /* a<b? */ return ci((p & (alt ? 4 : 2)) ? 1 : 0, 1); }
      int q = p & 7; if (q == 7) return ci(1, 1); if (q == 0) return ci(0, 1);
      E r; switch (q) { case 1: r = Eq(x, y); break; case 2: r = Z3_mk_gt(Z, x.a, y.a); break; case 3: r = Z3_mk_ge(Z, x.a, y.a); break; case 4: r = Z3_mk_lt(Z, x.a, y.a); break; case 5: r = Z3_mk_le(Z, x.a, y.a); break; default: r = Not(Eq(x, y)); }
      return b2v(r);
    }
    E nan = Or(Z3_mk_fpa_is_nan(Z, x.a), Z3_mk_fpa_is_nan(Z, y.a)); E r = Z3_mk_false(Z);
    if (p & 1) r = Or(r, Z3_mk_fpa_eq(Z, x.a, y.a)); if (p & 2) r = Or(r, Z3_mk_fpa_gt(Z, x.a, y.a)); if (p & 4) r = Or(r, Z3_mk_fpa_lt(Z, x.a, y.a)); if (p & 8) r = Or(r, nan);
    return b2v(Simp(r));
  }
  unsigned w = a.w ? a.w : b.w; if (a.k == UND) a = si(freshbv(w, "undef"), w); if (b.k == UND) b = si(freshbv(w, "undef"), w);
  if (a.k == CF || a.k == SF) a = toint(s, a, w); if (b.k == CF || b.k == SF) b = toint(s, b, w);
  if (a.k == CI && b.k == CI) { uint64_t x = a.c, y = b.c; int64_t p = sx(x, w), q = sx(y, w); bool r = false; switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; } return ci(r, 1); }
  E x = ie(a), y = ie(b); Z3_ast r = nullptr;
  if (w == 1 && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE)) { E z = Z3_mk_iff(Z, be(a).a, be(b).a); if (pred == CmpInst::ICMP_NE) z = Not(z); return b2v(Simp(z)); }
  switch (pred) { case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: { E q = Eq(x, y); if (pred == CmpInst::ICMP_NE) q = Not(q); return b2v(Simp(q)); } case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x.a, y.a); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x.a, y.a); break; case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x.a, y.a); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x.a, y.a); break; case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x.a, y.a); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x.a, y.a); break; case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x.a, y.a); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x.a, y.a); break; }
  E h(r); if (pred == CmpInst::ICMP_NE) h = Not(h); return b2v(Simp(h));
}
static Val selectv(State &s, const Val &c, const Val &a, const Val &b, Type *t) {
  if (c.k == AGG) { Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < c.g->size(); ++i) r.g->push_back(selectv(s, (*c.g)[i], (*a.g)[i], (*b.g)[i], cast<VectorType>(t)->getElementType())); return r; }
  if (c.k == CI) return c.c ? a : b; if (c.k == UND) return a;
  if (a.k == AGG) { Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.g->size(); ++i) { Type *et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType(); r.g->push_back(selectv(s, c, (*a.g)[i], (*b.g)[i], et)); } return r; }
  if (a.k == UND) return b; if (b.k == UND) return a;
  if (a.k == CI && b.k == CI && a.c == b.c) return a; if (a.k == CF && b.k == CF && a.c == b.c) return a;
  bool isf = t->isFloatTy() || t->isDoubleTy(); unsigned w = bits(t);
  if (w == 1) { E cc = be(c); return b2v(Simp(Ite(cc, be(a), be(b)))); }
  return ite_val(be(c), isf ? tofloat(s, a, w) : toint(s, a, w), isf ? tofloat(s, b, w) : toint(s, b, w), w, isf);
}

// ---------------------------------------------------------------- control
static void jump(State &s, BasicBlock *to) {
  Frame &f = s.fr.back(); BasicBlock *from = f.bb; std::vector<std::pair<const Value *, Val>> ph;
  for (auto &I : *to) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; ph.push_back({p, op(s, p->getIncomingValueForBlock(from))}); }
  for (auto &x : ph) f.r[x.first] = std::move(x.second);
  f.prev = from; f.bb = to; f.it = to->getFirstNonPHI()->getIterator();
}
static void popframe(State &s) { for (auto a : s.fr.back().allocas) { auto it = s.mem.find(a); if (it != s.mem.end()) { Obj &o = own(it->second); o.freed = true; o.b.clear(); o.b.shrink_to_fit(); o.b.resize(0); } } s.fr.pop_back(); }
static void setret(State &s, CallBase *cb, const Val &v) { if (!cb->getType()->isVoidTy()) s.fr.back().r[cb] = v; }
static void advance(State &s, CallBase *cb) { Frame &f = s.fr.back(); if (auto *iv = dyn_cast<InvokeInst>(cb)) jump(s, iv->getNormalDest()); else ++f.it; }
static void end_path(State &s) {
  if (leakcheck) for (auto &m : s.mem) if (m.second->kind == O_HEAP && !m.second->freed) { die(s, "memory leak: " + m.second->tag); break; }
  ++ST.paths; s.dead = true;
}
static uint64_t argc64(State &s, CallBase *cb, unsigned i, const State &before, bool &ok) { Val v = op(s, cb->getArgOperand(i)); ok = concretize(s, v, before); return v.c; }
static Str cstr(State &s, uint64_t a) { Str r; ObjP *p = findobj(s, a); if (!p) return "?"; Obj &o = **p; for (uint64_t i = a - o.base; i < o.size && o.b[i].st == 1 && o.b[i].c; ++i) r += (char)o.b[i].c; return r; }
static bool copybytes(State &s, uint64_t d, uint64_t sr, uint64_t n, bool overlap_ok) {
  if (!n) return true; ObjP *ps = resolve(s, sr, n, false, "read"); if (!ps) return false; std::vector<Byte> t((*ps)->b.begin() + (sr - (*ps)->base), (*ps)->b.begin() + (sr - (*ps)->base + n));
  ObjP *pd = resolve(s, d, n, true, "write"); if (!pd) return false;
  if (!overlap_ok && d != sr && d < sr + n && sr < d + n) { die(s, "memcpy with overlapping regions"); return false; }
  Obj &o = own(*pd); std::copy(t.begin(), t.end(), o.b.begin() + (d - o.base)); return true;
}
static uint64_t do_malloc(State &s, uint64_t n, bool zero, unsigned align) {
  if (n > (1ULL << 28)) return 0; // refuse huge requests like a real allocator
  ObjP o = mkobj(s, n, O_HEAP, align, "heap block from " + s.fr.back().f->getName().str() + (s.fr.size() > 1 ? " < " + s.fr[s.fr.size() - 2].f->getName().str() : "") + (s.fr.size() > 2 ? " < " + s.fr[s.fr.size() - 3].f->getName().str() : ""));
  if (zero) { Obj &q = *s.mem[o->base]; for (auto &b : q.b) { b.st = 1; b.c = 0; } } return o->base;
}
static bool do_free(State &s, uint64_t a) {
  if (!a) return true; ObjP *p = findobj(s, a); if (!p || (*p)->kind != O_HEAP || (*p)->base != a) { die(s, "free of something that is not an allocation"); return false; }
  if ((*p)->freed) { die(s, "double free (" + (*p)->tag + ")"); return false; } Obj &o = own(*p); o.freed = true; o.b.clear(); return true;
}
static E Som(const E &e) { if (depth(e.a) >= 60) return Simp(e); static Z3_params ps = nullptr; if (!ps) { ps = Z3_mk_params(Z); Z3_params_inc_ref(Z, ps); Z3_params_set_bool(Z, ps, Z3_mk_string_symbol(Z, "som"), true); } return E(Z3_simplify_ex(Z, e.a, ps)); }
static bool rnum(const E &e, double &d) { if (Z3_get_ast_kind(Z, e.a) != Z3_NUMERAL_AST) return false; Str t = Z3_get_numeral_string(Z, e.a); size_t p = t.find('/'); long double n = strtold(t.c_str(), 0); if (p != Str::npos) n /= strtold(t.c_str() + p + 1, 0); d = (double)n; return true; }
static Val symsqrt(State &s, const Val &x) {
  if (!realmode) { E rm = rne(); return sf(Z3_mk_fpa_sqrt(Z, rm.a, x.e.a), x.w); }
  E xs = Som(x.e); double q;
  if (rnum(xs, q) && q >= 0) return cf(std::sqrt(q), x.w);
  if (Z3_get_ast_kind(Z, xs.a) == Z3_APP_AST) { // c * v * v is |v| times the root of c
    Z3_app ap = Z3_to_app(Z, xs.a); double c = 1; std::vector<Z3_ast> f; bool ok = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_MUL;
    std::function<void(Z3_ast)> flat = [&](Z3_ast t) { double d; E te(t); if (rnum(te, d)) { c *= d; return; } if (Z3_get_ast_kind(Z, t) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, t))) == Z3_OP_MUL) { for (unsigned i = 0; i < Z3_get_app_num_args(Z, Z3_to_app(Z, t)); ++i) flat(Z3_get_app_arg(Z, Z3_to_app(Z, t), i)); return; } f.push_back(t); };
    if (ok) { flat(xs.a); if (c > 0 && f.size() == 2 && Z3_is_eq_ast(Z, f[0], f[1])) { E v(f[0]), z = real_of(0), k = real_of(std::sqrt(c)); E av = Ite(Z3_mk_ge(Z, v.a, z.a), v, Z3_mk_unary_minus(Z, v.a)); Z3_ast m[2] = {k.a, av.a}; return sf(Z3_mk_mul(Z, 2, m), x.w); } }
  }
  for (auto &p : s.sqrts) if (Z3_is_eq_ast(Z, p.first.a, xs.a)) return sf(p.second, x.w);
  E r = freshf(x.w, "sqrt"); E z = real_of(0); Z3_ast v[2] = {r.a, r.a}; E rr = Z3_mk_mul(Z, 2, v); s.pend.push_back({r, Z3_mk_ge(Z, r.a, z.a)}); s.pend.push_back({r, Eq(rr, x.e)}); s.sqrts.push_back({xs, r}); return sf(r, x.w);
}
static Val mathfn(State &s, const Str &n, std::vector<Val> a, unsigned w, bool &known) {
  known = true; auto C = [&](size_t i) { return fval(a[i]); }; bool allc = true; for (auto &x : a) if (x.k != CF) allc = false;
  for (auto &x : a) if (x.k == UND) x = sf(freshf(w, "undef"), w);
  if (n == "fabs") { if (allc) return cf(std::fabs(C(0)), w); if (realmode) { E z = real_of(0); return sf(Ite(Z3_mk_ge(Z, a[0].e.a, z.a), a[0].e, Z3_mk_unary_minus(Z, a[0].e.a)), w); } return sf(Z3_mk_fpa_abs(Z, a[0].e.a), w); }
  if (n == "sqrt") { if (allc) return w == 32 ? cf(sqrtf((float)C(0)), 32) : cf(std::sqrt(C(0)), 64); return symsqrt(s, a[0]); }
  if (n == "floor" || n == "ceil" || n == "trunc" || n == "round" || n == "rint" || n == "nearbyint") {
    if (allc) { double d = C(0); return cf(n == "floor" ? std::floor(d) : n == "ceil" ? std::ceil(d) : n == "trunc" ? std::trunc(d) : n == "round" ? std::round(d) : std::nearbyint(d), w); }
    if (!realmode) { E rm = n == "floor" ? Z3_mk_fpa_rtn(Z) : n == "ceil" ? Z3_mk_fpa_rtp(Z) : n == "trunc" ? Z3_mk_fpa_rtz(Z) : n == "round" ? Z3_mk_fpa_rna(Z) : Z3_mk_fpa_rne(Z); return sf(Z3_mk_fpa_round_to_integral(Z, rm.a, a[0].e.a), w); }
    E fl; if (n == "floor" && real_floor(s, a[0].e, fl)) { if (Z3_get_ast_kind(Z, fl.a) == Z3_NUMERAL_AST) return cf(Z3_get_numeral_double(Z, fl.a), w); return sf(fl, w); } if (n == "ceil") { E m = Z3_mk_unary_minus(Z, a[0].e.a); if (real_floor(s, m, fl)) return sf(Z3_mk_unary_minus(Z, fl.a), w); }
    E x = a[0].e, i; if (n == "floor") i = Z3_mk_real2int(Z, x.a); else if (n == "ceil") { E m = Z3_mk_unary_minus(Z, x.a); E f = Z3_mk_real2int(Z, m.a); i = Z3_mk_unary_minus(Z, f.a); } else if (n == "trunc") i = real_to_int_trunc(x); else { E h = real_of(0.5); Z3_ast v[2] = {x.a, h.a}; E y = Z3_mk_add(Z, 2, v); i = Z3_mk_real2int(Z, y.a); }
    return sf(Z3_mk_int2real(Z, i.a), w);
  }
  if (n == "sin" || n == "cos") {
    if (allc) return cf(n == "sin" ? std::sin(C(0)) : std::cos(C(0)), w);
    if (realmode) { E x = Simp(a[0].e); for (auto &t : s.trig) if (Z3_is_eq_ast(Z, t.first.a, x.a)) return sf(n == "sin" ? t.second.first : t.second.second, w);
      E S = freshf(w, "sin"), K = freshf(w, "cos"); Z3_ast v1[2] = {S.a, S.a}, v2[2] = {K.a, K.a}; E p = Z3_mk_mul(Z, 2, v1), q = Z3_mk_mul(Z, 2, v2); Z3_ast v3[2] = {p.a, q.a}; E sum = Z3_mk_add(Z, 2, v3); s.pend.push_back({S, Eq(sum, real_of(1))}); s.pend.push_back({K, Eq(sum, real_of(1))}); s.trig.push_back({x, {S, K}}); return sf(n == "sin" ? S : K, w); }
  }
  if (n == "fma" || n == "fmuladd") { if (allc) return w == 32 ? cf((float)C(0) * (float)C(1) + (float)C(2), 32) : cf(C(0) * C(1) + C(2), 64); Val m = doBin(s, Instruction::FMul, a[0], a[1], w == 32 ? Type::getFloatTy(CX) : Type::getDoubleTy(CX), nullptr); return doBin(s, Instruction::FAdd, m, a[2], w == 32 ? Type::getFloatTy(CX) : Type::getDoubleTy(CX), nullptr); }
  if (n == "fmin" || n == "minnum" || n == "fmax" || n == "maxnum") { bool mn = n == "fmin" || n == "minnum"; if (allc) return cf(mn ? std::fmin(C(0), C(1)) : std::fmax(C(0), C(1)), w); if (realmode) { E x = fe(a[0]), y = fe(a[1]); E c = Z3_mk_le(Z, x.a, y.a); return sf(mn ? Ite(c, x, y) : Ite(c, y, x), w); } E x = fe(a[0]), y = fe(a[1]); return sf(mn ? Z3_mk_fpa_min(Z, x.a, y.a) : Z3_mk_fpa_max(Z, x.a, y.a), w); }
  if (n == "copysign") { if (allc) return cf(std::copysign(C(0), C(1)), w); }
  static const std::map<Str, double (*)(double)> one = {{"exp", ::exp}, {"log", ::log}, {"log2", ::log2}, {"log10", ::log10}, {"tan", ::tan}, {"acos", ::acos}, {"asin", ::asin}, {"atan", ::atan}, {"exp2", ::exp2}, {"cbrt", ::cbrt}};
  auto it = one.find(n); if (it != one.end()) { if (allc) return cf(it->second(C(0)), w); nobody.insert(n + " (unconstrained result)"); return sf(freshf(w, n.c_str()), w); }
  if (n == "pow") { if (allc) return cf(std::pow(C(0), C(1)), w); if (a[1].k == CF && fval(a[1]) == 2.0) return doBin(s, Instruction::FMul, a[0], a[0], w == 32 ? Type::getFloatTy(CX) : Type::getDoubleTy(CX), nullptr); nobody.insert("pow (unconstrained result)"); return sf(freshf(w, "pow"), w); }
  if (n == "atan2") { if (allc) return cf(std::atan2(C(0), C(1)), w); nobody.insert("atan2 (unconstrained result)"); return sf(freshf(w, "atan2"), w); }
  if (n == "fmod") { if (allc) return cf(std::fmod(C(0), C(1)), w); }
  if (n == "hypot") { if (allc) return cf(std::hypot(C(0), C(1)), w); }
  known = false; return Val();
}

// symbolic allocation size: requests beyond 2^28 bytes fail as one case, smaller ones are enumerated.
// returns 0: dead/requeued, 1: v concrete, 2: allocation fails
static int alloc_size(State &s, Val &v, const State &before) {
  if (v.k == CI) return v.c > (1ULL << 28) ? 2 : 1;
  if (v.k == UND) v = ci(0, 64);
  E big = Z3_mk_bvugt(Z, v.e.a, bvc(1ULL << 28, 64).a); std::shared_ptr<Model> mm[2]; int f = feas(s, big, mm);
  if (f == 0) { s.dead = true; return 0; }
  if (f == 3) { State o = before; add(o, Not(big)); o.model = mm[0]; ++ST.forks; work.push_back(std::move(o)); add(s, big); s.model = mm[1]; return 2; }
  if (f == 2) return 2;
  return concretize(s, v, before) ? 1 : 0;
}
// returns true if handled
static bool builtin(State &s, CallBase *cb, Function *F, const State &before) {
  Str n = F->getName().str(); bool ok = true; auto A = [&](unsigned i) { return op(s, cb->getArgOperand(i)); };
  auto ret = [&](const Val &v) { if (s.dead) return; setret(s, cb, v); advance(s, cb); };
  Type *rt = cb->getType();
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::invariant_start: case Intrinsic::sideeffect: advance(s, cb); return true;
    case Intrinsic::stacksave: ret(ci(0, 64)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
      Str k = "trap"; if (F->getIntrinsicID() == Intrinsic::ubsantrap) { unsigned id = cast<ConstantInt>(cb->getArgOperand(0))->getZExtValue(); static const char *nm[] = {"add overflow", "builtin unreachable", "cfi", "integer division overflow", "dynamic type cache miss", "float to int conversion out of range", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid value", "missing return", "multiplication overflow", "negation overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds index", "pointer overflow", "shift out of range", "subtraction overflow", "type mismatch", "alignment", "vla bound"}; k = id < 25 ? Str("undefined behaviour: ") + nm[id] : "undefined behaviour"; }
      die(s, k); return true; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t d = argc64(s, cb, 0, before, ok); if (!ok) return true; uint64_t r = argc64(s, cb, 1, before, ok); if (!ok) return true; uint64_t l = argc64(s, cb, 2, before, ok); if (!ok) return true; if (!copybytes(s, d, r, l, F->getIntrinsicID() == Intrinsic::memmove)) return true; advance(s, cb); return true; }
    case Intrinsic::memset: { uint64_t d = argc64(s, cb, 0, before, ok); if (!ok) return true; Val v = A(1); uint64_t l = argc64(s, cb, 2, before, ok); if (!ok) return true; if (l) { ObjP *p = resolve(s, d, l, true, "write"); if (!p) return true; Obj &o = own(*p); for (uint64_t i = 0; i < l; ++i) storescalar(o, d - o.base + i, v, Type::getInt8Ty(CX)); } advance(s, cb); return true; }
    case Intrinsic::expect: case Intrinsic::annotation: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret(A(0)); return true;
    case Intrinsic::is_constant: ret(ci(0, 1)); return true;
    case Intrinsic::objectsize: ret(ci(~0ULL, bits(rt))); return true;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { auto id = F->getIntrinsicID(); Val a = A(0), b = A(1); Val c = doCmp(s, id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT, a, b); ret(selectv(s, c, a, b, rt)); return true; }
    case Intrinsic::abs: { Val a = A(0); Val z = ci(0, bits(rt)); Val c = doCmp(s, CmpInst::ICMP_SLT, a, z); ret(selectv(s, c, doBin(s, Instruction::Sub, z, a, rt, nullptr), a, rt)); return true; }
    case Intrinsic::bswap: { Val a = A(0); unsigned w = bits(rt); if (a.k == CI) { uint64_t r = 0; for (unsigned i = 0; i < w / 8; ++i) r |= ((a.c >> (8 * i)) & 255) << (w - 8 - 8 * i); ret(ci(r, w)); } else { E acc; for (unsigned i = 0; i < w / 8; ++i) { E b = Z3_mk_extract(Z, 8 * i + 7, 8 * i, a.e.a); acc = acc ? E(Z3_mk_concat(Z, acc.a, b.a)) : b; } ret(si(Simp(acc), w)); } return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { bool L = F->getIntrinsicID() == Intrinsic::fshl; unsigned w = bits(rt); Val a = A(0), b = A(1), c = A(2); Val wm = ci(w, w); Val sh = doBin(s, Instruction::URem, c, wm, rt, nullptr); Val inv = doBin(s, Instruction::Sub, wm, sh, rt, nullptr); Val hi = L ? doBin(s, Instruction::Shl, a, sh, rt, nullptr) : doBin(s, Instruction::Shl, a, inv, rt, nullptr); Val lo = L ? doBin(s, Instruction::LShr, b, inv, rt, nullptr) : doBin(s, Instruction::LShr, b, sh, rt, nullptr); ret(doBin(s, Instruction::Or, hi, lo, rt, nullptr)); return true; }
    case Intrinsic::ctpop: { Val a = A(0); unsigned w = bits(rt); Val acc = ci(0, w); for (unsigned i = 0; i < w; ++i) { Val b = doBin(s, Instruction::And, doBin(s, Instruction::LShr, a, ci(i, w), rt, nullptr), ci(1, w), rt, nullptr); acc = doBin(s, Instruction::Add, acc, b, rt, nullptr); } ret(acc); return true; }
    case Intrinsic::ctlz: case Intrinsic::cttz: { bool L = F->getIntrinsicID() == Intrinsic::ctlz; Val a = A(0); unsigned w = bits(rt); Val acc = ci(w, w); for (unsigned k = 0; k < w; ++k) { unsigned i = L ? k : w - 1 - k; Val b = doBin(s, Instruction::And, doBin(s, Instruction::LShr, a, ci(i, w), rt, nullptr), ci(1, w), rt, nullptr); acc = selectv(s, doCmp(s, CmpInst::ICMP_NE, b, ci(0, w)), ci(L ? w - 1 - i : i, w), acc, rt); } ret(acc); return true; }
    case Intrinsic::usub_sat: { Val a = A(0), b = A(1); ret(selectv(s, doCmp(s, CmpInst::ICMP_UGT, a, b), doBin(s, Instruction::Sub, a, b, rt, nullptr), ci(0, bits(rt)), rt)); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
      auto id = F->getIntrinsicID(); Type *t = cast<StructType>(rt)->getElementType(0); unsigned w = bits(t); Val a = fix(s, A(0), t), b = fix(s, A(1), t); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; unsigned opc = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Instruction::Add : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Instruction::Sub : Instruction::Mul;
      Val r = doBin(s, opc, a, b, t, nullptr), ov;
      if (a.k == CI && b.k == CI && w <= 64) { __int128 x = sg ? (__int128)sx(a.c, w) : (__int128)a.c, y = sg ? (__int128)sx(b.c, w) : (__int128)b.c, z = opc == Instruction::Add ? x + y : opc == Instruction::Sub ? x - y : x * y; __int128 lo = sg ? -((__int128)1 << (w - 1)) : 0, hi = sg ? ((__int128)1 << (w - 1)) - 1 : ((__int128)1 << w) - 1; ov = ci(z < lo || z > hi, 1); }
      else { E x = ie(a), y = ie(b), nov; if (opc == Instruction::Add) { nov = Z3_mk_bvadd_no_overflow(Z, x.a, y.a, sg); if (sg) nov = And(nov, Z3_mk_bvadd_no_underflow(Z, x.a, y.a)); } else if (opc == Instruction::Sub) { nov = Z3_mk_bvsub_no_underflow(Z, x.a, y.a, sg); if (sg) nov = And(nov, Z3_mk_bvsub_no_overflow(Z, x.a, y.a)); } else { nov = Z3_mk_bvmul_no_overflow(Z, x.a, y.a, sg); if (sg) nov = And(nov, Z3_mk_bvmul_no_underflow(Z, x.a, y.a)); } ov = b2v(Simp(Not(nov))); }
      Val g; g.k = AGG; g.g = std::make_shared<std::vector<Val>>(); g.g->push_back(r); g.g->push_back(ov); ret(g); return true; }
    case Intrinsic::vastart: { // System V x86-64 va_list
      uint64_t ap = argc64(s, cb, 0, before, ok); if (!ok) return true; Frame &f = s.fr.back(); unsigned gp = 0, fp = 0; for (auto &a : f.f->args()) { if (a.getType()->isFloatTy() || a.getType()->isDoubleTy()) ++fp; else ++gp; } if (gp > 6) gp = 6; if (fp > 8) fp = 8;
      unsigned g0 = gp, f0 = fp; ObjP rs = mkobj(s, 176, O_STACK, 16, "register save area"); ObjP ov = mkobj(s, 8 * f.va.size() + 8, O_STACK, 16, "overflow arguments"); f.allocas.push_back(rs->base); f.allocas.push_back(ov->base); Obj &R = *s.mem[rs->base], &V = *s.mem[ov->base]; rs.reset(); ov.reset(); unsigned vo = 0;
      Type *i64 = Type::getInt64Ty(CX), *d64 = Type::getDoubleTy(CX);
      for (auto &v : f.va) { bool isf = v.k == CF || v.k == SF; Val x = v; if (!isf && v.w < 64 && v.k != UND) x = doCast(s, Instruction::ZExt, v, Type::getIntNTy(CX, v.w), i64); if (isf) { if (fp < 8) { storescalar(R, 48 + 16 * fp++, x, d64); } else { storescalar(V, vo, x, d64); vo += 8; } } else { if (gp < 6) storescalar(R, 8 * gp++, x, i64); else { storescalar(V, vo, x, i64); vo += 8; } } }
      uint64_t rb = R.base, vb = V.base; ObjP *p = resolve(s, ap, 24, true, "write"); if (!p) return true; Obj &o = own(*p); Type *i32 = Type::getInt32Ty(CX); storescalar(o, ap - o.base, ci(8 * g0, 32), i32); storescalar(o, ap - o.base + 4, ci(48 + 16 * f0, 32), i32); storescalar(o, ap - o.base + 8, ci(vb, 64), i64); storescalar(o, ap - o.base + 16, ci(rb, 64), i64); advance(s, cb); return true; }
    case Intrinsic::vacopy: { uint64_t d = argc64(s, cb, 0, before, ok); if (!ok) return true; uint64_t r = argc64(s, cb, 1, before, ok); if (!ok) return true; if (!copybytes(s, d, r, 24, true)) return true; advance(s, cb); return true; }
    default: break;
    }
    StringRef nm = F->getName(); Str base = nm.drop_front(5).str(); base = base.substr(0, base.find('.'));
    if (rt->isFloatTy() || rt->isDoubleTy()) { std::vector<Val> a; for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->getArgOperand(i)->getType()->isFloatingPointTy()) a.push_back(A(i)); bool k; Val r = mathfn(s, base, a, bits(rt), k); if (k) { ret(r); return true; } }
    if (base == "powi") { Val a = A(0); Val b = A(1); if (b.k == CI) { int e = (int)sx(b.c, 32); Val r = cf(1, bits(rt)); for (int i = 0; i < std::abs(e); ++i) r = doBin(s, Instruction::FMul, r, a, rt, nullptr); if (e < 0) r = doBin(s, Instruction::FDiv, cf(1, bits(rt)), r, rt, nullptr); ret(r); return true; } }
    limits.insert("intrinsic " + nm.str()); s.dead = true; return true;
  }
  // harness interface
  if (n == "vfx_nondet") { uint64_t kind = argc64(s, cb, 0, before, ok); unsigned w = kind == 'b' ? 8 : kind == 'q' ? 64 : 32; Val v = si(freshbv(w, "in"), w); s.in.push_back({(char)kind, v}); ret(w < 64 ? si(Z3_mk_zero_ext(Z, 64 - w, v.e.a), 64) : v); return true; }
  if (n == "vfx_nondet_f") { Val v = sf(freshf(32, "in"), 32); s.in.push_back({'f', v}); ret(v); return true; }
  if (n == "vfx_nondet_d") { Val v = sf(freshf(64, "in"), 64); s.in.push_back({'d', v}); ret(v); return true; }
  if (n == "vfx_assume") { Val c = A(0); c = doCmp(s, CmpInst::ICMP_NE, c, ci(0, c.w)); if (c.k == CI) { if (!c.c) { s.dead = true; ++ST.killed; return true; } } else { E b = be(c); if (evalb(s, b) != 1) { std::shared_ptr<Model> m; int r = sat(s, b, &m); if (r == 0) { s.dead = true; ++ST.killed; return true; } s.model = m; } add(s, b); } advance(s, cb); return true; }
  if (n == "vfx_assert") { Val c = A(0); bool k2 = true; uint64_t mp = argc64(s, cb, 1, before, k2); Str msg = cstr(s, mp); assert_hits[msg]++; c = doCmp(s, CmpInst::ICMP_NE, c, ci(0, c.w)); if (!require(s, be(c), "VF: " + msg)) return true; advance(s, cb); return true; }
  if (n == "vfx_cover") { bool k2 = true; uint64_t mp = argc64(s, cb, 0, before, k2); Str m = cstr(s, mp); if (!covers.count(m)) { if (s.model || sat(s, Z3_mk_true(Z), &s.model) == 1) covers.insert(m); } advance(s, cb); return true; }
  if (n == "vfx_model_limit") { bool k2 = true; uint64_t mp = argc64(s, cb, 0, before, k2); limits.insert("model: " + cstr(s, mp)); s.dead = true; return true; }
  if (n == "vfx_end") { ++ST.paths; s.dead = true; return true; }
  if (n == "vfx_concretize") { Val v = A(0); if (!concretize(s, v, before)) return true; ret(v); return true; }
  if (n == "vfx_strtod") { uint64_t a = argc64(s, cb, 0, before, ok); if (!ok) return true; uint64_t u = argc64(s, cb, 1, before, ok); if (!ok) return true; Str t = cstr(s, a); char *e; double v = strtod(t.c_str(), &e); ObjP *p = resolve(s, u, 4, true, "write"); if (!p) return true; Obj &o = own(*p); storescalar(o, u - o.base, ci((uint32_t)(e - t.c_str()), 32), Type::getInt32Ty(CX)); ret(cf(v, 64)); return true; }
  if (n == "vfx_fmt_double") { uint64_t b = argc64(s, cb, 0, before, ok); if (!ok) return true; uint64_t f = argc64(s, cb, 1, before, ok); if (!ok) return true; Val v = A(2); if (v.k != CF) { limits.insert("model: formatting of a symbolic floating-point number"); s.dead = true; return true; } char t[512]; int l = snprintf(t, sizeof t, cstr(s, f).c_str(), fval(v)); ObjP *p = resolve(s, b, l + 1, true, "write"); if (!p) return true; Obj &o = own(*p); for (int i = 0; i <= l; ++i) storescalar(o, b - o.base + i, ci((uint8_t)t[i], 8), Type::getInt8Ty(CX)); ret(ci(l, 32)); return true; }
  if (n == "vfx_is_symbolic") { Val v = A(0); ret(ci(!v.conc(), 32)); return true; }
  if (n == "malloc") { Val v = A(0); int q = alloc_size(s, v, before); if (q) ret(ci(q == 2 ? 0 : do_malloc(s, v.c, false, 16), 64)); return true; }
  if (n == "calloc") { uint64_t a = argc64(s, cb, 0, before, ok); if (!ok) return true; uint64_t b = argc64(s, cb, 1, before, ok); if (!ok) return true; unsigned __int128 t = (unsigned __int128)a * b; ret(ci(t > (1ULL << 28) ? 0 : do_malloc(s, (uint64_t)t, true, 16), 64)); return true; }
  if (n == "aligned_alloc" || n == "memalign") { uint64_t a = argc64(s, cb, 0, before, ok); if (!ok) return true; uint64_t b = argc64(s, cb, 1, before, ok); if (ok) ret(ci(do_malloc(s, b, false, (unsigned)a), 64)); return true; }
  if (n == "realloc") { uint64_t p = argc64(s, cb, 0, before, ok); if (!ok) return true; Val lv = A(1); int q2 = alloc_size(s, lv, before); if (!q2) return true; if (q2 == 2) { ret(ci(0, 64)); return true; } uint64_t l = lv.c;
    if (!p) { ret(ci(do_malloc(s, l, false, 16), 64)); return true; } if (l == 0) { if (do_free(s, p)) ret(ci(0, 64)); return true; }
    ObjP *q = findobj(s, p); if (!q || (*q)->kind != O_HEAP || (*q)->base != p) { die(s, "realloc of something that is not an allocation"); return true; } if ((*q)->freed) { die(s, "realloc of freed memory"); return true; }
    uint64_t os = (*q)->size; uint64_t np = do_malloc(s, l, false, 16); if (!np) { ret(ci(0, 64)); return true; } copybytes(s, np, p, std::min(os, l), false); if (do_free(s, p)) ret(ci(np, 64)); return true; }
  if (n == "free") { uint64_t p = argc64(s, cb, 0, before, ok); if (ok && do_free(s, p)) advance(s, cb); return true; }
  if (n == "memcpy" || n == "memmove") { uint64_t d = argc64(s, cb, 0, before, ok); if (!ok) return true; uint64_t r = argc64(s, cb, 1, before, ok); if (!ok) return true; uint64_t l = argc64(s, cb, 2, before, ok); if (!ok) return true; if (copybytes(s, d, r, l, n == "memmove")) ret(ci(d, 64)); return true; }
  if (n == "memset") { uint64_t d = argc64(s, cb, 0, before, ok); if (!ok) return true; Val v = A(1); v = doCast(s, Instruction::Trunc, v, Type::getInt32Ty(CX), Type::getInt8Ty(CX)); uint64_t l = argc64(s, cb, 2, before, ok); if (!ok) return true; if (l) { ObjP *p = resolve(s, d, l, true, "write"); if (!p) return true; Obj &o = own(*p); for (uint64_t i = 0; i < l; ++i) storescalar(o, d - o.base + i, v, Type::getInt8Ty(CX)); } ret(ci(d, 64)); return true; }
  if (n == "exit" || n == "abort" || n == "_exit" || n == "__assert_fail") { die(s, "process terminated by " + n); return true; }
  if (F->isDeclaration() && (rt->isFloatTy() || rt->isDoubleTy())) {
    std::vector<Val> a; for (unsigned i = 0; i < cb->arg_size(); ++i) a.push_back(A(i)); bool k; Str b = n; Val r = mathfn(s, b, a, bits(rt), k); if (!k && b.size() > 1 && b.back() == 'f') { b.pop_back(); r = mathfn(s, b, a, bits(rt), k); } if (k) { ret(r); return true; }
  }
  return false;
}

static void exec(State &s) { // one instruction
  Frame &f = s.fr.back(); Instruction *I = &*f.it; ++s.steps; ++ST.insts;
  if (s.steps > maxsteps) { violation(s, "HANG: path exceeds the step limit", nullptr); limits.insert("step limit"); s.dead = true; return; }
  switch (I->getOpcode()) {
  case Instruction::Ret: {
    auto *r = cast<ReturnInst>(I); Val v; bool has = r->getReturnValue() != nullptr; if (has) v = op(s, r->getReturnValue()); if (s.fr.size() == 1) { end_path(s); return; } popframe(s);
    Instruction *c = &*s.fr.back().it; auto *cb = cast<CallBase>(c); if (has) setret(s, cb, v); advance(s, cb); return; }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(I); if (b->isUnconditional()) { jump(s, b->getSuccessor(0)); return; }
    Val c = op(s, b->getCondition()); if (c.k == UND) c = si(freshbv(1, "undef"), 1); if (c.k == CI) { jump(s, b->getSuccessor(c.c ? 0 : 1)); return; }
    E e = be(c); std::shared_ptr<Model> mm[2]; int fz = feas(s, e, mm);
    if (fz == 0) { s.dead = true; ++ST.killed; return; }
    if (fz == 3) { State o = s; add(o, Not(e)); o.model = mm[0]; jump(o, b->getSuccessor(1)); ++ST.forks; work.push_back(std::move(o)); add(s, e); s.model = mm[1]; jump(s, b->getSuccessor(0)); return; }
    int v = fz == 2; s.model = mm[v]; jump(s, b->getSuccessor(v ? 0 : 1)); return; }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I); Val c = op(s, sw->getCondition()); unsigned w = bits(sw->getCondition()->getType()); if (c.k == UND) c = si(freshbv(w, "undef"), w);
    if (c.k == CI) { jump(s, sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c.c))->getCaseSuccessor()); return; }
    std::map<BasicBlock *, E> conds; std::vector<BasicBlock *> order; E def = Z3_mk_true(Z);
    for (auto &cs : sw->cases()) { E q = Eq(c.e, bvc(cs.getCaseValue()->getZExtValue(), w)); def = And(def, Not(q)); auto it = conds.find(cs.getCaseSuccessor()); if (it == conds.end()) { conds[cs.getCaseSuccessor()] = q; order.push_back(cs.getCaseSuccessor()); } else it->second = Or(it->second, q); }
    auto it = conds.find(sw->getDefaultDest()); if (it == conds.end()) { conds[sw->getDefaultDest()] = def; order.push_back(sw->getDefaultDest()); } else it->second = Or(it->second, def);
    std::vector<std::pair<BasicBlock *, std::shared_ptr<Model>>> go; for (auto *b : order) { std::shared_ptr<Model> m; E q = conds[b]; int k = evalb(s, q); if (k == 1) m = s.model; else if (sat(s, q, &m) == 0) continue; go.push_back({b, m}); }
    if (go.empty()) { s.dead = true; ++ST.killed; return; }
    for (size_t i = 1; i < go.size(); ++i) { State o = s; add(o, conds[go[i].first]); o.model = go[i].second; jump(o, go[i].first); ++ST.forks; work.push_back(std::move(o)); }
    add(s, conds[go[0].first]); s.model = go[0].second; jump(s, go[0].first); return; }
  case Instruction::Unreachable: die(s, "unreachable code reached"); return;
  case Instruction::Alloca: {
    auto *a = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(a->getAllocatedType()); if (a->isArrayAllocation()) { State before = s; Val c = op(s, a->getArraySize()); if (!concretize(s, c, before)) return; n *= c.c; }
    if (n > (1ULL << 28)) { die(s, "stack allocation too large"); return; }
    ObjP o = mkobj(s, n, O_STACK, a->getAlign().value(), "stack object in " + s.fr.back().f->getName().str()); s.fr.back().allocas.push_back(o->base); s.fr.back().r[I] = ci(o->base, 64); ++s.fr.back().it; return; }
  case Instruction::Load: {
    auto *l = cast<LoadInst>(I); Val p = op(s, l->getPointerOperand()); Type *t = l->getType(); Val v;
    if (p.k == SI) { State before = s; if (!sym_access(s, before, p, t, false, v)) return; }
    else { uint64_t n = DL->getTypeStoreSize(t); ObjP *o = resolve(s, p.k == CI ? p.c : 0, n, false, "read"); if (!o) return; bool conc = true; Obj &q0 = **o; uint64_t of = p.c - q0.base; for (uint64_t i = 0; i < n; ++i) if (q0.b[of + i].st == 0) conc = false; Obj &q = conc ? q0 : (q0.ro ? q0 : own(*o)); v = loadt(s, q, of, t); }
    if (s.dead) return; s.fr.back().r[I] = v; ++s.fr.back().it; return; }
  case Instruction::Store: {
    auto *st = cast<StoreInst>(I); Val p = op(s, st->getPointerOperand()), v = op(s, st->getValueOperand()); Type *t = st->getValueOperand()->getType();
    if (p.k == SI) { State before = s; if (!sym_access(s, before, p, t, true, v)) return; }
    else { ObjP *o = resolve(s, p.k == CI ? p.c : 0, DL->getTypeStoreSize(t), true, "write"); if (!o) return; Obj &q = own(*o); storet(s, q, p.c - q.base, v, t); }
    if (s.dead) return; ++s.fr.back().it; return; }
  case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(I); Val b = op(s, g->getPointerOperand()); Val r = gepval(s, b, g, [&](const Value *v) { return op(s, v); }); f.r[I] = r; ++f.it; return; }
  case Instruction::ICmp: case Instruction::FCmp: { Val r = doCmp(s, cast<CmpInst>(I)->getPredicate(), op(s, I->getOperand(0)), op(s, I->getOperand(1))); if (s.dead) return; f.r[I] = r; ++f.it; return; }
  case Instruction::Select: { Val c = op(s, I->getOperand(0)); f.r[I] = selectv(s, c, op(s, I->getOperand(1)), op(s, I->getOperand(2)), I->getType()); ++f.it; return; }
  case Instruction::FNeg: { Val a = op(s, I->getOperand(0)); Type *t = I->getType(); std::function<Val(const Val &, Type *)> neg = [&](const Val &a0, Type *t) -> Val { if (a0.k == AGG) { Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(); for (auto &x : *a0.g) r.g->push_back(neg(x, cast<VectorType>(t)->getElementType())); return r; } Val a = fix(s, a0, t); if (a.k == CF) return cf(-fval(a), bits(t)); if (realmode) return sf(Z3_mk_unary_minus(Z, a.e.a), bits(t)); return sf(Z3_mk_fpa_neg(Z, a.e.a), bits(t)); }; f.r[I] = neg(a, t); ++f.it; return; }
  case Instruction::Freeze: { Val a = op(s, I->getOperand(0)); if (a.k == UND) a = fix(s, a, I->getType()); f.r[I] = a; ++f.it; return; }
  case Instruction::ExtractValue: { Val a = op(s, I->getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*a.g)[i]; a = t; } f.r[I] = a; ++f.it; return; }
  case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(I); Val a = op(s, I->getOperand(0)), v = op(s, I->getOperand(1)); std::function<Val(Val, unsigned)> ins = [&](Val x, unsigned d) -> Val { if (d == iv->getNumIndices()) return v; Val r = x; r.g = std::make_shared<std::vector<Val>>(*x.g); unsigned i = iv->getIndices()[d]; (*r.g)[i] = ins((*x.g)[i], d + 1); return r; }; f.r[I] = ins(a, 0); ++f.it; return; }
  case Instruction::ExtractElement: { Val a = op(s, I->getOperand(0)), i = op(s, I->getOperand(1)); f.r[I] = (*a.g)[i.c]; ++f.it; return; }
  case Instruction::InsertElement: { Val a = op(s, I->getOperand(0)), v = op(s, I->getOperand(1)), i = op(s, I->getOperand(2)); Val r = a; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(*a.g); (*r.g)[i.c] = v; f.r[I] = r; ++f.it; return; }
  case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(I); Val a = op(s, I->getOperand(0)), b = op(s, I->getOperand(1)); Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(); int n = (int)a.g->size(); for (int m : sv->getShuffleMask()) r.g->push_back(m < 0 ? undefval(cast<VectorType>(I->getType())->getElementType()) : m < n ? (*a.g)[m] : (*b.g)[m - n]); f.r[I] = r; ++f.it; return; }
  case Instruction::Call: case Instruction::Invoke: {
    auto *cb = cast<CallBase>(I); Value *cv = cb->getCalledOperand()->stripPointerCasts(); Function *F = dyn_cast<Function>(cv);
    if (cb->isInlineAsm()) { if (cb->getType()->isVoidTy()) { advance(s, cb); return; } limits.insert("inline asm"); s.dead = true; return; }
    bool need_before = false; for (auto &a : cb->args()) if (!isa<Constant>(a)) { Val v = op(s, a); if (v.k == SI) need_before = true; }
    State before; if (need_before && (!F || F->isDeclaration())) before = s;
    if (!F) { Val p = op(s, cb->getCalledOperand()); if (p.k == SI) { before = s; if (!concretize(s, p, before)) return; } auto it = faddr.find(p.c); if (p.k != CI || it == faddr.end()) { die(s, "call through an invalid function pointer"); return; } F = it->second; if (F->isDeclaration() && need_before) before = s; }
    if (F->isDeclaration() || F->getName().starts_with("vfx_")) {
      if (builtin(s, cb, F, before)) return;
      nobody.insert(F->getName().str()); limits.insert("call to function without body: " + F->getName().str()); s.dead = true; return;
    }
    if (s.fr.size() > 400) { violation(s, "HANG: call depth", nullptr); limits.insert("recursion depth"); s.dead = true; return; }
    fn_seen.insert(F->getName().str());
    Frame nf; nf.f = F; nf.bb = &F->getEntryBlock(); nf.prev = nullptr; nf.it = nf.bb->begin(); unsigned k = 0;
    for (auto &a : F->args()) { if (k < cb->arg_size()) { Val v = op(s, cb->getArgOperand(k)); if (a.hasByValAttr()) { Type *t = a.getParamByValType(); ObjP o = mkobj(s, DL->getTypeAllocSize(t), O_STACK, 16, "byval argument"); uint64_t b = o->base; o.reset(); nf.allocas.push_back(b); if (!copybytes(s, b, v.c, DL->getTypeAllocSize(t), true)) return; v = ci(b, 64); } nf.r[&a] = v; } ++k; }
    for (; k < cb->arg_size(); ++k) nf.va.push_back(op(s, cb->getArgOperand(k)));
    s.fr.push_back(std::move(nf)); return; }
  default:
    if (I->isBinaryOp()) { Val r = doBin(s, I->getOpcode(), op(s, I->getOperand(0)), op(s, I->getOperand(1)), I->getType(), I); if (s.dead) return; f.r[I] = r; ++f.it; return; }
    if (I->isCast()) { Val r = doCast(s, I->getOpcode(), op(s, I->getOperand(0)), I->getOperand(0)->getType(), I->getType()); if (s.dead) return; f.r[I] = r; ++f.it; return; }
    limits.insert(Str("instruction ") + I->getOpcodeName()); s.dead = true;
  }
}
static bool expired() { double t = now(); return t - t_start > tlimit || (*t_viol != 0 && t - *t_viol > 10); }
static void run_state(State &s) {
  long k = 0;
  while (!s.dead) { exec(s); if (s.dead) return; if ((++k & 1023) == 0 && expired()) { limits.insert("time limit"); return; } }
}
static Str js(const Str &x) { Str r = "\""; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static Str dump();
static std::atomic<bool> wd_off{false};
static void watchdog(int fd) { // past the time limit a running z3 call is interrupted; one that does not stop is abandoned, keeping what was found
  std::thread([fd] {
    while (!expired()) { std::this_thread::sleep_for(std::chrono::milliseconds(500)); if (wd_off) return; }
    for (int i = 0; !wd_off; ++i) {
      std::this_thread::sleep_for(std::chrono::seconds(3)); if (wd_off) return; Z3_interrupt(Z);
      if (i >= 8) { limits.insert("time limit: a query did not stop"); Str d = dump(); if (fd == 1) d = "[" + d + "]\n"; size_t o = 0; while (o < d.size()) { ssize_t k = write(fd, d.data() + o, d.size() - o); if (k <= 0) break; o += k; } _exit(0); }
    }
  }).detach();
}
static void explore(bool bfs_limit, size_t lim) {
  while (!work.empty()) {
    if (bfs_limit && (work.size() >= lim || (work.size() >= (size_t)nworkers && now() - t_start > 1.5))) return;
    if (expired()) { limits.insert("time limit"); return; }
    if (ST.paths > maxpaths) { limits.insert("path limit"); return; }
    if ((int)viols.size() >= maxviol) return;
    State s; if (bfs_limit) { s = std::move(work.front()); work.pop_front(); } else { s = std::move(work.back()); work.pop_back(); }
    run_state(s);
  }
}
static Str dump() {
  Str o = "{\"paths\":" + std::to_string(ST.paths) + ",\"killed\":" + std::to_string(ST.killed) + ",\"forks\":" + std::to_string(ST.forks) + ",\"queries\":" + std::to_string(ST.queries) + ",\"insts\":" + std::to_string(ST.insts) + ",\"asserts\":" + std::to_string(ST.asserts) + ",\"assert_queries\":" + std::to_string(ST.assert_queries) + ",\"unknown\":" + std::to_string(ST.unknown) + ",\"solver_s\":" + std::to_string(ST.solver);
  auto list = [&](const char *k, const std::set<Str> &v) { o += Str(",\"") + k + "\":["; bool f = true; for (auto &x : v) { if (!f) o += ","; f = false; o += js(x); } o += "]"; };
  list("functions", fn_seen); list("covers", covers); list("limits", limits); list("nobody", nobody);
  o += ",\"assert_hits\":{"; bool f = true; for (auto &x : assert_hits) { if (!f) o += ","; f = false; o += js(x.first) + ":" + std::to_string(x.second); } o += "}";
  o += ",\"violations\":["; f = true; for (auto &v : viols) { if (!f) o += ","; f = false; o += "{\"msg\":" + js(v.msg) + ",\"where\":" + js(v.where) + ",\"inputs\":" + js(v.inputs) + "}"; } o += "]}";
  return o;
}
int main(int argc, char **argv) {
  Str file, entry;
  for (int i = 1; i < argc; ++i) { Str a = argv[i]; if (a == "--fp") realmode = false; else if (a == "--canon") canon = true; else if (a == "--simpdepth") simpdepth = atoi(argv[++i]); else if (a == "--noflat") Z3_global_param_set("rewriter.flat", "false"); else if (a == "--leak") leakcheck = true; else if (a == "--uninit") uninit_check = true; else if (a == "--time") tlimit = atof(argv[++i]); else if (a == "--steps") maxsteps = atol(argv[++i]); else if (a == "--paths") maxpaths = atol(argv[++i]); else if (a == "--workers") nworkers = atoi(argv[++i]); else if (a == "--qt") qtimeout = (unsigned)(atof(argv[++i]) * 1000); else if (a == "--logic") logic_tactic = argv[++i]; else if (a == "--itemax") itemax = atoi(argv[++i]); else if (a == "--maxviol") maxviol = atoi(argv[++i]); else if (file.empty()) file = a; else entry = a; }
  t_start = now(); t_viol = (volatile double *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *t_viol = 0;
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
  SV = fresh_solver();
  SMDiagnostic err; auto m = parseIRFile(file, err, CX); if (!m) { err.print("symex", errs()); return 3; } M = m.get(); DL = &M->getDataLayout();
  Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  State s; s.next = 0x10000000;
  // materialise writable globals in the initial state, constants in rom
  for (auto &g : M->globals()) if (g.hasInitializer()) globaladdr(s, &g);
  { std::vector<uint64_t> mv; for (auto &x : rom) if (!x.second->ro) mv.push_back(x.first); for (auto a : mv) { s.mem[a] = rom[a]; rom.erase(a); } }
  for (auto &g : M->globals()) if (!g.hasInitializer()) { globaladdr(s, &g); uint64_t a = gaddr[&g]; if (rom.count(a)) { auto o = rom[a]; rom.erase(a); o->b.assign(o->b.size(), Byte()); for (auto &b : o->b) { b.st = 1; b.c = 0; } s.mem[a] = o; } }
  limits.clear();
  Frame f; f.f = F; f.bb = &F->getEntryBlock(); f.prev = nullptr; f.it = f.bb->begin(); s.fr.push_back(std::move(f)); fn_seen.insert(entry);
  work.push_back(std::move(s));
  if (nworkers <= 1) { watchdog(1); explore(false, 0); wd_off = true; if (!work.empty() && viols.empty()) limits.insert("unexplored states left"); printf("[%s]\n", dump().c_str()); return 0; }
  watchdog(1); explore(true, (size_t)nworkers * 24); wd_off = true;
  if (work.empty() || (int)viols.size() >= maxviol || expired()) { if (!work.empty() && viols.empty()) limits.insert("unexplored states left"); printf("[%s]\n", dump().c_str()); return 0; }
  std::vector<std::pair<pid_t, int>> kids; fflush(stdout);
  std::vector<State> all; for (auto &x : work) all.push_back(std::move(x)); work.clear();
  for (int w = 0; w < nworkers; ++w) {
    int pp[2]; if (pipe(pp)) return 3; pid_t p = fork();
    if (p == 0) { close(pp[0]); ST = Stats(); fn_seen.clear(); covers.clear(); limits.clear(); nobody.clear(); assert_hits.clear(); auto inh = viols; viols.clear(); for (size_t i = w; i < all.size(); i += nworkers) work.push_back(all[i]); all.clear(); wd_off = false; watchdog(pp[1]); explore(false, 0); wd_off = true; if (!work.empty() && viols.empty()) limits.insert("unexplored states left"); Str d = dump(); size_t o = 0; while (o < d.size()) { ssize_t k = write(pp[1], d.data() + o, d.size() - o); if (k <= 0) break; o += k; } close(pp[1]); _exit(0); }
    close(pp[1]); kids.push_back({p, pp[0]});
  }
  Str out = "[" + dump();
  for (auto &k : kids) { Str d; char buf[65536]; ssize_t r; while ((r = read(k.second, buf, sizeof buf)) > 0) d.append(buf, r); int st; waitpid(k.first, &st, 0); if (d.empty()) d = "{\"limits\":[\"worker died\"]}"; out += "," + d; }
  printf("%s]\n", out.c_str()); return 0;
}
