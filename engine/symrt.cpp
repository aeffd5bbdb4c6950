// Runtime of the symbolic executor: NaN-boxed terms over Z3 reals, path exploration by
// re-execution, goals discharged by Z3.
#include <z3.h>
#include <gmpxx.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <regex.h>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "sym.h"
typedef uint64_t u64;
#define TAG_SYM 0xFFFAull
#define TAG_POI 0xFFFBull
static inline u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static inline double dbl(u64 u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool isSym(double d) { return (bits(d) >> 48) == TAG_SYM; }
static inline bool isPoi(double d) { return (bits(d) >> 48) == TAG_POI; }
static inline bool isConc(double d) { u64 t = bits(d) >> 48; return t != TAG_SYM && t != TAG_POI; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ state
struct Key { int op; u64 a, b, c; bool operator==(const Key &o) const { return op == o.op && a == o.a && b == o.b && c == o.c; } };
struct KeyH { size_t operator()(const Key &k) const { u64 h = k.op; for (u64 x : {k.a, k.b, k.c}) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
enum { OADD, OSUB, OMUL, ODIV, ONEG, OABS, OSQRT, OVAR, OCONST, OITE };
struct Node { Key k; Z3_ast ast; int defpath; std::vector<Z3_ast> defs; std::string name; bool isc = false; double cv = 0; };
static Z3_context ctx; static Z3_solver solver; static Z3_sort RS;
static std::vector<Node> nodes; static std::unordered_map<Key, int, KeyH> memo;
static std::map<std::string, int> vars;
static int pathNo;
struct Goal { Z3_ast bad; Z3_ast strong; std::string label; bool hard; int kind = -1; double a = 0, b = 0; };
static std::vector<Goal> goals; static std::vector<double> same_;   // same_: values of goals whose two sides are the same term
static std::vector<Z3_ast> asserted;
struct Dec { bool val, flip, rare; };
static long eqCut; static int eqTaken, maxEq = 1 << 30;
static std::vector<Dec> decs; static size_t depth;
struct Ch { int v, n; std::string name; };
static std::vector<Ch> choices; static size_t chpos; static bool sealed_;
static sigjmp_buf top; enum { J_SKIP = 1, J_DEAD, J_FAIL, J_CRASH, J_NOTMINE, J_LIMIT };
static int worker = 0, nworkers = 1, tier = 0, divmode = 0;
static long caseIdx = -1; static int onlyCase = 0; static std::vector<int> onlyChoices;
static std::string failLabel, failKind;
static FILE *out;
static unsigned TMO_BRANCH = 3000, TMO_GOAL = 20000;
static double deadline = 0; static int sampleEvery = 1;
static std::map<std::string, double> cfg;
static long opsThisPath, maxOps = 20000000, maxPaths = 200000; static volatile int inZ3; static volatile long progress;
static struct { long cases, paths, infeasible, branchq, goalq, goals, trivial, concrete, unknown, witnesses, truncated, lemmas, ops, dead, polyproved; double solver; } st;
static int nfail; static const int MAXFAIL = 3;
static std::string desc; static std::vector<std::pair<std::string, regex_t>> known; static std::map<std::string, long> knownHits; static int nsamples, maxSamples = 4;
static std::string crashMsg;
static double allocPoisonCtr;
static std::map<std::string, std::string> envmap;
static std::vector<std::string> notes;
static std::string unkLabels;

static void die(const char *m) { fprintf(stderr, "symrt: %s\n", m); fflush(stderr); if (out) { fprintf(out, "{\"error\":\"%s\"}\n", m); fflush(out); } _exit(3); }
static std::string vfmt(const char *f, va_list ap) { char b[512]; vsnprintf(b, sizeof b, f, ap); return b; }
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); die("z3 error"); }

// ------------------------------------------------------------------ z3 helpers
static Z3_ast num(double d) {
  if (d == floor(d) && fabs(d) < 9e15) return Z3_mk_real_int64(ctx, (int64_t)d, 1);
  mpq_t q; mpq_init(q); mpq_set_d(q, d); char *s = mpq_get_str(NULL, 10, q);
  Z3_ast a = Z3_mk_numeral(ctx, s, RS); free(s); mpq_clear(q); return a;
}
static Z3_ast mkreal(double d) {
  if (isSym(d)) return nodes[bits(d) & 0xFFFFFFFFFFFFull].ast;
  if (isPoi(d)) die("poison reaching the solver");
  if (isnan(d) || isinf(d)) return NULL;
  return num(d);
}
static void assertPath(Z3_ast a) { Z3_solver_assert(ctx, solver, a); asserted.push_back(a); }
static Z3_lbool check(Z3_solver s, unsigned tmo) {
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  double t = now(); inZ3 = 1; Z3_lbool r = Z3_solver_check(ctx, s); inZ3 = 0; progress++;
  st.solver += now() - t; return r;
}
static void useDef(int id) {
  Node &n = nodes[id];
  if (n.defpath == pathNo) return; n.defpath = pathNo;
  for (auto d : n.defs) assertPath(d);
}
static double mk(int id) { useDef(id); return dbl((TAG_SYM << 48) | (u64)id); }
static bool cval(u64 h, double &v) { // value of a concrete or constant (variable free) operand, as machine arithmetic sees it
  double d = dbl(h); if (isPoi(d)) return false; if (!isSym(d)) { v = d; return true; }
  Node &n = nodes[h & 0xFFFFFFFFFFFFull]; if (!n.isc) return false; v = n.cv; return true;
}
static int newNode(const Key &k, Z3_ast a) {
  nodes.push_back(Node{k, a, -1, {}, ""}); int id = (int)nodes.size() - 1; memo[k] = id;
  double x = 0, y = 0;
  if (k.op != OVAR && k.op != OCONST && cval(k.a, x) && (k.op == ONEG || k.op == OABS || k.op == OSQRT || cval(k.b, y))) {
    Node &n = nodes[id]; n.isc = true;
    n.cv = k.op == OADD ? x + y : k.op == OSUB ? x - y : k.op == OMUL ? x * y : k.op == ODIV ? x / y : k.op == ONEG ? -x : k.op == OABS ? fabs(x) : sqrt(x);
  }
  return id;
}
static bool lookup(const Key &k, double &r) { auto it = memo.find(k); if (it == memo.end()) return false; r = mk(it->second); return true; }
static void tick() {
  if (++opsThisPath > maxOps) { failKind = "hang"; failLabel = "operation limit exceeded (non-termination?)"; siglongjmp(top, J_CRASH); }
  progress++;
}
static double ratConst(Z3_ast e, double cv) { // constant that is not a dyadic double
  Z3_ast s = Z3_simplify(ctx, e);
  Key k{OCONST, (u64)Z3_get_ast_id(ctx, s), 0, 0}; double r; if (lookup(k, r)) return r;
  int id = newNode(k, s); nodes[id].isc = true; nodes[id].cv = cv; return mk(id);
}
static bool normOn = false, normEager = false;                       // "norm": quotients, roots and comparisons are normalised as polynomials (Z3 certifies each rewriting)
static bool normDiv(double a, double b, double &r);
static bool normSqrt(double a, double &r);
static double normVal(double a);
static double normRed(double a);
static void dbgPoly(const char *w, double a);
// ------------------------------------------------------------------ branching
static std::vector<std::pair<double, double>> pathEqs;   // equalities known on this path
// norm mode: a condition implied (or refuted) by the harness assumptions alone needs no reasoning about the path
static std::vector<Z3_ast> assumed; static Z3_solver qsolver; static size_t qdone; static std::map<std::pair<Z3_ast, size_t>, Z3_lbool> qmemo;
static Z3_lbool quick(Z3_ast s) {
  if (!normOn) return Z3_L_UNDEF; if (!qsolver) { qsolver = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, qsolver); qdone = 0; }
  for (; qdone < assumed.size(); qdone++) Z3_solver_assert(ctx, qsolver, assumed[qdone]);
  auto it = qmemo.find({s, qdone}); if (it != qmemo.end()) return it->second;
  Z3_lbool res = Z3_L_UNDEF;
  for (int i = 0; i < 2 && res == Z3_L_UNDEF; i++) { st.branchq++; Z3_solver_push(ctx, qsolver); Z3_solver_assert(ctx, qsolver, i ? s : Z3_mk_not(ctx, s)); if (check(qsolver, 300) == Z3_L_FALSE) res = i ? Z3_L_FALSE : Z3_L_TRUE; Z3_solver_pop(ctx, qsolver, 1); }
  qmemo[{s, qdone}] = res; return res; }
static bool decide(Z3_ast c) {
  Z3_ast s = Z3_simplify(ctx, c);
  Z3_lbool b = Z3_get_bool_value(ctx, s);
  if (b == Z3_L_TRUE) return true;
  if (b == Z3_L_FALSE) return false;
  b = quick(s); if (b != Z3_L_UNDEF) return b == Z3_L_TRUE;
  if (depth < decs.size()) {
    bool v = decs[depth].val; if (v && decs[depth].rare) eqTaken++; depth++; assertPath(v ? s : Z3_mk_not(ctx, s)); return v;
  }
  if (deadline && now() > deadline) siglongjmp(top, J_LIMIT);
  bool ft, ff; st.branchq++;
  Z3_solver_push(ctx, solver); Z3_solver_assert(ctx, solver, s); Z3_lbool r = check(solver, TMO_BRANCH); Z3_solver_pop(ctx, solver, 1);
  ft = r != Z3_L_FALSE;
  if (ft) { st.branchq++;
    Z3_solver_push(ctx, solver); Z3_solver_assert(ctx, solver, Z3_mk_not(ctx, s)); r = check(solver, TMO_BRANCH); Z3_solver_pop(ctx, solver, 1);
    ff = r != Z3_L_FALSE;
  } else ff = true;
  Dec d; d.val = ft; d.flip = ft && ff; d.rare = false; decs.push_back(d); depth++;
  assertPath(d.val ? s : Z3_mk_not(ctx, s));
  return d.val;
}
// equality of two reals: explored with at most maxEq coincidences per path (the harness states the bound)
static bool decideEq(Z3_ast c) {
  Z3_ast s = Z3_simplify(ctx, c);
  Z3_lbool b = Z3_get_bool_value(ctx, s);
  if (b == Z3_L_TRUE) return true;
  if (b == Z3_L_FALSE) return false;
  if (depth < decs.size()) return decide(s);
  if (deadline && now() > deadline) siglongjmp(top, J_LIMIT);
  b = quick(s); if (b != Z3_L_UNDEF) return b == Z3_L_TRUE;
  Z3_ast ns = Z3_mk_not(ctx, s); st.branchq++;
  Z3_solver_push(ctx, solver); Z3_solver_assert(ctx, solver, ns); Z3_lbool r = check(solver, TMO_BRANCH); Z3_solver_pop(ctx, solver, 1);
  Dec d; d.rare = true; d.val = r == Z3_L_FALSE; d.flip = false;
  if (!d.val) {
    if (eqTaken >= maxEq) eqCut++;
    else { st.branchq++; Z3_solver_push(ctx, solver); Z3_solver_assert(ctx, solver, s); r = check(solver, TMO_BRANCH); Z3_solver_pop(ctx, solver, 1); d.flip = r != Z3_L_FALSE; }
  } else d.rare = false;
  decs.push_back(d); depth++;
  assertPath(d.val ? s : ns);
  return d.val;
}
static bool decideFree() { // unconstrained boolean
  if (depth < decs.size()) return decs[depth++].val;
  decs.push_back(Dec{true, true, false}); depth++; return true;
}
static double poisonFrom(double a, double b) { return isPoi(a) ? a : b; }
extern "C" {
double __sym_neg(double a);
static double symAdd(double a, double b); static double symSub(double a, double b); static double symMul(double a, double b);
double __sym_add(double a, double b) { double r = symAdd(a, b); return normOn ? normRed(r) : r; }
double __sym_sub(double a, double b) { double r = symSub(a, b); return normOn ? normRed(r) : r; }
double __sym_mul(double a, double b) { double r = symMul(a, b); return normOn ? normRed(r) : r; }
static double symAdd(double a, double b) {
  if (isConc(a) && isConc(b)) {
    double r = a + b; if (isinf(r) || isnan(r)) return r;
    double bb = r - a, e = (a - (r - bb)) + (b - bb); if (e == 0) return r;
    Z3_ast x[2] = {num(a), num(b)}; return ratConst(Z3_mk_add(ctx, 2, x), r);
  }
  if (isPoi(a) || isPoi(b)) return poisonFrom(a, b);
  if (isConc(a) && a == 0) return b; if (isConc(b) && b == 0) return a;
  for (int t = 0; t < 2; t++) { double x = t ? b : a, y = t ? a : b;   // (p - y) + y = p, y + (-y) = 0
    if (isSym(x)) { Node &n = nodes[bits(x) & 0xFFFFFFFFFFFFull]; if (n.k.op == OSUB && n.k.b == bits(y)) return dbl(n.k.a); if (n.k.op == ONEG && n.k.a == bits(y)) return 0.0; } }
  tick(); if (bits(a) > bits(b)) std::swap(a, b);
  Key k{OADD, bits(a), bits(b), 0}; double r; if (lookup(k, r)) return r;
  Z3_ast x[2] = {mkreal(a), mkreal(b)}; if (!x[0] || !x[1]) return NAN;
  return mk(newNode(k, Z3_mk_add(ctx, 2, x)));
}
static double symSub(double a, double b) {
  if (isConc(a) && isConc(b)) return __sym_add(a, -b);
  if (isPoi(a) || isPoi(b)) return poisonFrom(a, b);
  if (bits(a) == bits(b)) return 0.0;
  if (isConc(b)) return __sym_add(a, -b);
  if (isConc(a) && a == 0) return __sym_neg(b);
  if (isSym(a)) { Node &n = nodes[bits(a) & 0xFFFFFFFFFFFFull]; if (n.k.op == OADD) { if (n.k.a == bits(b)) return dbl(n.k.b); if (n.k.b == bits(b)) return dbl(n.k.a); }
    if (n.k.op == OSUB && n.k.a == bits(b)) return __sym_neg(dbl(n.k.b)); }
  if (isSym(b)) { Node &n = nodes[bits(b) & 0xFFFFFFFFFFFFull]; if (n.k.op == OADD) { if (n.k.a == bits(a)) return __sym_neg(dbl(n.k.b)); if (n.k.b == bits(a)) return __sym_neg(dbl(n.k.a)); }
    if (n.k.op == OSUB && n.k.a == bits(a)) return dbl(n.k.b); }
  tick(); Key k{OSUB, bits(a), bits(b), 0}; double r; if (lookup(k, r)) return r;
  Z3_ast x[2] = {mkreal(a), mkreal(b)}; if (!x[0] || !x[1]) return NAN;
  return mk(newNode(k, Z3_mk_sub(ctx, 2, x)));
}
double __sym_neg(double a) {
  if (isConc(a)) return -a; if (isPoi(a)) return a;
  Node &n = nodes[bits(a) & 0xFFFFFFFFFFFFull];
  if (n.k.op == ONEG) return dbl(n.k.a);
  if (n.k.op == OSUB) return __sym_sub(dbl(n.k.b), dbl(n.k.a));
  tick(); Key k{ONEG, bits(a), 0, 0}; double r; if (lookup(k, r)) return r;
  return mk(newNode(k, Z3_mk_unary_minus(ctx, mkreal(a))));
}
static double divDef(double a, double b);
static double symMul(double a, double b) {
  if (isConc(a) && isConc(b)) {
    double r = a * b; if (isinf(r) || isnan(r) || r == 0) return r;
    if (fma(a, b, -r) == 0) return r;
    Z3_ast x[2] = {num(a), num(b)}; return ratConst(Z3_mk_mul(ctx, 2, x), r);
  }
  if ((isConc(a) && a == 0) || (isConc(b) && b == 0)) return 0.0;   // the library is built with finite-math only
  if (isPoi(a) || isPoi(b)) return poisonFrom(a, b);
  if (isConc(b)) std::swap(a, b);
  if (isConc(a)) { if (a == 0) return 0.0; if (a == 1) return b; if (a == -1) return __sym_neg(b); }
  for (int t = 0; t < 2; t++) { double r = t ? b : a, y = t ? a : b;   // y * (1/d) is y/d
    if (isSym(r)) { Node &n = nodes[bits(r) & 0xFFFFFFFFFFFFull]; if (n.k.op == ODIV && n.k.a == bits(1.0) && isSym(dbl(n.k.b))) { useDef(bits(r) & 0xFFFFFFFFFFFFull); double den = dbl(n.k.b), q; if (normOn) { if (normDiv(y, den, q)) return q; continue; } return divDef(y, den); } } }
  tick(); if (bits(a) > bits(b)) std::swap(a, b);
  Key k{OMUL, bits(a), bits(b), 0}; double r; if (lookup(k, r)) return r;
  Z3_ast x[2] = {mkreal(a), mkreal(b)}; if (!x[0] || !x[1]) return NAN;
  return mk(newNode(k, Z3_mk_mul(ctx, 2, x)));
}
double __sym_fma(double a, double b, double c) { return __sym_add(__sym_mul(a, b), c); }
static void softFail(const char *kind, const std::string &label) { failKind = kind; failLabel = label; siglongjmp(top, J_FAIL); }
double __sym_div(double a, double b) {
  if (isPoi(a) || isPoi(b)) return poisonFrom(a, b);
  if (isConc(a) && isConc(b)) {
    double r = a / b; if (isinf(r) || isnan(r) || r == 0) return r;
    if (fma(r, b, -a) == 0) return r;
    Z3_ast x = Z3_mk_div(ctx, num(a), num(b)); return ratConst(x, r);
  }
  if (isConc(b)) {
    if (b == 0) return NAN; if (b == 1) return a;
    tick(); Key k{ODIV, bits(a), bits(b), 0}; double r; if (lookup(k, r)) return r;
    return mk(newNode(k, Z3_mk_div(ctx, mkreal(a), num(b))));
  }
  if (isConc(a) && a == 0) { /* 0/x */ }
  tick();
  if (normOn) { double r; if (normDiv(a, b, r)) return r; }
  Z3_ast zb = mkreal(b), zero = num(0);
  if (divmode == 1) {
    if (decide(Z3_mk_eq(ctx, zb, zero))) softFail("divzero", "division by zero reachable");
  }
  if (normOn && !(isConc(a) && a == 1)) { double nb = normVal(b), inv = divDef(1.0, nb); return __sym_mul(a, inv); }
  if (normOn) return divDef(a, normVal(b));
  return divDef(a, b);
}
static double divDef(double a, double b) {
  Z3_ast zb = mkreal(b), zero = num(0);
  Key k{ODIV, bits(a), bits(b), 0}; double r; if (lookup(k, r)) return r;
  if (isConc(a) && a == 0) { assertPath(Z3_mk_not(ctx, Z3_mk_eq(ctx, zb, zero))); return 0.0; }
  char nm[32]; sprintf(nm, "q!%zu", nodes.size());
  Z3_ast q = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), RS);
  int id = newNode(k, q); Z3_ast x[2] = {q, zb};
  nodes[id].defs.push_back(Z3_mk_not(ctx, Z3_mk_eq(ctx, zb, zero)));
  nodes[id].defs.push_back(Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, x), mkreal(a)));
  return mk(id);
}
double __sym_sqrt(double a) {
  if (isPoi(a)) return a;
  if (isConc(a)) { double r = sqrt(a); if (isnan(r) || fma(r, r, -a) == 0) return r; }
  tick();
  if (normOn) { double r; if (normSqrt(a, r)) return r; if (getenv("SYM_DBG")) dbgPoly("sqrt", a); }
  Z3_ast za = mkreal(a), zero = num(0);
  if (divmode == 1 && isSym(a)) {
    if (decide(Z3_mk_lt(ctx, za, zero))) softFail("sqrtneg", "square root of a negative value reachable");
  }
  if (isSym(a)) { // sqrt(x*x) = |x|
    Node &n = nodes[bits(a) & 0xFFFFFFFFFFFFull];
    if (n.k.op == OMUL && n.k.a == n.k.b) { extern double __sym_fabs(double); return __sym_fabs(dbl(n.k.a)); }
  }
  Key k{OSQRT, bits(a), 0, 0}; double r; if (lookup(k, r)) return r;
  char nm[32]; sprintf(nm, "s!%zu", nodes.size());
  Z3_ast q = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), RS);
  int id = newNode(k, q); Z3_ast x[2] = {q, q};
  nodes[id].defs.push_back(Z3_mk_ge(ctx, q, zero));
  nodes[id].defs.push_back(Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, x), za));
  return mk(id);
}
static int absFork = 0;
double __sym_fabs(double a) {
  if (isPoi(a)) return a; if (isConc(a)) return fabs(a);
  Node &n = nodes[bits(a) & 0xFFFFFFFFFFFFull];
  if (n.k.op == OABS || n.k.op == OSQRT) return a;
  if (n.k.op == ONEG) return __sym_fabs(dbl(n.k.a));
  if (normOn) { double b = normVal(a); if (bits(b) != bits(a)) return __sym_fabs(b); }
  Z3_ast z = mkreal(a), zero = num(0);
  if (absFork) { if (decide(Z3_mk_ge(ctx, z, zero))) return a; return __sym_neg(a); }
  tick(); Key k{OABS, bits(a), 0, 0}; double r; if (lookup(k, r)) return r;
  return mk(newNode(k, Z3_mk_ite(ctx, Z3_mk_ge(ctx, z, zero), z, Z3_mk_unary_minus(ctx, z))));
}
double __sym_hypot(double a, double b) {
  if (isConc(a) && a == 0) return __sym_fabs(b);
  if (isConc(b) && b == 0) return __sym_fabs(a);
  return __sym_sqrt(__sym_add(__sym_mul(a, a), __sym_mul(b, b)));
}
static bool tiny(double c) { return isConc(c) && c != 0 && fabs(c) < 1e-150; }
int __sym_cmp(double a, double b, int pred) {
  // LLVM predicate numbering: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
  int p = pred & 7;
  if (isConc(a) && isConc(b)) {
    if (isnan(a) || isnan(b)) return (pred & 8) ? 1 : 0;
    return ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b);
  }
  if (pred == 0) return 0; if (pred == 15) return 1;
  if (p == 7) return 1; if (p == 0) return 0;   // ordered / unordered tests: reals are ordered
  if (isPoi(a) || isPoi(b)) return decideFree();
  if (bits(a) == bits(b)) return p & 1;
  if (normOn && (isSym(a) || isSym(b))) { double na = normVal(a), nb = normVal(b); if (bits(na) != bits(a) || bits(nb) != bits(b)) return __sym_cmp(na, nb, pred); }
  if (isConc(a) && isnan(a)) return (pred & 8) ? 1 : 0;
  if (isConc(b) && isnan(b)) return (pred & 8) ? 1 : 0;
  if (isConc(a) && isinf(a)) { bool gt = a > 0; return gt ? (p & 2) != 0 : (p & 4) != 0; }
  if (isConc(b) && isinf(b)) { bool gt = b < 0; return gt ? (p & 2) != 0 : (p & 4) != 0; }
  tick();
  if (tiny(a) || tiny(b)) {   // magnitudes in (0, 1e-150) are outside the claim
    bool tb = tiny(b); double c = tb ? b : a, x = tb ? a : b;
    int q = p; if (!tb) q = (p & 1) | ((p & 2) << 1) | ((p & 4) >> 1);   // x ? c
    Z3_ast zx = mkreal(x), zero = num(0);
    bool r;
    if (c > 0) { // x<c <=> x<=0 ; x>c <=> x>0 ; x==c false
      int lt = (q & 4) != 0, gt = (q & 2) != 0;
      if (lt && gt) return 1; if (!lt && !gt) return 0;
      r = decide(lt ? Z3_mk_le(ctx, zx, zero) : Z3_mk_gt(ctx, zx, zero));
    } else {     // x<c <=> x<0 ; x>c <=> x>=0
      int lt = (q & 4) != 0, gt = (q & 2) != 0;
      if (lt && gt) return 1; if (!lt && !gt) return 0;
      r = decide(lt ? Z3_mk_lt(ctx, zx, zero) : Z3_mk_ge(ctx, zx, zero));
    }
    return r;
  }
  Z3_ast x = mkreal(a), y = mkreal(b), c;
  switch (p) {
    case 1: { bool v = decideEq(Z3_mk_eq(ctx, x, y)); if (v) pathEqs.push_back({a, b}); return v; }
    case 6: { bool v = decideEq(Z3_mk_eq(ctx, x, y)); if (v) pathEqs.push_back({a, b}); return !v; }
    case 2: c = Z3_mk_gt(ctx, x, y); break;
    case 3: c = Z3_mk_ge(ctx, x, y); break;
    case 4: c = Z3_mk_lt(ctx, x, y); break;
    case 5: c = Z3_mk_le(ctx, x, y); break;
    default: c = Z3_mk_not(ctx, Z3_mk_eq(ctx, x, y)); break;
  }
  return decide(c);
}
double __sym_copysign(double a, double b) {
  if (isConc(a) && isConc(b)) return copysign(a, b);
  double m = __sym_fabs(a);
  if (isConc(b)) return signbit(b) ? __sym_neg(m) : m;
  return __sym_cmp(b, 0.0, 3) ? m : __sym_neg(m);
}
int __sym_signbit(double a) { if (isConc(a)) return signbit(a) != 0; return __sym_cmp(a, 0.0, 4); }
int __sym_isnan(double a) { return isConc(a) && isnan(a); }
int __sym_isinf(double a) { return isConc(a) && isinf(a); }
int __sym_isfinite(double a) { return !isConc(a) || isfinite(a); }
double __sym_finite(double a) { return !isConc(a) || isfinite(a); }
double __sym_fmax(double a, double b) { return __sym_cmp(a, b, 3) ? a : b; }
double __sym_fmin(double a, double b) { return __sym_cmp(a, b, 5) ? a : b; }
int __sym_signbit(double a);
double __sym_blendv(double a, double b, double m) { return __sym_signbit(m) ? b : a; }
void __sym_unsupported(const char *s) { failKind = "unsupported"; failLabel = s; siglongjmp(top, J_LIMIT); }
#define CONC1(n, f) double __sym_##n(double a) { if (!isConc(a)) __sym_unsupported(#n " of a symbolic value"); return f(a); }
double __sym_floor(double a) { double v; if (isConc(a)) return floor(a); if (!cval(bits(a), v)) __sym_unsupported("floor of a symbolic value"); return floor(v); }
double __sym_ceil(double a) { double v; if (isConc(a)) return ceil(a); if (!cval(bits(a), v)) __sym_unsupported("ceil of a symbolic value"); return ceil(v); }
CONC1(exp, exp) CONC1(log, log) CONC1(cos, cos) CONC1(sin, sin)
double __sym_pow(double a, double b) {
  if (isConc(a) && isConc(b)) return pow(a, b);
  if (isConc(b) && b == 2) return __sym_mul(a, a);
  if (isConc(b) && b == 0.5) return __sym_sqrt(a);
  __sym_unsupported("pow of symbolic value"); return 0;
}
int64_t __sym_toint(double a) { double v; if (cval(bits(a), v)) return (int64_t)v; __sym_unsupported("float to int of a symbolic value"); return 0; }

static std::vector<const char *> fnhit;
void __sym_enter(char *g, const char *n) { if (*g) return; *g = 1; fnhit.push_back(n); }
// ------------------------------------------------------------------ memory
struct Blk { Blk *next, *prev; size_t n; u64 magic; void *raw; };
static Blk blist; static const size_t RZ = 256; static u64 poiCtr;
static double freshPoison() { return dbl((TAG_POI << 48) | (poiCtr++ & 0xFFFFFFFFFFFFull)); }
static void *symAlloc(size_t n, size_t align) {
  if (align < 64) align = 64;
  size_t hdr = (sizeof(Blk) + 2 * RZ + align - 1) / align * align;
  char *raw = (char *)aligned_alloc(align, (hdr + n + RZ + 2 * align) / align * align);
  if (!raw) return NULL;
  // the returned pointer is 16-byte but deliberately not more aligned than malloc guarantees
  char *p = raw + hdr;
  Blk *b = (Blk *)(p - RZ - sizeof(Blk)); b->n = n; b->magic = 0xB10CB10CB10CB10Cull; b->raw = raw;
  double f = freshPoison();
  for (size_t i = 0; i < RZ; i += 8) memcpy(p - RZ + i, &f, 8);
  for (size_t i = 0; i + 8 <= n; i += 8) memcpy(p + i, &f, 8);
  size_t tail = n & ~(size_t)7; u64 fb = bits(f);
  for (size_t i = tail; i < n + RZ; i++) p[i] = ((char *)&fb)[i & 7];
  b->next = blist.next; b->prev = &blist; if (blist.next) blist.next->prev = b; blist.next = b;
  return p;
}
static bool blkOk(Blk *b) {
  char *p = (char *)b + sizeof(Blk) + RZ;
  double f; memcpy(&f, p - RZ, 8); if (!isPoi(f)) return false; u64 fb = bits(f);
  for (size_t i = 0; i < RZ; i += 8) if (memcmp(p - RZ + i, &f, 8)) return false;
  for (size_t i = b->n; i < b->n + RZ; i++) if (p[i] != ((char *)&fb)[i & 7]) return false;
  return true;
}
void *__sym_malloc(size_t n) { return symAlloc(n, 64); }
void *__sym_calloc(size_t a, size_t b) { void *p = symAlloc(a * b, 64); if (p) memset(p, 0, a * b); return p; }
int __sym_posix_memalign(void **p, size_t al, size_t n) { *p = symAlloc(n, al); return *p ? 0 : 12; }
void *__sym_aligned_alloc(size_t al, size_t n) { return symAlloc(n, al); }
void __sym_free(void *p) {
  if (!p) return; Blk *b = (Blk *)((char *)p - RZ - sizeof(Blk));
  if (b->magic != 0xB10CB10CB10CB10Cull) softFail("memory", "free of a pointer that was not allocated or was freed twice");
  if (!blkOk(b)) softFail("memory", "write outside an allocated block");
  b->prev->next = b->next; if (b->next) b->next->prev = b->prev; b->magic = 0xDEADDEADDEADDEADull;
  double f = freshPoison(); for (size_t i = 0; i + 8 <= b->n; i += 8) memcpy((char *)p + i, &f, 8);
  // freed memory stays quarantined until the end of the path
  b->next = NULL; free(b->raw);
}
void *__sym_realloc(void *p, size_t n) {
  void *q = symAlloc(n, 64); if (p) { Blk *b = (Blk *)((char *)p - RZ - sizeof(Blk)); memcpy(q, p, b->n < n ? b->n : n); __sym_free(p); } return q;
}
static bool memEnd() { bool ok = true; for (Blk *b = blist.next; b; b = b->next) if (b->magic != 0xB10CB10CB10CB10Cull || !blkOk(b)) ok = false; return ok; }
static void memReset() { Blk *b = blist.next; while (b) { Blk *n = b->next; if (b->magic == 0xB10CB10CB10CB10Cull) free(b->raw); b = n; } blist.next = NULL; poiCtr = 0; }
char *__sym_getenv(const char *n) { auto it = envmap.find(n); if (it == envmap.end()) return NULL; return (char *)it->second.c_str(); }

// ------------------------------------------------------------------ threads: run to completion at creation or at join
struct Thr { void *(*f)(void *); void *arg; void *ret; bool done; };
static std::vector<Thr> thr; static int thrMode = 0;
int __sym_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *arg) {
  thr.push_back(Thr{f, arg, NULL, false}); size_t id = thr.size(); *t = (pthread_t)id;
  if (thrMode == 0) { void *r = f(arg); thr[id - 1].ret = r; thr[id - 1].done = true; }
  return 0;
}
int __sym_pthread_join(pthread_t t, void **r) {
  size_t id = (size_t)t - 1; if (id >= thr.size()) return 3;
  if (thrMode == 1) for (size_t i = thr.size(); i-- > 0;) if (!thr[i].done) { thr[i].done = true; void *x = thr[i].f(thr[i].arg); thr[i].ret = x; }
  if (thrMode == 2) for (size_t i = 0; i < thr.size(); i++) if (!thr[i].done) { thr[i].done = true; void *x = thr[i].f(thr[i].arg); thr[i].ret = x; }
  if (!thr[id].done) { thr[id].done = true; thr[id].ret = thr[id].f(thr[id].arg); }
  if (r) *r = thr[id].ret; return 0;
}

// ------------------------------------------------------------------ harness API
static void seal() {
  if (sealed_) return; sealed_ = true; 
  if (onlyCase) return;
  caseIdx++;
  if ((int)(((u64)caseIdx * 0x9E3779B97F4A7C15ull >> 40) % nworkers) != worker) siglongjmp(top, J_NOTMINE);
}
int sym_choice(int n, const char *name) {
  if (sealed_ && !onlyCase && chpos >= choices.size()) die("sym_choice after sym_real");
  if (n <= 0) siglongjmp(top, J_SKIP);
  if (onlyCase) { size_t i = chpos++; int v = i < onlyChoices.size() ? onlyChoices[i] : 0; choices.push_back(Ch{v, n, name}); return v; }
  if (chpos == choices.size()) { choices.push_back(Ch{0, n, name});
    if (const char *e = getenv("SYM_ONLY")) { char pat[64]; snprintf(pat, 64, ",%s=", name); std::string s = std::string(",") + e; size_t p = s.find(pat); if (p != std::string::npos) { int v = atoi(s.c_str() + p + strlen(pat)); if (v < n) { choices.back().v = v; choices.back().n = v + 1; } } } }   // development aid
  return choices[chpos++].v;
}
void sym_desc(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); desc = s; }
void sym_skip(void) { siglongjmp(top, J_SKIP); }
double sym_real(const char *f, ...) {
  seal(); va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
  auto it = vars.find(s); if (it != vars.end()) return mk(it->second);
  Key k{OVAR, (u64)nodes.size(), 0, 0};
  int id = newNode(k, Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, s.c_str()), RS)); nodes[id].name = s; vars[s] = id; return mk(id);
}
double sym_poison(const char *, ...) { seal(); return freshPoison(); }
double sym_rat(double n, double d) { return __sym_div(n, d); }
static void assumeZ(Z3_ast c) { assumed.push_back(c);
  assertPath(c); 
}
void sym_assume_lt(double a, double b) { seal(); if (isConc(a) && isConc(b)) { if (!(a < b)) siglongjmp(top, J_DEAD); return; } assumeZ(Z3_mk_lt(ctx, mkreal(a), mkreal(b))); }
void sym_assume_le(double a, double b) { seal(); if (isConc(a) && isConc(b)) { if (!(a <= b)) siglongjmp(top, J_DEAD); return; } assumeZ(Z3_mk_le(ctx, mkreal(a), mkreal(b))); }
void sym_assume_ne(double a, double b) { seal(); if (isConc(a) && isConc(b)) { if (a == b) siglongjmp(top, J_DEAD); return; } assumeZ(Z3_mk_not(ctx, Z3_mk_eq(ctx, mkreal(a), mkreal(b)))); }
void sym_assume_eq(double a, double b) { seal(); if (isConc(a) && isConc(b)) { if (a != b) siglongjmp(top, J_DEAD); return; } pathEqs.push_back({a, b}); assumeZ(Z3_mk_eq(ctx, mkreal(a), mkreal(b))); }
static void goalFail(const std::string &l, const char *why) { Goal g; g.bad = Z3_mk_true(ctx); g.strong = NULL; g.label = l + why; g.hard = true; goals.push_back(g); }
static void goalCmp(double a, double b, int kind, const std::string &l) {
  st.goals++;
  if (isPoi(a) || isPoi(b)) { if (bits(a) == bits(b) && kind == 0) { st.trivial++; return; } goalFail(l, " depends on a value that must not be referenced"); return; }
  if (isConc(a) && isConc(b)) { bool ok = kind == 0 ? a == b : kind == 1 ? a <= b : kind == 2 ? a < b : a != b;
    if (ok) { st.concrete++; return; } goalFail(l, ""); return; }
  if (bits(a) == bits(b) && kind < 2) { st.trivial++; same_.push_back(a); return; }
  Z3_ast x = mkreal(a), y = mkreal(b);
  if (!x || !y) { goalFail(l, " is not finite"); return; }
  Goal g; g.label = l; g.hard = false; g.kind = kind; g.a = a; g.b = b; Z3_ast e[2] = {x, y}, d = Z3_mk_sub(ctx, 2, e), eighth = Z3_mk_real(ctx, 1, 8), meighth = Z3_mk_real(ctx, -1, 8);
  if (kind == 0) { g.bad = Z3_mk_not(ctx, Z3_mk_eq(ctx, x, y)); Z3_ast o[2] = {Z3_mk_ge(ctx, d, eighth), Z3_mk_le(ctx, d, meighth)}; g.strong = Z3_mk_or(ctx, 2, o); }
  else if (kind == 1) { g.bad = Z3_mk_gt(ctx, x, y); g.strong = Z3_mk_ge(ctx, d, eighth); }
  else if (kind == 2) { g.bad = Z3_mk_ge(ctx, x, y); g.strong = g.bad; }
  else { g.bad = Z3_mk_eq(ctx, x, y); g.strong = g.bad; }
  goals.push_back(g);
}
#define GOAL(n, k) void n(double a, double b, const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); goalCmp(a, b, k, s); }
GOAL(sym_eq, 0) GOAL(sym_le, 1) GOAL(sym_lt, 2) GOAL(sym_ne, 3)
void sym_check(int c, const char *f, ...) {
  st.goals++; if (c) { st.concrete++; return; }
  va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); goalFail(s, "");
}
int sym_same(double a, double b) { return bits(a) == bits(b); }
int sym_is_poison(double a) { return isPoi(a); }
int sym_tier(void) { return tier; }
void sym_divmode(int m) { divmode = m; }
int sym_symbolic(void) { return 1; }
void sym_note(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); for (auto &n : notes) if (n == s) return; notes.push_back(s); }
void sym_config(const char *k, double v) {
  std::string s = k;
  if (s == "goal_ms") TMO_GOAL = (unsigned)v; else if (s == "branch_ms") TMO_BRANCH = (unsigned)v;
  else if (s == "maxpaths") maxPaths = (long)v; else if (s == "maxeq") maxEq = (int)v; else if (s == "absfork") absFork = (int)v; else if (s == "norm") { normOn = v != 0; normEager = v >= 2; } else if (s == "thrmode") thrMode = (int)v;
  else cfg[s] = v;
}
void sym_env(const char *n, const char *v) { if (v) envmap[n] = v; else envmap.erase(n); }
}
// solve  path && extra  with a fresh solver
static Z3_solver freshSolver(bool inc) {
  Z3_solver s;
  if (inc) s = Z3_mk_simple_solver(ctx);
  else { s = Z3_mk_solver(ctx); }
  Z3_solver_inc_ref(ctx, s); return s;
}
static std::string jstr(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else r += c; } return r + "\""; }
static double modelVal(Z3_model m, Z3_ast v) {
  Z3_ast r; if (!Z3_model_eval(ctx, m, v, true, &r)) return 0;
  if (Z3_is_algebraic_number(ctx, r)) r = Z3_get_algebraic_number_lower(ctx, r, 25);
  if (!Z3_is_numeral_ast(ctx, r)) return 0;
  Z3_string s = Z3_get_numeral_string(ctx, r); mpq_t q; mpq_init(q);
  if (mpq_set_str(q, s, 10)) { mpq_clear(q); return 0; } mpq_canonicalize(q); double d = mpq_get_d(q); mpq_clear(q); return d;
}
static std::string choiceJson() { std::string s = "["; for (size_t i = 0; i < choices.size(); i++) { if (i) s += ","; s += std::to_string(choices[i].v); } return s + "]"; }
static std::string choiceText() { std::string s = desc; for (auto &c : choices) { if (s.size()) s += " "; s += c.name + "=" + std::to_string(c.v); } return s; }
static void reportFail(const std::string &kind, const std::string &label, Z3_model m) {
  std::string full = choiceText() + " :: " + kind + " :: " + label;
  for (auto &k : known) if (regexec(&k.second, full.c_str(), 0, NULL, 0) == 0) {
    if (knownHits[k.first]++ == 0) { fprintf(out, "{\"known\":%s,\"what\":%s}\n", jstr(k.first).c_str(), jstr(full).c_str()); fflush(out); }
    return; }
  std::string s = "{\"fail\":" + jstr(kind) + ",\"label\":" + jstr(label) + ",\"choices\":" + choiceJson() + ",\"case\":" + jstr(choiceText()) + ",\"inputs\":{";
  bool first = true; if (m) Z3_model_inc_ref(ctx, m);
  for (auto &kv : vars) { double v = m ? modelVal(m, nodes[kv.second].ast) : 0; char b[64]; snprintf(b, 64, "%.17g", v); if (v == 0 && m) continue; s += (first ? "" : ",") + jstr(kv.first) + ":" + b; first = false; }
  if (m) Z3_model_dec_ref(ctx, m);
  s += "}}\n"; fputs(s.c_str(), out); fflush(out); nfail++;
}
static void boundInputs(Z3_solver s, int lim) {
  for (auto &kv : vars) { Z3_ast v = nodes[kv.second].ast; Z3_solver_assert(ctx, s, Z3_mk_le(ctx, v, num(lim))); Z3_solver_assert(ctx, s, Z3_mk_ge(ctx, v, num(-lim))); }
}
static void restrictInputs(Z3_solver s, int seed) {
  int i = 0;
  for (auto &kv : vars) { Z3_ast v = nodes[kv.second].ast; int c = 1 + (i * 7 + seed * 13) % 11; i++;
    Z3_ast two[2] = {Z3_mk_eq(ctx, v, Z3_mk_real(ctx, c, 2)), Z3_mk_eq(ctx, v, Z3_mk_real(ctx, c - 13, 2))};
    Z3_solver_assert(ctx, s, Z3_mk_or(ctx, 2, two)); }
}
static bool emitSample(bool any) {   // a model of a finished path, to be replayed on the real build
  if (nsamples >= maxSamples) return true;
  Z3_model m = NULL;
  for (int t = 0; t < (any ? 2 : 1) && !m; t++) {
    Z3_solver s = freshSolver(false); for (auto a : asserted) Z3_solver_assert(ctx, s, a);
    if (t == 0) restrictInputs(s, nsamples + (int)st.cases * 3);
    else boundInputs(s, 16);
    if (check(s, 500) == Z3_L_TRUE) m = Z3_solver_get_model(ctx, s);
  }
  if (!m) return false;
  Z3_model_inc_ref(ctx, m); nsamples++;
  std::string s = "{\"sample\":1,\"choices\":" + choiceJson() + ",\"case\":" + jstr(choiceText()) + ",\"inputs\":{"; bool first = true;
  for (auto &kv : vars) { double v = modelVal(m, nodes[kv.second].ast); if (v == 0) continue; char b[64]; snprintf(b, 64, "%.17g", v); s += (first ? "" : ",") + jstr(kv.first) + ":" + b; first = false; }
  Z3_model_dec_ref(ctx, m); s += "}}\n"; fputs(s.c_str(), out); fflush(out); return true;
}
static Z3_model pathModel() {
  for (int t = 0; t < 3; t++) {
    Z3_solver s = freshSolver(false); for (auto a : asserted) Z3_solver_assert(ctx, s, a);
    if (t == 0) boundInputs(s, 4); if (t == 1) boundInputs(s, 100);
    if (check(s, 5000) == Z3_L_TRUE) return Z3_solver_get_model(ctx, s);
  }
  return NULL;
}
static Z3_params somParams;
static Z3_ast somSimplify(Z3_ast a) {
  Z3_params p = somParams;
  double t = now(); inZ3 = 1; Z3_ast r = Z3_simplify_ex(ctx, a, p); inZ3 = 0; st.solver += now() - t; return r;
}

// ------------------------------------------------------------------ polynomial normalisation with the definitions as rewrite rules; every result is certified by Z3 (QF_LRA over monomials)
typedef std::vector<std::pair<int, int>> MonoV;   // (atom node, exponent), atoms in descending order
struct MonoH { size_t operator()(const MonoV &m) const { u64 h = 7; for (auto &p : m) { h ^= (u64)p.first * 1000003 + p.second + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
struct MonoGt { bool operator()(const MonoV &a, const MonoV &b) const { return a > b; } };   // lexicographic: newest atom first
typedef std::map<MonoV, mpq_class, MonoGt> Poly;
static std::unordered_map<u64, Poly> polyMemo; static size_t polyLimit = 6000;
struct TooBig {};
static MonoV mmul(const MonoV &a, const MonoV &b) {
  MonoV r; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first > b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first > a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
  } return r; }
static bool mdivides(const MonoV &d, const MonoV &m, MonoV &q) {   // q = m/d
  q.clear(); size_t j = 0;
  for (auto &p : m) { int e = p.second; if (j < d.size() && d[j].first == p.first) { if (d[j].second > e) return false; e -= d[j].second; j++; } else if (j < d.size() && d[j].first > p.first) return false; if (e) q.push_back({p.first, e}); }
  return j == d.size(); }
static void padd(Poly &p, const MonoV &m, const mpq_class &c) { auto it = p.find(m); if (it == p.end()) { if (c != 0) p[m] = c; } else { it->second += c; if (it->second == 0) p.erase(it); } if (p.size() > polyLimit) throw TooBig(); }
static Poly pmul(const Poly &a, const Poly &b) { if (a.size() * b.size() > 400000) throw TooBig(); Poly r; for (auto &x : a) for (auto &y : b) padd(r, mmul(x.first, y.first), x.second * y.second); return r; }
static void paddp(Poly &r, const Poly &b, const mpq_class &c) { for (auto &y : b) padd(r, y.first, y.second * c); }
static const Poly &expandP(double h) {
  auto it = polyMemo.find(bits(h)); if (it != polyMemo.end()) return it->second;
  Poly r;
  if (isConc(h)) { if (h != 0) r[MonoV()] = mpq_class(h); }
  else {
    int id = bits(h) & 0xFFFFFFFFFFFFull; Key k = nodes[id].k;
    switch (k.op) {
      case OADD: r = expandP(dbl(k.a)); paddp(r, expandP(dbl(k.b)), 1); break;
      case OSUB: r = expandP(dbl(k.a)); paddp(r, expandP(dbl(k.b)), -1); break;
      case ONEG: paddp(r, expandP(dbl(k.a)), -1); break;
      case OMUL: { Poly x = expandP(dbl(k.a)); r = pmul(x, expandP(dbl(k.b))); break; }
      case ODIV: if (isConc(dbl(k.b))) { paddp(r, expandP(dbl(k.a)), 1 / mpq_class(dbl(k.b))); break; } r[MonoV{{id, 1}}] = 1; break;
      case OCONST: { Z3_string s = Z3_get_numeral_string(ctx, nodes[id].ast); mpq_class q; if (q.set_str(s, 10)) { r[MonoV{{id, 1}}] = 1; break; } q.canonicalize(); if (q != 0) r[MonoV()] = q; break; }
      default: r[MonoV{{id, 1}}] = 1;
    }
  }
  return polyMemo[bits(h)] = r;
}
struct Rule { MonoV lm; Poly rhs; };   // lm = rhs
static std::vector<Rule> eqRules; static std::unordered_map<int, Rule> atomRules;
static bool orient(Poly p, Rule &r) { if (p.empty()) return false; auto it = p.begin(); if (it->first.empty()) return false; r.lm = it->first; mpq_class c = it->second; p.erase(it); r.rhs.clear(); paddp(r.rhs, p, -1 / c); return true; }
static const Rule *atomRule(int id) {
  auto it = atomRules.find(id); if (it != atomRules.end()) return it->second.lm.empty() ? NULL : &it->second;
  Rule r; Key k = nodes[id].k;
  if (k.op == ODIV) { Poly p; Poly q; q[MonoV{{id, 1}}] = 1; p = pmul(q, expandP(dbl(k.b))); paddp(p, expandP(dbl(k.a)), -1); orient(p, r); }
  else if (k.op == OSQRT) { r.lm = MonoV{{id, 2}}; r.rhs = expandP(dbl(k.a)); }
  else if (k.op == OABS) { r.lm = MonoV{{id, 2}}; const Poly &x = expandP(dbl(k.a)); r.rhs = pmul(x, x); }
  return &(atomRules[id] = r), r.lm.empty() ? NULL : &atomRules[id];
}
struct Inst { MonoV m; const Rule *r; };
static bool preduce(Poly &p, std::vector<Inst> &log, size_t maxSteps) {
  Poly done; size_t steps = 0; MonoV q;
  while (!p.empty()) {
    auto it = p.begin(); const MonoV m = it->first; const Rule *use = NULL;
    for (auto &r : eqRules) if (mdivides(r.lm, m, q)) { use = &r; break; }
    if (!use) for (auto &a : m) { int op = nodes[a.first].k.op; if (op != ODIV && op != OSQRT && op != OABS) continue; const Rule *r = atomRule(a.first); if (r && mdivides(r->lm, m, q)) { use = r; break; } }
    mpq_class c = it->second; p.erase(it);
    if (!use) { done[m] = c; continue; }
    if (++steps > maxSteps) throw TooBig();
    log.push_back(Inst{q, use});
    for (auto &t : use->rhs) padd(p, mmul(q, t.first), c * t.second);
  }
  p.swap(done); return p.empty();
}
static Z3_ast monoVar(const MonoV &m) { if (m.empty()) return num(1); std::string n = "m!"; for (auto &x : m) n += std::to_string(x.first) + "^" + std::to_string(x.second) + "."; return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), RS); }
static Z3_ast linAst(const Poly &p) {
  if (p.empty()) return num(0); std::vector<Z3_ast> t;
  for (auto &x : p) { Z3_ast c[2] = {Z3_mk_numeral(ctx, x.second.get_str().c_str(), RS), monoVar(x.first)}; t.push_back(Z3_mk_mul(ctx, 2, c)); }
  return t.size() == 1 ? t[0] : Z3_mk_add(ctx, (unsigned)t.size(), t.data()); }
static bool certify(const Poly &from, const Poly &to, const std::vector<Inst> &log) {   // Z3: instances |- from = to
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LRA")); Z3_solver_inc_ref(ctx, s);
  for (auto &i : log) { Poly l; l[mmul(i.m, i.r->lm)] = 1; for (auto &t : i.r->rhs) padd(l, mmul(i.m, t.first), -t.second); Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, linAst(l), num(0))); }
  Z3_solver_assert(ctx, s, Z3_mk_not(ctx, Z3_mk_eq(ctx, linAst(from), linAst(to))));
  st.goalq++; Z3_lbool r = check(s, 20000); Z3_solver_dec_ref(ctx, s); st.lemmas += log.size(); return r == Z3_L_FALSE; }
static void buildEqRules() {
  eqRules.clear();
  for (auto &e : pathEqs) { try { Poly p = expandP(e.first); paddp(p, expandP(e.second), -1); std::vector<Inst> lg; Poly p0 = p; preduce(p, lg, 2000); Rule r; if (lg.empty() ? orient(p, r) : orient(p0, r)) eqRules.push_back(r); } catch (TooBig &) {} }
}
static Poly lastNF; static long polyGiveup;
// is a == b on this path, as a consequence of definitions and path equalities?
static bool polyProve(double a, double b) {
  if (isPoi(a) || isPoi(b)) return false;
  try {
    Poly p = expandP(a); paddp(p, expandP(b), -1);
    std::vector<Inst> log; Poly p0 = p;
    if (preduce(p, log, 20000)) return certify(p0, p, log);
    if (log.size() && !certify(p0, p, log)) return false;
    // clear denominators, newest first: d^m p  with  q d = n
    for (int round = 0; round < 60; round++) {
      int q = -1; for (auto &t : p) for (auto &x : t.first) if (nodes[x.first].k.op == ODIV && x.first > q) q = x.first;
      lastNF = p;
      if (q < 0) return false;
      int m = 0; for (auto &t : p) for (auto &x : t.first) if (x.first == q && x.second > m) m = x.second;
      const Poly d = expandP(dbl(nodes[q].k.b)), n = expandP(dbl(nodes[q].k.a)); Rule rq; rq.lm = MonoV{{q, 1}};
      std::vector<Poly> dn(1), nn(1); dn[0][MonoV()] = 1; nn[0][MonoV()] = 1; for (int i = 1; i <= m; i++) { dn.push_back(pmul(dn[i - 1], d)); nn.push_back(pmul(nn[i - 1], n)); }
      Poly r, full = pmul(p, dn[m]);
      std::vector<Inst> lg; Rule base; Poly dq; { Poly one; one[MonoV{{q, 1}}] = 1; dq = pmul(one, d); }
      // certification: full - r is a combination of q^i d^j (q d - n); use instances with polynomial multipliers expanded
      std::vector<Poly> inst;
      for (auto &t : p) { int k = 0; MonoV rest; for (auto &x : t.first) if (x.first == q) k = x.second; else rest.push_back(x);
        Poly mm; mm[rest] = t.second; Poly term = pmul(pmul(mm, nn[k]), dn[m - k]); paddp(r, term, 1);
        for (int i = 0; i < k; i++) { // q^(k-i) d^(k-i) n^i -> q^(k-i-1) d^(k-i-1) n^(i+1)
          Poly mult = pmul(pmul(mm, nn[i]), dn[m - i - 1]); MonoV qm; if (k - i - 1 > 0) qm = MonoV{{q, k - i - 1}}; Poly qp; qp[qm] = 1; mult = pmul(mult, qp);
          Poly rel = dq; paddp(rel, n, -1); inst.push_back(pmul(mult, rel)); } }
      { Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LRA")); Z3_solver_inc_ref(ctx, s);
        for (auto &i : inst) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, linAst(i), num(0)));
        Z3_solver_assert(ctx, s, Z3_mk_not(ctx, Z3_mk_eq(ctx, linAst(full), linAst(r))));
        st.goalq++; Z3_lbool ok = check(s, 20000); Z3_solver_dec_ref(ctx, s); st.lemmas += inst.size(); if (ok != Z3_L_FALSE) return false; }
      Poly r0 = r; std::vector<Inst> l2; bool z = preduce(r, l2, 20000); if (l2.size() && !certify(r0, r, l2)) return false;
      if (z) return true; p = r;
    }
  } catch (TooBig &) { polyGiveup++; }
  return false;
}
// --- normalisation on the fly
static void dbgPoly(const char *w, double a) {
  try { Poly p = expandP(a); fprintf(stderr, "DBG %s:", w); for (auto &t : p) { fprintf(stderr, " + %s", t.second.get_str().c_str()); for (auto &x : t.first) { Node &n = nodes[x.first]; fprintf(stderr, "*%s%d%s", n.k.op == OVAR ? n.name.c_str() : n.k.op == ODIV ? "q" : n.k.op == OSQRT ? "s" : "t", x.first, x.second > 1 ? "^n" : ""); } } fprintf(stderr, "\n"); } catch (TooBig &) {} }
static double fromPoly(const Poly &p) {
  double s = 0;
  for (auto &t : p) {
    double m = 1; for (auto &x : t.first) for (int e = 0; e < x.second; e++) m = __sym_mul(m, mk(x.first));
    double cd = t.second.get_d(); double c = (!isinf(cd) && mpq_class(cd) == t.second) ? cd : ratConst(Z3_mk_numeral(ctx, t.second.get_str().c_str(), RS), cd);
    s = __sym_add(s, __sym_mul(c, m)); }
  return s; }
static bool sameTerm(double a, double b) {   // certified by Z3's polynomial normal form
  if (bits(a) == bits(b)) return true;
  Z3_ast x[2] = {mkreal(a), mkreal(b)}; if (!x[0] || !x[1]) return false; st.lemmas++;
  return Z3_get_bool_value(ctx, somSimplify(Z3_mk_eq(ctx, x[0], x[1]))) == Z3_L_TRUE; }
static bool polyDivide(Poly a, const Poly &b, Poly &q) {
  q.clear(); if (b.empty()) return false; int steps = 0; MonoV m;
  while (!a.empty()) { if (++steps > 4000 || !mdivides(b.begin()->first, a.begin()->first, m)) return false;
    mpq_class c = a.begin()->second / b.begin()->second; padd(q, m, c); for (auto &t : b) padd(a, mmul(m, t.first), -c * t.second); }
  return true; }
static bool ratSqrt(const mpq_class &c, mpq_class &r) { if (c < 0) return false; mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); if (n * n != c.get_num() || d * d != c.get_den()) return false; r = mpq_class(n, d); return true; }
static bool polySqrt(const Poly &p, Poly &r) {
  r.clear(); if (p.empty()) return true; MonoV m = p.begin()->first; for (auto &x : m) { if (x.second & 1) return false; x.second /= 2; }
  mpq_class c; if (!ratSqrt(p.begin()->second, c)) return false; Poly lead; lead[m] = c; r = lead;
  Poly rem = p; paddp(rem, pmul(r, r), -1); MonoV q;
  for (int i = 0; !rem.empty(); i++) { if (i > 200 || !mdivides(m, rem.begin()->first, q)) return false; if (!(MonoGt()(m, q))) return false;
    mpq_class k = rem.begin()->second / (2 * c); Poly t; t[q] = k; Poly u = pmul(r, t); paddp(rem, u, -2); paddp(rem, pmul(t, t), -1); padd(r, q, k); }
  return true; }
static bool inNorm = false;
struct InNorm { InNorm() { inNorm = true; } ~InNorm() { inNorm = false; } };
static size_t normMax = 400;
static double normVal(double a) {
  if (!isSym(a) || inNorm) return a; InNorm g;
  try { const Poly p = expandP(a); if (p.size() > normMax) return a; double r = fromPoly(p); if (bits(r) == bits(a)) return a; return sameTerm(a, r) ? r : a; } catch (TooBig &) { return a; } }
static bool normDiv(double a, double b, double &r) {
  if (inNorm) return false; 
  try { const Poly pa = expandP(a), pb = expandP(b); Poly q; if (pa.size() > normMax || pb.size() > normMax) return false;
    if (!polyDivide(pa, pb, q)) return false; { InNorm g; r = fromPoly(q); if (!sameTerm(a, __sym_mul(r, b))) return false; } } catch (TooBig &) { return false; }
  Z3_ast c = Z3_mk_eq(ctx, mkreal(b), num(0));
  if (divmode == 1) { if (decide(c)) softFail("divzero", "division by zero reachable"); } else assertPath(Z3_mk_not(ctx, c));
  return true; }
// p = p' modulo 1/d * d = 1, for the newest inverse whose power can be lowered
static bool redRoots(Poly &p);
static std::unordered_map<u64, double> redMemo;
static double normRed1(double a);
static double normRed(double a) {
  if (!isSym(a) || inNorm) return a; auto it = redMemo.find(bits(a)); if (it != redMemo.end()) return it->second;
  double r = normRed1(a); if (normEager && isSym(r)) r = normVal(r);   // every value is kept as a flat polynomial
  redMemo[bits(a)] = r; redMemo[bits(r)] = r; return r; }
static double normRed1(double a) {
  try {
    Poly p = expandP(a); if (p.size() > normMax) return a; bool changed = redRoots(p); std::vector<int> inv;
    for (auto &t : p) for (auto &x : t.first) { Node &n = nodes[x.first]; if (n.k.op == ODIV && n.k.a == bits(1.0) && std::find(inv.begin(), inv.end(), x.first) == inv.end()) inv.push_back(x.first); }
    if (inv.empty() && !changed) return a; std::sort(inv.rbegin(), inv.rend());
    for (int q : inv) {
      int m = 0; for (auto &t : p) for (auto &x : t.first) if (x.first == q && x.second > m) m = x.second;
      if (!m) continue; const Poly d = expandP(dbl(nodes[q].k.b)); std::vector<Poly> dn(1); dn[0][MonoV()] = 1; for (int i = 1; i <= m; i++) dn.push_back(pmul(dn[i - 1], d));
      Poly N; for (auto &t : p) { int k = 0; MonoV rest; for (auto &x : t.first) if (x.first == q) k = x.second; else rest.push_back(x); Poly mm; mm[rest] = t.second; paddp(N, pmul(mm, dn[m - k]), 1); }
      int j = 0; Poly Q; while (j < m && polyDivide(N, d, Q)) { N = Q; j++; }
      if (!j) continue; changed = true;
      if (m - j) { Poly iv; iv[MonoV{{q, m - j}}] = 1; p = pmul(N, iv); } else p = N;
    }
    if (!changed) return a; InNorm g; double r = fromPoly(p); st.lemmas++; return polyProve(a, r) ? r : a;
  } catch (TooBig &) { return a; } }
static bool redRoots(Poly &p) {   // even powers of the roots of constants
  bool any = false;
  for (int round = 0; round < 50; round++) {
    bool ch = false; Poly r;
    for (auto &t : p) { MonoV m; mpq_class c = t.second; for (auto &x : t.first) { Node &n = nodes[x.first]; double v; mpq_class cq; bool cst = false;
        if (n.k.op == OSQRT && x.second > 1 && n.isc) { const Poly &cp = expandP(dbl(n.k.a)); if (cp.size() == 1 && cp.begin()->first.empty()) { cst = true; cq = cp.begin()->second; } }
        if (!cst) { m.push_back(x); continue; } for (int e = 0; e < x.second / 2; e++) c *= cq; if (x.second & 1) m.push_back({x.first, 1}); ch = true; (void)v; }
      padd(r, m, c); }
    if (!ch) break; any = true; p.swap(r); }
  return any; }
static bool normSqrt(double a, double &r) {
  if (inNorm) return false; double s;
  try { Poly p = expandP(a), q; if (p.size() > normMax) return false; bool red = redRoots(p); if (!polySqrt(p, q)) return false; { InNorm g; s = fromPoly(q); double ss = __sym_mul(s, s); if (red ? !polyProve(a, ss) : !sameTerm(a, ss)) return false; if (red) st.lemmas++; } } catch (TooBig &) { return false; }
  double cv; if (cval(bits(s), cv)) { r = cv < 0 ? __sym_neg(s) : s; return true; }
  r = decide(Z3_mk_ge(ctx, mkreal(s), num(0))) ? s : __sym_neg(s); return true; }
// returns number of failing goals found on this path
static void dischargeGoals() {
  std::vector<Goal> todo;
  for (auto &g : goals) if (g.hard) {
    Z3_solver s = freshSolver(false); for (auto a : asserted) Z3_solver_assert(ctx, s, a); st.goalq++;
    Z3_lbool r = asserted.empty() ? Z3_L_TRUE : check(s, TMO_GOAL);
    if (r == Z3_L_FALSE) { st.infeasible++; return; }   // path turned out infeasible
    reportFail("goal", g.label, pathModel()); return;
  }
  if (goals.empty()) {   // every assertion of the path compares a term with itself: one query for all of them
    std::vector<Z3_ast> o; for (double a : same_) { Z3_ast x = mkreal(a); o.push_back(Z3_mk_not(ctx, Z3_mk_eq(ctx, x, x))); }
    if (o.empty()) return;
    Z3_solver q = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, q); Z3_solver_assert(ctx, q, Z3_mk_or(ctx, (unsigned)o.size(), o.data())); st.goalq++; Z3_lbool r = check(q, 20000); Z3_solver_dec_ref(ctx, q);
    if (r == Z3_L_TRUE) reportFail("goal", "identical terms differ", pathModel());
    return;
  }
  // 1. polynomial normalisation of each goal by Z3
  for (auto &g : goals) {
    Z3_ast s = somSimplify(g.bad); st.goalq++;
    if (Z3_get_bool_value(ctx, s) == Z3_L_FALSE) continue;
    todo.push_back(g);
  }
  if (todo.empty()) return;
  // 1b. normalisation modulo the definitions and equalities of this path
  { std::vector<Goal> rest; buildEqRules(); atomRules.clear();
    for (auto &g : todo) { if (g.kind == 0 && polyProve(g.a, g.b)) { st.polyproved++; continue; } rest.push_back(g); }
    todo.swap(rest); }
  if (todo.empty()) return;
  // 1c. cheap search for a counterexample: inputs restricted to a few values
  { Z3_solver s = freshSolver(false); for (auto a : asserted) Z3_solver_assert(ctx, s, a); restrictInputs(s, (int)st.paths);
    std::vector<Z3_ast> o; for (auto &g : todo) o.push_back(g.strong ? g.strong : g.bad);
    Z3_solver_assert(ctx, s, Z3_mk_or(ctx, (unsigned)o.size(), o.data())); st.goalq++;
    if (check(s, 2000) == Z3_L_TRUE) { Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m); std::string label = todo[0].label;
      for (auto &g : todo) { Z3_ast e; bool ok = Z3_model_eval(ctx, m, g.strong ? g.strong : g.bad, true, &e); if (ok && Z3_get_bool_value(ctx, e) == Z3_L_TRUE) { label = g.label; break; } }
      reportFail("goal", label, m); return; } }
  // 2. all at once
  auto solve = [&](std::vector<Goal> &gs, unsigned tmo, Z3_model *m) {
    Z3_solver s = freshSolver(false); for (auto a : asserted) Z3_solver_assert(ctx, s, a);
    std::vector<Z3_ast> o; for (auto &g : gs) o.push_back(g.bad);
    Z3_solver_assert(ctx, s, Z3_mk_or(ctx, (unsigned)o.size(), o.data())); st.goalq++;
    Z3_lbool r = check(s, tmo); if (r == Z3_L_TRUE) *m = Z3_solver_get_model(ctx, s); return r; };
  Z3_model m = NULL;
  Z3_lbool r = solve(todo, TMO_GOAL, &m);
  if (r == Z3_L_FALSE) return;
  if (r == Z3_L_UNDEF) {
    std::vector<Goal> rest; 
    for (auto &g : todo) { std::vector<Goal> one{g}; Z3_lbool q = solve(one, TMO_GOAL, &m);
      if (q == Z3_L_FALSE) continue; if (q == Z3_L_TRUE) { rest.clear(); rest.push_back(g); r = q; break; } 
      st.unknown++; unkLabels += choiceText() + " :: " + g.label + "; "; }
    if (r != Z3_L_TRUE) return; todo = rest;
  }
  // 3. a counterexample exists: find which goal, prefer small inputs and a clear margin
  std::string label; for (auto &g : todo) { Z3_ast e; Z3_model_inc_ref(ctx, m); bool ok = Z3_model_eval(ctx, m, g.bad, true, &e); Z3_model_dec_ref(ctx, m); if (ok && Z3_get_bool_value(ctx, e) == Z3_L_TRUE) { label = g.label; break; } }
  Z3_model best = m; Z3_model_inc_ref(ctx, m);
  for (int t = 0; t < 2; t++) {
    Z3_solver s = freshSolver(false); for (auto a : asserted) Z3_solver_assert(ctx, s, a);
    std::vector<Z3_ast> o; for (auto &g : todo) o.push_back(g.strong ? g.strong : g.bad);
    Z3_solver_assert(ctx, s, Z3_mk_or(ctx, (unsigned)o.size(), o.data())); boundInputs(s, t ? 64 : 4);
    if (check(s, 8000) == Z3_L_TRUE) { best = Z3_solver_get_model(ctx, s); 
      for (auto &g : todo) { Z3_ast e; Z3_model_inc_ref(ctx, best); bool ok = Z3_model_eval(ctx, best, g.strong ? g.strong : g.bad, true, &e); if (ok && Z3_get_bool_value(ctx, e) == Z3_L_TRUE) { label = g.label; break; } }
      break; }
  }
  reportFail("goal", label, best);
}
static void onSignal(int sig) {
  if (sig == SIGALRM || sig == SIGVTALRM) {
    static long last = -1; static int same = 0;
    if (inZ3) { same = 0; return; }
    if (progress == last) same++; else same = 0; last = progress;
    if (same < 4) return; same = 0;
    failKind = "hang"; failLabel = "no progress: non-termination";
    siglongjmp(top, J_CRASH);
  }
  if (inZ3) { static const char m[] = "symrt: crash inside solver\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
  failKind = "crash"; failLabel = sig == SIGABRT ? "abort" : sig == SIGFPE ? "SIGFPE" : "invalid memory access (signal)";
  siglongjmp(top, J_CRASH);
}
static void newContext() {
  if (ctx) Z3_del_context(ctx); qsolver = NULL; qmemo.clear();
  Z3_config c = Z3_mk_config(); ctx = Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(ctx, z3err);
  somParams = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, somParams); Z3_params_set_bool(ctx, somParams, Z3_mk_string_symbol(ctx, "som"), true);
  RS = Z3_mk_real_sort(ctx); nodes.clear(); memo.clear(); vars.clear(); polyMemo.clear(); atomRules.clear();
  nodes.push_back(Node{Key{OCONST, 0, 0, 0}, num(0), -1, {}, ""});
}
// globals of the code under test live in their own sections and are restored before every path
extern "C" { extern char __start_symdata[] __attribute__((weak)), __stop_symdata[] __attribute__((weak)); }
static std::vector<char> gsave;
static void runPath() {   // one execution with the current decision prefix
  Z3_solver_reset(ctx, solver); if (qsolver) Z3_solver_reset(ctx, qsolver); qdone = 0; assumed.clear(); asserted.clear(); goals.clear(); same_.clear(); pathEqs.clear(); depth = 0; pathNo++; opsThisPath = 0;
  desc.clear(); memReset(); thr.clear(); envmap.clear(); divmode = 0; absFork = 0; normOn = normEager = false; inNorm = false; redMemo.clear(); eqRules.clear(); thrMode = 0; TMO_BRANCH = 3000; TMO_GOAL = 20000; eqTaken = 0; maxEq = 1 << 30;
  if (__start_symdata) { size_t n = __stop_symdata - __start_symdata; if (gsave.empty()) gsave.assign(__start_symdata, __stop_symdata); else memcpy(__start_symdata, gsave.data(), n); }
  sym_main();
}
static bool nextPath() { while (!decs.empty()) { if (decs.back().flip) { decs.back().val = !decs.back().val; decs.back().flip = false; return true; } decs.pop_back(); } return false; }
static bool nextChoice() { while (!choices.empty()) { if (choices.back().v + 1 < choices.back().n) { choices.back().v++; return true; } choices.pop_back(); } return false; }
int main(int argc, char **argv) {
  double budget = 0; const char *of = NULL;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--worker") worker = atoi(argv[++i]); else if (a == "--nworkers") nworkers = atoi(argv[++i]);
    else if (a == "--tier") tier = atoi(argv[++i]); else if (a == "--out") of = argv[++i]; else if (a == "--samples") maxSamples = atoi(argv[++i]); else if (a == "--sample-every") sampleEvery = atoi(argv[++i]);
    else if (a == "--known") { FILE *f = fopen(argv[++i], "r"); char l[2048]; while (f && fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (!*l) continue; regex_t re; if (regcomp(&re, l, REG_EXTENDED | REG_NOSUB)) die("bad known-finding pattern"); known.push_back({l, re}); } if (f) fclose(f); }
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--case") { onlyCase = 1; char *s = strdup(argv[++i]); for (char *t = strtok(s, ","); t; t = strtok(NULL, ",")) onlyChoices.push_back(atoi(t)); } }
  out = of ? fopen(of, "w") : stdout; double t0 = now(); if (budget) deadline = t0 + budget;
  static char altstack[1 << 16]; stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER; 
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, NULL);
  struct itimerval it; it.it_interval.tv_sec = it.it_value.tv_sec = 2; it.it_interval.tv_usec = it.it_value.tv_usec = 0; setitimer(ITIMER_REAL, &it, NULL);
  bool more = true; volatile bool limited = false; volatile long casesDone = 0;
  while (more) {
    // a case: one tuple of choices
    decs.clear(); sealed_ = false; static volatile bool contextReady; contextReady = false; volatile long npaths = 0; volatile bool witnessed = false, sampled = false;
    for (;;) {
      chpos = 0; sealed_ = npaths > 0; if (onlyCase) choices.clear();
      if (!contextReady) { // cheap enumeration of choices first: context is only created for our own cases
        static bool have = false; if (!have || casesDone != st.cases) { newContext(); have = true; casesDone = st.cases; } else { nodes.resize(1); memo.clear(); vars.clear(); polyMemo.clear(); atomRules.clear(); }
        solver = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, solver);
        contextReady = true; }
      volatile int j = sigsetjmp(top, 1);
      if (j == 0) {
        runPath(); npaths++; st.paths++; st.ops += opsThisPath;
        if (!memEnd()) goalFail("memory", ": write outside an allocated block");
        if (!witnessed && goals.size() == 0) witnessed = true;
        dischargeGoals();
        if (npaths == 1) { // reachability witness for the first path of the case
          Z3_lbool r = asserted.empty() ? Z3_L_TRUE : check(solver, 1500); if (r == Z3_L_TRUE) st.witnesses++; else if (r == Z3_L_FALSE) st.infeasible++;
        }
        if (!sampled && npaths <= 8 && nfail == 0 && sampleEvery > 0 && st.cases % sampleEvery == 0) sampled = emitSample(npaths >= 4);
      } else if (j == J_SKIP || j == J_NOTMINE) break;
      else if (j == J_DEAD) { st.dead++; npaths++; }
      else if (j == J_LIMIT) { st.truncated++; npaths++; if (failKind == "unsupported") { notes.push_back("unsupported: " + failLabel); failKind = ""; fprintf(out, "{\"unsupported\":%s,\"case\":%s}\n", jstr(failLabel).c_str(), jstr(choiceText()).c_str()); } if (deadline && now() > deadline) { limited = true; break; } }
      else if (j == J_FAIL || j == J_CRASH) {
        npaths++; st.paths++;
        if (j == J_CRASH) { Z3_solver s = freshSolver(false); for (auto a : asserted) Z3_solver_assert(ctx, s, a); Z3_lbool r = check(s, TMO_GOAL); if (r != Z3_L_FALSE) reportFail(failKind, failLabel, pathModel()); }
        else { reportFail(failKind, failLabel, pathModel()); }
      }
      if (nfail >= MAXFAIL) { limited = true; break; }
      if (deadline && now() > deadline) { limited = true; st.truncated++; break; }
      if (npaths >= maxPaths) { st.truncated++; break; }
      if (!nextPath()) break;
    }
    if (npaths > 0) { st.cases++; }
    if (onlyCase || limited) break;
    more = nextChoice();
  }
  memReset();
  std::string nj = "["; for (auto &n : notes) { if (nj.size() > 1) nj += ","; nj += jstr(n); } nj += "]";
  fprintf(out, "{\"stats\":1,\"cases\":%ld,\"paths\":%ld,\"infeasible\":%ld,\"branch_queries\":%ld,\"goal_queries\":%ld,\"goals\":%ld,\"goals_syntactic\":%ld,\"goals_concrete\":%ld,\"unknown\":%ld,\"witnesses\":%ld,\"truncated\":%ld,\"dead\":%ld,\"ops\":%ld,\"lemmas\":%ld,\"polyproved\":%ld,\"poly_giveup\":%ld,\"eq_cut\":%ld,\"limited\":%d,\"solver_s\":%.3f,\"wall_s\":%.3f,\"notes\":%s,\"unk\":%s}\n",
    st.cases, st.paths, st.infeasible, st.branchq, st.goalq, st.goals, st.trivial, st.concrete, st.unknown, st.witnesses, st.truncated, st.dead, st.ops, st.lemmas, st.polyproved, polyGiveup, eqCut, (int)limited, st.solver, now() - t0, nj.c_str(), jstr(unkLabels).c_str());
  std::string fl = "{\"functions\":["; for (size_t i = 0; i < fnhit.size(); i++) fl += (i ? "," : "") + jstr(fnhit[i]); fl += "]}\n"; fputs(fl.c_str(), out);
  fclose(out); return 0;
}
