// Property-based testing engine: choice tape, generators, error-tracking reference numbers,
// calls into the subject libraries, checks.
#pragma once
#include "subject.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <cfloat>
#include <climits>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <cstdlib>

typedef uint64_t u64; typedef uint32_t u32;

// ---------------------------------------------------------------- reference numbers
// v: value in double; e: bound on the rounding error a float evaluation may carry;
// m: magnitude bound of the terms summed (so that re-association is tolerated); bad: undefined/overflow
static const double U = 1.0 / 16777216.0;         // 2^-24
static const double TINY = 1.401298464324817e-45; // 2^-149
static const double KTOL = 8;
// exponent of the lowest set bit (the quantum a value is a multiple of)
static inline int lsbOf(double v) { if (v == 0) return 4000; uint64_t b; memcpy(&b, &v, 8); int ex = (int)(b >> 52 & 0x7ff); uint64_t m = b & ((1ull << 52) - 1); if (ex) m |= 1ull << 52; else ex = 1; return ex - 1075 + __builtin_ctzll(m); }
// s/sum: for results of additions, the magnitude sum of the added terms, so that any association is tolerated
struct E {
  double v, e, m, s; bool bad, sum = false; int lsb = 4000;
  E() : v(0), e(0), m(0), s(0), bad(false) {}
  E(float f) : v(f), e(0), m(std::fabs((double)f)), s(m), bad(!(std::fabs((double)f) <= 3.5e38)) {}
  E(int i) : E((double)i) {}
  E(double d) : v(d), e((double)(float)d == d ? 0 : U * std::fabs(d)), m(std::fabs(d)), s(m), bad(!(std::fabs(d) <= 3.4e38)) {}
  E(double v_, double e_) : v(v_), e(e_), m(std::fabs(v_)), s(m), bad(false) { fix(); }
  E &fix() { if (!(std::fabs(v) + KTOL * e <= 3.3e38) || !(m <= 3.3e38) || std::isnan(e)) bad = true; return *this; }
  static E mk(double v, double e, double m, bool bad) { E r; r.v = v; r.e = e; r.m = r.s = m; r.bad = bad; return r.fix(); }
  static E Bad() { E r; r.bad = true; return r; }
  // the same value with an extra relative / absolute error allowance
  E rel(double r) const { E x = *this; x.e += r * std::fabs(v); return x; }
  E abs_(double a) const { E x = *this; x.e += a; return x; }
};
static inline bool exact(const E &a) { return a.e == 0; }
static inline E operator-(const E &a) { E r = a; r.v = -a.v; return r; }
static inline E operator+(const E &a, const E &b) {
  double v = a.v + b.v, m; E r;
  if (a.v == 0 && exact(a) && !a.sum) { r = b; r.bad = a.bad || b.bad; return r; }
  if (b.v == 0 && exact(b) && !b.sum) { r = a; r.bad = a.bad || b.bad; return r; }
  double s = (a.sum ? a.s : std::fabs(a.v)) + (b.sum ? b.s : std::fabs(b.v));
  if (exact(a) && exact(b)) {
    bool rep = (double)(float)v == v; int lsb = std::min(a.sum ? a.lsb : lsbOf(a.v), b.sum ? b.lsb : lsbOf(b.v));
    if (!a.sum && !b.sum) r = E::mk(v, rep ? 0 : U * std::fabs(v), std::fabs(v), a.bad || b.bad);
    else r = E::mk(v, lsb >= -149 && s <= std::ldexp(1.0, lsb + 24) ? 0 : U * s, std::fabs(v), a.bad || b.bad);
    r.lsb = lsb;
  } else {
    m = a.m + b.m;
    r = E::mk(v, a.e + b.e + U * (a.sum || b.sum ? std::max(m, s) : m), m, a.bad || b.bad);
  }
  r.sum = true; r.s = s; return r;
}
static inline E operator-(const E &a, const E &b) { return a + (-b); }
static inline E operator*(const E &a, const E &b) {
  double v = a.v * b.v;
  if (exact(a) && exact(b)) return E::mk(v, (double)(float)v == v ? 0 : U * std::fabs(v) + TINY, std::fabs(v), a.bad || b.bad);
  if ((exact(a) && a.v == 0) || (exact(b) && b.v == 0)) return E::mk(0, 0, 0, a.bad || b.bad);
  if ((exact(a) && std::fabs(a.v) == 1)) return E::mk(v, b.e, b.m, a.bad || b.bad);
  if ((exact(b) && std::fabs(b.v) == 1)) return E::mk(v, a.e, a.m, a.bad || b.bad);
  double m = a.m * b.m;
  return E::mk(v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e + U * m + TINY, m, a.bad || b.bad);
}
static inline E operator/(const E &a, const E &b) {
  double d = std::fabs(b.v) - KTOL * b.e;
  if (!(d > 0)) return E::Bad();
  double v = a.v / b.v;
  // a/b is also allowed to be evaluated as a*(1/b): 1/b must neither overflow nor lose its precision
  bool bad = a.bad || b.bad;
  if (std::fabs(b.v) < 3.2e-39) bad = true;
  int ex_; if (exact(a) && exact(b) && (a.v == 0 || (std::frexp(std::fabs(b.v), &ex_) == 0.5 && (double)(float)v == v && std::fabs(b.v) < 8e37))) return E::mk(v, 0, std::fabs(v), bad);
  double sub = 0; if (std::fabs(b.v) > 8e37) sub = TINY * std::fabs(a.v);
  return E::mk(v, (a.e + std::fabs(v) * b.e) / d + 2 * U * std::fabs(v) + TINY + sub, std::fabs(v), bad);
}
static inline E &operator+=(E &a, const E &b) { return a = a + b; }
static inline E &operator-=(E &a, const E &b) { return a = a - b; }
static inline E &operator*=(E &a, const E &b) { return a = a * b; }
static inline E sq(const E &a) { return a * a; }
static inline E Sqrt(const E &a) {
  if (a.bad || a.v < -KTOL * a.e) return E::Bad();
  double v = std::sqrt(std::max(a.v, 0.0)), hi = std::sqrt(std::max(a.v + a.e, 0.0)), lo = std::sqrt(std::max(a.v - a.e, 0.0));
  double e = std::max(hi - v, v - lo);
  if (e == 0 && v == 0) return E::mk(v, 0, v, false);
  return E::mk(v, e + U * v, v, false);
}
static inline E Abs(const E &a) { E r = a; r.v = std::fabs(a.v); return r; }
static inline E Max(const E &a, const E &b) { E r = a.v >= b.v ? a : b; if (!(exact(a) && exact(b))) r.e = std::max(a.e, b.e); r.bad = a.bad || b.bad; return r; }
static inline E Min(const E &a, const E &b) { E r = a.v <= b.v ? a : b; if (!(exact(a) && exact(b))) r.e = std::max(a.e, b.e); r.bad = a.bad || b.bad; return r; }
static inline E Sin(const E &a) { return E::mk(std::sin(a.v), std::min(a.e, 2.0) + 2 * U * std::fabs(std::sin(a.v)) + U * 1e-3 * 0, std::fabs(std::sin(a.v)), a.bad); }
static inline E Cos(const E &a) { return E::mk(std::cos(a.v), std::min(a.e, 2.0) + 2 * U * std::fabs(std::cos(a.v)), std::fabs(std::cos(a.v)), a.bad); }
static inline E Tan(const E &a) {
  double c = std::fabs(std::cos(a.v)) - KTOL * a.e; if (c <= 0) return E::Bad();
  double v = std::tan(a.v); return E::mk(v, a.e / (c * c) + 2 * U * std::fabs(v), std::fabs(v), a.bad);
}
// acos/asin with the argument clamped to [-1,1]
static inline E Acos(const E &a) {
  auto cl = [](double x) { return x < -1 ? -1.0 : x > 1 ? 1.0 : x; };
  double v = std::acos(cl(a.v)); double e = std::max(std::fabs(std::acos(cl(a.v - a.e)) - v), std::fabs(std::acos(cl(a.v + a.e)) - v));
  return E::mk(v, e + 2 * U * v, v, a.bad);
}
static inline E Asin(const E &a) {
  auto cl = [](double x) { return x < -1 ? -1.0 : x > 1 ? 1.0 : x; };
  double v = std::asin(cl(a.v)); double e = std::max(std::fabs(std::asin(cl(a.v - a.e)) - v), std::fabs(std::asin(cl(a.v + a.e)) - v));
  return E::mk(v, e + 2 * U * std::fabs(v), std::fabs(v), a.bad);
}
static inline E Atan2(const E &y, const E &x) {
  double r2 = x.v * x.v + y.v * y.v; if (!(std::sqrt(r2) > KTOL * (x.e + y.e)) || r2 == 0) return E::Bad();
  double v = std::atan2(y.v, x.v);
  return E::mk(v, (std::fabs(x.v) * y.e + std::fabs(y.v) * x.e) / r2 + 2 * U * std::fabs(v), std::fabs(v), x.bad || y.bad);
}
static inline E dotE(const E *a, const E *b, int n) { E s = a[0] * b[0]; for (int i = 1; i < n; i++) s += a[i] * b[i]; return s; }
static inline E normE(const E *a, int n) { return Sqrt(dotE(a, a, n)); }

enum Tri { NO = 0, YES = 1, UNK = 2 };
static inline Tri tnot(Tri a) { return a == UNK ? UNK : a == YES ? NO : YES; }
static inline Tri operator&&(Tri a, Tri b) { if (a == NO || b == NO) return NO; if (a == UNK || b == UNK) return UNK; return YES; }
static inline Tri operator||(Tri a, Tri b) { if (a == YES || b == YES) return YES; if (a == UNK || b == UNK) return UNK; return NO; }
static inline Tri tri(bool b) { return b ? YES : NO; }
static inline Tri lt(const E &a, const E &b) { // a < b
  if (a.bad || b.bad) return UNK;
  double d = b.v - a.v, t = KTOL * (a.e + b.e); if (t > 0) t += U * (std::fabs(a.v) + std::fabs(b.v));
  if (t == 0) return tri(d > 0);
  return d > t ? YES : d < -t ? NO : UNK;
}
static inline Tri le(const E &a, const E &b) { return tnot(lt(b, a)); }
static inline Tri gt(const E &a, const E &b) { return lt(b, a); }
static inline Tri ge(const E &a, const E &b) { return tnot(lt(a, b)); }

// ---------------------------------------------------------------- rng and choice tape
static inline u64 mix64(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static inline u64 hashs(const char *s) { u64 h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return mix64(h); }
struct Tape {
  bool replay = false; u64 st = 0; std::vector<u32> in, rec; size_t pos = 0;
  void start(u64 seed) { replay = false; st = seed; rec.clear(); pos = 0; }
  void startReplay(const std::vector<u32> &t) { replay = true; in = t; rec.clear(); pos = 0; }
  u32 u(u32 n) { // uniform choice in [0,n); 0 is the simplest
    u32 r;
    if (replay) r = pos < in.size() ? in[pos] : 0; else { st = mix64(st); r = (u32)(st >> 17); }
    pos++;
    if (n) r %= n;
    rec.push_back(r); return r;
  }
};

struct Failed {};          // thrown when a check fails
struct Skip {};            // thrown when a case is outside the domain

// ---------------------------------------------------------------- subjects
struct Fn { const vf_fn *t; };
struct Subject {
  std::string cfg; std::map<std::string, const vf_fn *> fns;
  std::map<std::string, void *> extra;
  int clip = 0;   // 0 rh_no 1 rh_zo 2 lh_no 3 lh_zo
  Subject *twin = nullptr; // a second copy of the same machine code with variables of its own
  void *dl = nullptr;
};
extern std::vector<Subject *> g_subj;
extern bool g_replaying; extern std::vector<float> g_dict; extern std::vector<int> g_idict;

static const int MAXARG = 12, MAXLEN = 128, TEXTLEN = 512; // text outputs are int arrays
struct FV { // small float vector value
  int n; float v[MAXLEN];
  FV(int n_ = 0) : n(n_) { for (int i = 0; i < n; i++) v[i] = 0; }
  FV(std::initializer_list<float> l) : n(0) { for (float f : l) v[n++] = f; }
  float &operator[](int i) { return v[i]; } float operator[](int i) const { return v[i]; }
};
struct Arg { int k; const float *p; const int *ip; float f; int i; int n;
  Arg(const FV &x) : k(0), p(x.v), ip(0), f(0), i(0), n(x.n) {}
  Arg(const float *x) : k(0), p(x), ip(0), f(0), i(0), n(-1) {}
  Arg(const int *x) : k(3), p(0), ip(x), f(0), i(0), n(-1) {}
  Arg(float x) : k(1), p(0), ip(0), f(x), i(0), n(1) {}
  Arg(int x) : k(2), p(0), ip(0), f(0), i(x), n(1) {}
};

struct S;
union Cell { float f; int i; u32 u; };
struct C { // one call of a subject function
  S *s; const vf_fn *fn; int api;
  Cell in[MAXARG][TEXTLEN], out[MAXARG][TEXTLEN]; int alias[MAXARG]; bool live[MAXARG]; Cell r;
  // inputs
  E operator()(int i, int j) const { return E(in[i][j].f); }
  E operator()(int i) const { return E(in[i][0].f); }
  float f(int i, int j = 0) const { return in[i][j].f; }
  int I(int i, int j = 0) const { return in[i][j].i; }
  float g(int i, int j = 0) const { return out[i][j].f; }
  int gi(int i, int j = 0) const { return out[i][j].i; }
  void set(int i, const float *p, int n) { for (int j = 0; j < n; j++) in[i][j].f = p[j]; }
  void set(int i, const FV &x) { set(i, x.v, x.n); }
  void set(int i, float x) { in[i][0].f = x; }
  void seti(int i, int x) { in[i][0].i = x; }
  int len(int i) const { return fn->args[i].len; }
  FV fv(int i) const { FV r(len(i)); for (int j = 0; j < r.n; j++) r.v[j] = in[i][j].f; return r; }
  FV ov(int i) const { FV r(len(i)); for (int j = 0; j < r.n; j++) r.v[j] = out[i][j].f; return r; }
  void ev(int i, E *e) const { for (int j = 0; j < len(i); j++) e[j] = E(in[i][j].f); }
  // checks
  void o(int i, int j, const E &ref);
  void oi(int i, int j, long long ref);
  void ret(const E &ref); void retb(Tri t); void reti(long long ref);
  void same(int i);           // whole argument unchanged
  void sameEl(int i, int j);  // element unchanged bit for bit
  void run(int garbage = -1);
  std::string dump(bool outs) const;
};

typedef std::function<void(S &, C &)> GenF;
typedef std::function<void(C &)> BodyF;
struct Test { std::string name, fn; std::vector<std::string> fns; GenF gen; BodyF body; std::function<void(S &)> multi; int weight = 1; bool inlOnly = false; };
extern std::vector<Test> g_tests;

enum { MODE_NORMAL = 0, MODE_GUARD = 1, MODE_ASAN = 2 };
// AddressSanitizer runtime when preloaded (memory checks); messages of errors it saw since the last call
extern void (*g_poison)(void const volatile *, size_t), (*g_unpoison)(void const volatile *, size_t); extern char g_asan[200];
struct S;
// Cross-cutting properties (X01..X04) reuse every test of the other properties as a source of in-domain calls:
// the hook sees each completed call and makes its own comparison; the host test's own expectations are ignored.
extern void (*g_hook)(S &, C &);
struct S { // one test-case execution
  Tape t; Subject *sub = nullptr; int api = 0; int mode = 0; int regime = 0; int mx = 30; float scale = 1; bool nonneg = false;
  bool trivial = false; bool wantDump = false; bool noPerturb = false; int compared = 0, skipped = 0; u64 h = 0;
  std::string msg, dumpText; const Test *test = nullptr;
  C *cur = nullptr; bool inHook = false; C *scratch[4] = {nullptr, nullptr, nullptr, nullptr}; std::string note;
  unsigned char *arena = nullptr; int nalloc = 0;
  std::vector<C *> pool; size_t npool = 0;
  S(); ~S();
  void reset() { npool = 0; trivial = false; compared = skipped = 0; h = 1469598103934665603ull; msg.clear(); dumpText.clear(); mx = 30; nonneg = false; cur = nullptr; noPerturb = false; inHook = false; note.clear(); }
  void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));     // the case fails
  void softfail(const char *fmt, ...) __attribute__((format(printf, 2, 3))); // fails unless a hook is deciding
  C &again(int k, const C &src, Subject *sub, int api, int garbage);         // same inputs, other build / form / garbage
  void skip() { trivial = true; throw Skip(); }
  void triv() { trivial = true; }
  void check(bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void near(float got, const E &ref, const char *what, int i = 0, int j = 0);
  void nearAbs(double got, double ref, double tol, const char *what, int i = 0, int j = 0);
  bool bit() { return t.u(2); }
  int below(int n) { return (int)t.u((u32)n); }
  bool chance(int k) { return t.u((u32)k) == (u32)k - 1; } // probability 1/k; simplest = no
  // generators
  float unit();                      // [-1,1]
  float uni(float a, float b);       // uniform
  float sc();                        // a float of the current regime
  float nz();                        // non-zero
  float pos();                       // positive
  float logu(int lo, int hi);        // 2^[lo,hi], positive
  float angle(); void far_(float *p, int n);
  int ival();
  void newRegime(int maxexp = 30);
  void vec(float *p, int n);
  void fillArg(C &c, int i);
  void def(C &c);                    // default generator for every argument
  FV gvec(int n) { FV r(n); vec(r.v, n); return r; }
  FV dir3();                         // unit float vector (rounded), covers axes and diagonals
  FV unitv(int n);
  FV nzvec(int n, float minlen = 1e-3f);
  FV quat();                         // unit quaternion (rounded)
  FV rot3();                         // rotation matrix 3x3 col major (rounded)
  FV affine4(); FV rigid4(); FV affine3(); FV gen4(); FV mat(int n);
  // calls
  C &call(const char *fn, std::initializer_list<Arg> a);
  C &prep(const char *fn);
  const vf_fn *find(const char *fn);
};
void reg(const std::string &name, const std::string &fn, GenF g, BodyF b);
static inline void reg(const std::string &fn, GenF g, BodyF b) { reg(fn, fn, g, b); }
void regm(const std::string &name, std::vector<std::string> fns, std::function<void(S &)> b, int weight = 1);
static const GenF DEF = [](S &s, C &c) { s.newRegime(); s.def(c); };
static inline GenF DEFX(int mx) { return [mx](S &s, C &c) { s.newRegime(mx); s.def(c); }; }
static inline void also(const std::string &f) { g_tests.back().fns.push_back(f); } // the last test's generator calls f too
void register_tests(const char *prop);
void register_base(); // every test of the V, M, A, Q, C and G properties, for the cross-cutting ones
static inline std::string sfmt(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
