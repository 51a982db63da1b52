#include "engine.hpp"
#include <sys/mman.h>
#include <unistd.h>
bool g_replaying; std::vector<Subject *> g_subj; std::vector<float> g_dict; std::vector<int> g_idict; std::vector<Test> g_tests;

void reg(const std::string &name, const std::string &fn, GenF g, BodyF b) { Test t; t.name = name; t.fn = fn; t.fns = {fn}; t.gen = g; t.body = b; g_tests.push_back(t); }
void regm(const std::string &name, std::vector<std::string> fns, std::function<void(S &)> b, int w) { Test t; t.name = name; t.fns = fns; t.multi = b; t.weight = w; g_tests.push_back(t); }

static const size_t PG = 4096, SLOT = 4 * PG, NSLOT = 64;
S::S() {
  // slots of [guard][page][guard]: normal mode uses the middle of the page, guard mode its edges
  arena = (unsigned char *)mmap(0, SLOT * NSLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (size_t k = 0; k < NSLOT; k++) { mprotect(arena + k * SLOT, PG, PROT_NONE); mprotect(arena + k * SLOT + 2 * PG, 2 * PG, PROT_NONE); }
}
void (*g_hook)(S &, C &) = nullptr;
S::~S() { munmap(arena, SLOT * NSLOT); for (auto *c : pool) delete c; for (auto *c : scratch) delete c; }
void S::fail(const char *fmt, ...) { char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); msg = b; throw Failed(); }
void S::softfail(const char *fmt, ...) { if (g_hook && !inHook) return; char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); msg = b; throw Failed(); }
void S::check(bool ok, const char *fmt, ...) { if (g_hook && !inHook) return; compared++; if (ok) return; char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); msg = b; throw Failed(); }
void S::near(float got, const E &ref, const char *what, int i, int j) {
  if (g_hook && !inHook) return;
  if (ref.bad) { skipped++; return; }
  compared++;
  double tol = KTOL * ref.e; if (tol > 0) tol += 4 * TINY + U * std::fabs(ref.v) * 0;
  double d = std::fabs((double)got - ref.v);
  if (!(d <= tol)) softfail("%s[%d][%d] = %.9g, expected %.9g (tolerance %.3g)", what, i, j, got, ref.v, tol);
}
void S::nearAbs(double got, double ref, double tol, const char *what, int i, int j) {
  if (g_hook && !inHook) return;
  compared++;
  if (!(std::fabs(got - ref) <= tol)) softfail("%s[%d][%d] = %.9g, expected %.9g (tolerance %.3g)", what, i, j, got, ref, tol);
}
void C::o(int i, int j, const E &ref) { s->near(out[i][j].f, ref, fn->args[i].name, i, j); }
void C::oi(int i, int j, long long ref) { if (g_hook && !s->inHook) return; s->compared++; if (out[i][j].i != ref) s->softfail("%s[%d] = %d, expected %lld", fn->args[i].name, j, out[i][j].i, ref); }
void C::ret(const E &ref) { s->near(r.f, ref, "return"); }
void C::retb(Tri t) { if (g_hook && !s->inHook) return; if (t == UNK) { s->skipped++; return; } if (g_hook && !s->inHook) return; s->compared++; if ((r.i != 0) != (t == YES)) s->softfail("returned %s, expected %s", r.i ? "true" : "false", t == YES ? "true" : "false"); }
void C::reti(long long ref) { if (g_hook && !s->inHook) return; s->compared++; if (r.i != ref) s->softfail("returned %d, expected %lld", r.i, ref); }
void C::same(int i) { for (int j = 0; j < len(i); j++) sameEl(i, j); }
void C::sameEl(int i, int j) { if (g_hook && !s->inHook) return; s->compared++; if (out[i][j].u != in[i][j].u && !(out[i][j].f != out[i][j].f && in[i][j].f != in[i][j].f && fn->args[i].kind == 'f')) s->softfail("%s[%d] changed from %.9g to %.9g but must stay", fn->args[i].name, j, in[i][j].f, out[i][j].f); }

// ---------------------------------------------------------------- generators
float S::unit() { // 25-bit signed fraction, simplest 0
  if (noPerturb) return (float)((int)t.u(17) - 8) / 8;
  u32 x = t.u(1u << 25); return (float)((x & 1) ? -(double)(x >> 1) : (double)(x >> 1)) / 16777216.0f;
}
float S::uni(float a, float b) { u32 x = t.u((1u << 24) + 1); return (float)(a + ((double)b - a) * (x / 16777216.0)); }
float S::logu(int lo, int hi) { int e = lo + below(hi - lo + 1); float f = 1.0f + t.u(1u << 23) / 8388608.0f; return ldexpf(f, e); }
void S::newRegime(int maxexp) { mx = maxexp; regime = below(12); if (regime == 5 || regime == 11) scale = ldexpf(1.0f, below(2 * mx + 1) - mx); }
float S::sc() {
  float r;
  switch (regime) {
  case 0: { u32 x = t.u(9); r = (x & 1) ? -(float)(x + 1) / 2 : (float)(x / 2); break; }
  case 1: { u32 x = t.u(129); r = ((x & 1) ? -(float)(x + 1) / 2 : (float)(x / 2)) / 8; break; }
  case 2: r = unit(); break;
  case 3: r = unit() * 10; break;
  case 4: r = (bit() ? -1 : 1) * logu(-std::min(mx, 8), std::min(mx, 8)); break;
  case 5: r = unit() * scale; break;
  case 6: { // literals of the code under test and their neighbours
    if (g_dict.empty() || bit()) { r = unit() * 3; break; }
    float d = g_dict[t.u((u32)g_dict.size())];
    switch (t.u(6)) { case 1: d = nextafterf(d, 1e30f); break; case 2: d = nextafterf(d, -1e30f); break; case 3: d = -d; break; case 4: d = d * 2; break; case 5: d = d * 0.5f; break; }
    r = d; break; }
  case 7: switch (t.u(10)) {
    case 0: r = 0; break; case 1: r = -0.0f; break; case 2: r = 1; break; case 3: r = -1; break;
    case 4: r = (bit() ? -1 : 1) * logu(-std::min(mx, 24), -12); break; case 5: r = (bit() ? -1 : 1) * logu(10, std::max(11, std::min(mx, 20))); break;
    case 6: r = 0.5f; break; case 7: r = (float)(below(41) - 20); break; default: r = unit() * 4; }
    break;
  case 8: r = t.u(3) ? 0.0f : unit() * 2; break;
  case 9: r = (float)below(2001) - 1000; break;
  case 10: r = unit() * 1000; break;
  default: r = (bit() ? -1 : 1) * logu(-4, 4) * scale; break;
  }
  float lim = ldexpf(1.0f, mx);
  if (!(std::fabs(r) <= lim)) r = r > 0 ? lim : -lim;
  if (r != 0 && mx < 60 && std::fabs(r) < 1 / lim && regime != 6) r = 0;
  return nonneg ? std::fabs(r) : r;
}
float S::nz() { float r = sc(); return r == 0 ? 1.0f : r; }
float S::pos() { float r = std::fabs(sc()); return r == 0 ? 1.0f : r; }
float S::angle() {
  switch (t.u(7)) {
  case 0: return (float)(((int)t.u(17) - 8) * M_PI / 4);
  case 1: return (float)((((int)t.u(49) - 24)) * M_PI / 12);
  case 2: return uni(-3.2f, 3.2f);
  case 3: return uni(-12.6f, 12.6f);
  case 4: return (bit() ? -1 : 1) * logu(-14, 3);
  case 5: { u32 x = t.u(26); return x == 25 ? -0.0f : ((int)x - 12) * 0.5f; }
  default: return t.u(8) == 7 ? uni(-20000.0f, 20000.0f) : uni(-100.0f, 100.0f);
  }
}
int S::ival() {
  switch (t.u(7)) {
  case 0: return (int)t.u(11) - 5;
  case 1: return (int)t.u(201) - 100;
  case 2: return (int)t.u(20001) - 10000;
  case 3: return (int)(t.u(0));
  case 4: { static const int sp[] = {0, 1, -1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 46340, 46341, -46340, 65535, 65536, 255, 256, 2, -2, 1 << 24, (1 << 24) + 1}; return sp[t.u(sizeof sp / sizeof *sp)]; }
  case 5: if (!g_idict.empty()) return g_idict[t.u((u32)g_idict.size())] + (int)t.u(3) - 1; return 7;
  default: { int e = below(31); int v = (int)(1u << e) | (int)(t.u(0) & ((1u << e) - 1)); return bit() ? -v : v; }
  }
}
void S::vec(float *p, int n) {
  for (int i = 0; i < n; i++) p[i] = sc();
  switch (t.u(16)) {
  case 12: for (int i = 1; i < n; i++) p[i] = p[0]; break;
  case 13: { int k = below(n); for (int i = 0; i < n; i++) if (i != k) p[i] = 0; break; }
  case 14: { int k = below(n); p[k] = 0; break; }
  case 15: { int k = below(n), l = below(n); p[k] = p[l]; break; }
  default: break;
  }
}
void S::fillArg(C &c, int i) {
  const vf_arg &a = c.fn->args[i];
  if (a.kind == 'f') {
    float p[MAXLEN]; vec(p, a.len);
    // sometimes derive it from an earlier argument of the same length
    int cand[MAXARG], nc = 0;
    for (int k = 0; k < i; k++) if (c.fn->args[k].kind == 'f' && c.fn->args[k].len == a.len && c.fn->args[k].role != 'o') cand[nc++] = k;
    if (nc && !t.u(4)) {
      int k = cand[t.u(nc)]; const Cell *q = c.in[k];
      switch (t.u(7)) {
      case 0: for (int j = 0; j < a.len; j++) p[j] = q[j].f; break;
      case 1: for (int j = 0; j < a.len; j++) p[j] = -q[j].f; break;
      case 2: { float f = sc(); for (int j = 0; j < a.len; j++) p[j] = q[j].f * f; break; }
      case 3: { int x = below(a.len); float f = p[x]; for (int j = 0; j < a.len; j++) p[j] = q[j].f; p[x] = f; break; }
      case 4: { float d = ldexpf(1.0f, -3 - below(18)); for (int j = 0; j < a.len; j++) p[j] = q[j].f * (1 + d * unit()); break; }
      case 5: for (int j = 0; j < a.len; j++) { p[j] = q[j].f; int m = below(4); if (m == 2) p[j] = nextafterf(p[j], 1e30f); if (m == 3) p[j] = nextafterf(p[j], -1e30f); } break;
      default: for (int j = 0; j < a.len; j++) if (bit()) p[j] = q[j].f; break;
      }
      float lim = ldexpf(1.0f, mx); for (int j = 0; j < a.len; j++) { if (std::fabs(p[j]) > lim) p[j] = lim; if (nonneg) p[j] = std::fabs(p[j]); }
    }
    c.set(i, p, a.len);
  } else if (a.kind == 'F') {
    float v = sc();
    // sometimes relate to a component of an earlier argument
    if (i && !t.u(5)) { int k = below(i); if (c.fn->args[k].kind == 'f' && c.fn->args[k].role != 'o') { v = c.in[k][below(c.fn->args[k].len)].f; if (!t.u(3)) v = nextafterf(v, bit() ? 1e30f : -1e30f); } }
    c.set(i, v);
  } else {
    for (int j = 0; j < a.len; j++) c.in[i][j].i = ival();
    if (a.kind == 'i' && i && !t.u(4)) { int k = below(i); if (c.fn->args[k].kind == 'i' && c.fn->args[k].len == a.len && c.fn->args[k].role != 'o') for (int j = 0; j < a.len; j++) { c.in[i][j].i = c.in[k][j].i; if (!t.u(4)) c.in[i][j].i = ival(); } }
  }
}
void S::def(C &c) { for (int i = 0; i < c.fn->nargs; i++) if (c.fn->args[i].role != 'o') fillArg(c, i); }
FV S::unitv(int n) {
  FV r(n); double l = 0;
  switch (t.u(8)) {
  case 0: { int k = below(n); r[k] = bit() ? -1 : 1; return r; }
  case 1: { int M = t.u(3) < 2 ? 1 : 4; for (int i = 0; i < n; i++) r[i] = (float)((int)t.u((u32)(2 * M + 1)) - M); break; } // small whole ratios
  case 2: { int k = below(n); r[k] = bit() ? -1 : 1; float d = ldexpf(1.0f, -2 - below(22)); for (int i = 0; i < n; i++) if (i != k) r[i] = unit() * d; break; }
  case 3: { for (int i = 0; i < n; i++) r[i] = unit(); r[below(n)] = 0; break; }
  default: for (int i = 0; i < n; i++) r[i] = unit();
  }
  for (int i = 0; i < n; i++) l += (double)r[i] * r[i];
  if (l < 1e-12) { r = FV(n); r[0] = 1; return r; }
  l = std::sqrt(l); for (int i = 0; i < n; i++) r[i] = (float)(r[i] / l);
  return r;
}
FV S::dir3() { return unitv(3); }
FV S::quat() {
  if (!t.u(5)) { // half turn or tiny turn about some axis
    FV a = dir3(); double an = bit() ? M_PI + (t.u(3) ? 0 : unit() * std::pow(2.0, -below(20))) : std::ldexp(1.0, -below(20));
    if (!t.u(3)) an = ((int)t.u(17) - 8) * M_PI / 4;
    FV q(4); for (int i = 0; i < 3; i++) q[i] = (float)(a[i] * std::sin(an / 2)); q[3] = (float)std::cos(an / 2); if (std::fabs(q[3]) < 1e-9f) q[3] = bit() ? 0.0f : -0.0f; return q;
  }
  return unitv(4);
}
FV S::nzvec(int n, float minlen) {
  FV r(n); vec(r.v, n); double l = 0; for (int i = 0; i < n; i++) l += (double)r[i] * r[i];
  if (!(std::sqrt(l) >= minlen)) { FV d = unitv(n); for (int i = 0; i < n; i++) r[i] = d[i] * std::max(1.0f, 2 * minlen); }
  return r;
}
FV S::rot3() {
  FV m(9);
  switch (t.u(6)) {
  case 0: { // signed permutation with det +1
    static const int P[6][3] = {{0,1,2},{1,2,0},{2,0,1},{1,0,2},{0,2,1},{2,1,0}};
    int k = below(6); int s0 = bit() ? -1 : 1, s1 = bit() ? -1 : 1; int par = k < 3 ? 1 : -1; int s2 = par * s0 * s1;
    m[0 * 3 + P[k][0]] = s0; m[1 * 3 + P[k][1]] = s1; m[2 * 3 + P[k][2]] = s2; return m; }
  default: break;
  }
  FV q = quat(); double x = q[0], y = q[1], z = q[2], w = q[3], n = x * x + y * y + z * z + w * w, s = 2 / n;
  double M[9] = {1 - s * (y * y + z * z), s * (x * y + z * w), s * (x * z - y * w), s * (x * y - z * w), 1 - s * (x * x + z * z), s * (y * z + x * w), s * (x * z + y * w), s * (y * z - x * w), 1 - s * (x * x + y * y)};
  for (int i = 0; i < 9; i++) m[i] = (float)M[i];
  return m;
}
FV S::rigid4() { FV r = rot3(), m(16); for (int c = 0; c < 3; c++) for (int k = 0; k < 3; k++) m[c * 4 + k] = r[c * 3 + k]; newRegime(12); for (int k = 0; k < 3; k++) m[12 + k] = sc(); far_(m.v + 12, 3); m[15] = 1; return m; }
// sometimes a translation far from the origin
void S::far_(float *p, int n) { if (t.u(10) == 9) { int e = 13 + below(7); if (bit()) e = 20 - below(3); float f = ldexpf(1.0f, e); int k = below(n + 1); for (int i = 0; i < n; i++) if (k == n || i == k) p[i] = unit() * f; } }
FV S::affine4() {
  newRegime(t.u(8) == 7 ? 18 : 10); FV m(16); for (int c = 0; c < 4; c++) for (int k = 0; k < 3; k++) m[c * 4 + k] = sc(); far_(m.v + 12, 3); m[15] = 1;
  if (!t.u(6)) { for (int c = 0; c < 3; c++) for (int k = 0; k < 3; k++) m[c * 4 + k] = c == k; }
  return m;
}
FV S::affine3() { newRegime(t.u(8) == 7 ? 18 : 10); FV m(9); for (int c = 0; c < 3; c++) for (int k = 0; k < 2; k++) m[c * 3 + k] = sc(); far_(m.v + 6, 2); m[8] = 1; if (!t.u(6)) { m[0] = m[4] = 1; m[1] = m[3] = 0; } return m; }
FV S::mat(int n) { FV m(n * n); vec(m.v, n * n); return m; }
FV S::gen4() { newRegime(12); return mat(4); }

void (*g_poison)(void const volatile *, size_t), (*g_unpoison)(void const volatile *, size_t); char g_asan[200];

// ---------------------------------------------------------------- calls
const vf_fn *S::find(const char *fn) { auto it = sub->fns.find(fn); if (it == sub->fns.end()) { fprintf(stderr, "no function %s in %s\n", fn, sub->cfg.c_str()); _exit(3); } return it->second; }
C &S::prep(const char *fn) {
  if (npool == pool.size()) pool.push_back(new C());
  C &c = *pool[npool++]; c.s = this; c.fn = find(fn); c.api = api;
  for (int i = 0; i < c.fn->nargs; i++) { c.alias[i] = -1; }
  cur = &c; return c;
}
C &S::call(const char *fn, std::initializer_list<Arg> a) {
  C &c = prep(fn); auto it = a.begin();
  for (int i = 0; i < c.fn->nargs; i++) {
    const vf_arg &g = c.fn->args[i]; if (g.role == 'o') continue;
    if (it == a.end()) { fprintf(stderr, "too few args for %s\n", fn); _exit(3); }
    if (g.kind == 'f') { int n = it->n < 0 ? g.len : it->n; if (n > g.len || !it->p) { fprintf(stderr, "arg %d of %s: bad length %d\n", i, fn, n); _exit(3); } c.set(i, it->p, n); for (int j = n; j < g.len; j++) c.in[i][j].f = 0; }
    else if (g.kind == 'i') for (int j = 0; j < g.len; j++) c.in[i][j].i = it->ip[j];
    else if (g.kind == 'F') c.in[i][0].f = it->k == 2 ? (float)it->i : it->f;
    else c.in[i][0].i = it->k == 1 ? (int)it->f : it->i;
    ++it;
  }
  if (it != a.end()) { fprintf(stderr, "too many args for %s\n", fn); _exit(3); }
  c.run(); return c;
}
static const u32 CAN = 0x7fd5a5c3u; // canaries are NaNs, so stray reads poison results
static const size_t CANW = 16;
C &S::again(int k, const C &src, Subject *sb, int ap, int garbage) {
  if (!scratch[k]) scratch[k] = new C();
  C &c = *scratch[k]; auto it = sb->fns.find(src.fn->name); c.fn = it == sb->fns.end() ? nullptr : it->second; c.s = this; c.api = ap;
  if (!c.fn) return c;
  for (int i = 0; i < c.fn->nargs; i++) { c.alias[i] = src.alias[i]; memcpy(c.in[i], src.in[i], sizeof(Cell) * (size_t)c.fn->args[i].len); }
  if (garbage >= -1) c.run(garbage);
  return c;
}
// leave recognisable garbage in the stack area the callee's frame will occupy: results must not depend on it
static __attribute__((noinline)) void poisonStack(u32 v) { u32 b[384]; for (u32 &x : b) x = v; __asm__ volatile("" : : "r"(b) : "memory"); }
void C::run(int garbage) {
  unsigned char *p[MAXARG]; void *A[MAXARG]; size_t sz[MAXARG];
  vf_wrap w = api == 1 ? fn->call : api == 2 ? fn->str : fn->inl; if (!w) w = fn->inl;
  bool any = false; for (int i = 0; i < fn->nargs; i++) if (alias[i] >= 0) any = true;
  if (any && w == fn->str) w = fn->inl;
  if (!w) { w = fn->call; }
  u64 &h = s->h;
  for (int i = 0; i < fn->nargs; i++) {
    const vf_arg &a = fn->args[i]; sz[i] = 4 * (size_t)a.len;
    if (a.role == 'o' && alias[i] < 0) { // garbage in pure outputs, varying
      u32 g = (u32)(garbage >= 0 ? garbage : i * 7 + s->regime) % 3; for (int j = 0; j < a.len; j++) in[i][j].u = g == 0 ? 0x7fc01234u : g == 1 ? 0x4e8abcdeu : 0xff800000u + 0; }
    else if (alias[i] < 0 && !s->inHook) for (int j = 0; j < a.len; j++) h = (h ^ in[i][j].u) * 1099511628211ull;
    if (alias[i] >= 0) { memcpy(in[i], in[alias[i]], sz[i]); p[i] = p[alias[i]]; A[i] = p[i]; continue; }
    unsigned char *page = s->arena + (size_t)(i % NSLOT) * SLOT + PG;
    size_t al = a.align > 4 ? (size_t)a.align : 4;
    if (s->mode == MODE_GUARD) { if ((i + (garbage >= 0 ? garbage : s->regime)) & 1) p[i] = page + PG - sz[i]; else p[i] = page; }
    else p[i] = page + 1024 + (size_t)(i % 3) * 128 + al; // aligned to al but (for al<128) not to 2*al
    if (s->mode != MODE_GUARD) { u32 *q = (u32 *)(p[i] - 4 * CANW); for (size_t k = 0; k < CANW; k++) q[k] = CAN; q = (u32 *)(p[i] + sz[i]); for (size_t k = 0; k < CANW; k++) q[k] = CAN; }
    else { size_t off = (size_t)(p[i] - page); u32 *q = (u32 *)page; for (size_t k = 0; k < off / 4; k++) q[k] = CAN; q = (u32 *)(p[i] + sz[i]); for (size_t k = 0; k < (PG - off - sz[i]) / 4; k++) q[k] = CAN; }
    memcpy(p[i], in[i], sz[i]); A[i] = p[i];
  }
  r.u = 0xdeadbeef;
  if (!s->inHook) s->cur = this;
  { u32 g = (u32)(garbage >= 0 ? garbage : s->regime) % 3; poisonStack(g == 0 ? 0x7fc05678u : g == 1 ? 0xc6123456u : 0x3f9d70a4u); }
  if (g_poison) { // only the bytes of the arguments may be touched
    for (int i = 0; i < fn->nargs; i++) if (alias[i] < 0) g_poison(s->arena + (size_t)(i % NSLOT) * SLOT + PG, PG);
    for (int i = 0; i < fn->nargs; i++) if (alias[i] < 0) g_unpoison(p[i], sz[i]);
    g_asan[0] = 0;
  }
  w(A, &r);
  if (g_poison) { for (int i = 0; i < fn->nargs; i++) if (alias[i] < 0) g_unpoison(s->arena + (size_t)(i % NSLOT) * SLOT + PG, PG); if (g_asan[0]) s->fail("%s: %s", fn->name, g_asan); }
  for (int i = 0; i < fn->nargs; i++) {
    memcpy(out[i], p[i], sz[i]);
    unsigned char *page = s->arena + (size_t)(i % NSLOT) * SLOT + PG;
    if (alias[i] >= 0) continue;
    if (s->mode != MODE_GUARD) { u32 *q = (u32 *)(p[i] - 4 * CANW); for (size_t k = 0; k < CANW; k++) if (q[k] != CAN) s->fail("%s wrote %zu bytes before argument %s", fn->name, 4 * (CANW - k), fn->args[i].name);
      q = (u32 *)(p[i] + sz[i]); for (size_t k = 0; k < CANW; k++) if (q[k] != CAN) s->fail("%s wrote past the end of argument %s (word %zu)", fn->name, fn->args[i].name, k); }
    else { size_t off = (size_t)(p[i] - page); u32 *q = (u32 *)page; for (size_t k = 0; k < off / 4; k++) if (q[k] != CAN) s->fail("%s wrote before argument %s", fn->name, fn->args[i].name);
      q = (u32 *)(p[i] + sz[i]); for (size_t k = 0; k < (PG - off - sz[i]) / 4; k++) if (q[k] != CAN) s->fail("%s wrote past argument %s", fn->name, fn->args[i].name); }
    if (fn->args[i].role == 'i') {
      bool al = false; for (int k = 0; k < fn->nargs; k++) if (alias[k] == i) al = true;
      if (!al && memcmp(in[i], out[i], sz[i])) s->fail("%s modified its input argument %s", fn->name, fn->args[i].name);
    }
  }
  if (g_hook && !s->inHook) { s->inHook = true; g_hook(*s, *this); s->inHook = false; }
}
std::string C::dump(bool outs) const {
  std::string o = fn->name; o += "(";
  for (int i = 0; i < fn->nargs; i++) {
    const vf_arg &a = fn->args[i]; if (i) o += ", "; o += a.name; o += "=";
    if (alias[i] >= 0) { o += sfmt("<same object as %s>", fn->args[alias[i]].name); continue; }
    if (a.role == 'o') { o += "<out>"; continue; }
    if (a.len > 1 || a.kind == 'f') o += "[";
    int n = a.len > 32 ? 32 : a.len;
    for (int j = 0; j < n; j++) { if (j) o += " "; o += (a.kind == 'f' || a.kind == 'F') ? sfmt("%.9g", in[i][j].f) : sfmt("%d", in[i][j].i); }
    if (a.len > n) o += " ...";
    if (a.len > 1 || a.kind == 'f') o += "]";
  }
  o += ")";
  if (outs) {
    o += " ->";
    if (fn->ret == 'F') o += sfmt(" ret=%.9g", r.f); else if (fn->ret == 'B') o += r.i ? " ret=true" : " ret=false"; else if (fn->ret == 'I') o += sfmt(" ret=%d", r.i);
    for (int i = 0; i < fn->nargs; i++) { const vf_arg &a = fn->args[i]; if (a.role == 'i') continue; o += sfmt(" %s=[", a.name); int n = a.len > 32 ? 32 : a.len;
      for (int j = 0; j < n; j++) { if (j) o += " "; o += a.kind == 'f' ? sfmt("%.9g", out[i][j].f) : sfmt("%d", out[i][j].i); } o += "]"; }
  }
  return o;
}
#include "prop.hpp"
static std::map<std::string, void (*)()> &regmap() { static std::map<std::string, void (*)()> m; return m; }
PropReg::PropReg(const char *id, void (*f)()) { regmap()[id] = f; }
void register_tests(const char *prop) { auto it = regmap().find(prop); if (it == regmap().end()) { fprintf(stderr, "no property %s\n", prop); _exit(3); } it->second(); }
void register_base() {
  for (auto &kv : regmap()) if (kv.first[0] != 'X') { size_t n = g_tests.size(); kv.second(); for (size_t i = n; i < g_tests.size(); i++) { g_tests[i].name = kv.first + "/" + g_tests[i].name; g_tests[i].inlOnly = true; } }
}
