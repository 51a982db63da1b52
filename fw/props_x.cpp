// X01-X04: cross-cutting properties. Every call made by the tests of the other properties (so: inputs inside each
// function's domain, from that function's own generators) is repeated in another form, another build, with other
// garbage around it, or in place, and the two results are compared.
#include "prop.hpp"
#include <set>
#define FOR(i, n) for (int i = 0; i < (int)(n); i++)
static bool sameBits(Cell a, Cell b, bool fl) { return a.u == b.u || (fl && ((a.f != a.f && b.f != b.f) || a.f == b.f)); }
static std::string show(Cell a, bool fl) { return fl ? sfmt("%.9g", a.f) : sfmt("%d", a.i); }
// exact comparison of everything a call can produce
static void cmpExact(S &s, C &a, C &b, const char *what) {
  const vf_fn *f = a.fn;
  if (f->ret != 'v') { bool fl = f->ret == 'F'; bool eq = f->ret == 'B' ? (a.r.i != 0) == (b.r.i != 0) : sameBits(a.r, b.r, fl); s.check(eq, "%s returns %s, %s %s", f->name, show(a.r, fl).c_str(), what, show(b.r, fl).c_str()); }
  FOR(i, f->nargs) { const vf_arg &g = f->args[i]; if (g.role == 'i') continue; bool fl = g.kind == 'f';
    FOR(j, g.len) s.check(sameBits(a.out[i][j], b.out[i][j], fl), "%s: %s[%d] = %s, %s %s", f->name, g.name, j, show(a.out[i][j], fl).c_str(), what, show(b.out[i][j], fl).c_str()); }
}
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool ends(const std::string &s, const char *p) { size_t n = strlen(p); return s.size() >= n && s.compare(s.size() - n, n, p) == 0; }

// ------------------------------------------------------------------ X01 inline = linked = struct
static void formsExtra();
static void hookForms(S &s, C &c) {
  const vf_fn *f = c.fn;
  if (f->call) { C &d = s.again(0, c, s.sub, 1, -1); cmpExact(s, c, d, "the linked form gives"); }
  if (f->str) {
    if (!strcmp(f->name, "pickmatrix") && !(c.f(1, 0) > 0 && c.f(1, 1) > 0)) return; // by value there is no destination to leave alone
    C &d = s.again(1, c, s.sub, 2, -1); cmpExact(s, c, d, "the struct form gives");
  }
}
PROP(X01) {
  g_hook = hookForms; register_base();
  auto single = [](const Test &t) { if (g_subj.empty()) return false; for (auto *x : g_subj) for (auto &n : t.fns) { auto it = x->fns.find(n); if (it != x->fns.end() && (it->second->call || it->second->str)) return false; } return true; };
  g_tests.erase(std::remove_if(g_tests.begin(), g_tests.end(), single), g_tests.end()); // only one form exists
  formsExtra();
}

static void formsExtra() {
  if (g_subj.empty()) return;
  std::set<std::string> names; for (auto *x : g_subj) for (auto &kv : x->fns) names.insert(kv.first);
  for (auto &n : names) {
    if (starts(n, "view_")) {
      reg("struct/" + n, n, DEF, [](C &c) { S &s = *c.s; s.inHook = true; bool fl = c.fn->args[0].kind == 'f'; int k = c.len(0);
        FOR(j, k) { s.check(c.in[0][j].u == c.out[1][j].u || (fl && c.f(0, j) != c.f(0, j)), "%s: member %d reads %s, raw storage holds %s", c.fn->name, j, show(c.out[1][j], fl).c_str(), show(c.in[0][j], fl).c_str());
          s.check(c.in[0][j].u == c.out[2][j].u || (fl && c.f(0, j) != c.f(0, j)), "%s: member %d written as %s, raw storage reads %s", c.fn->name, j, show(c.in[0][j], fl).c_str(), show(c.out[2][j], fl).c_str()); }
        s.check(c.r.i == 4 * k, "%s: size or alignment differs from the array type (code %d)", c.fn->name, c.r.i); });
    } else if (ends(n, "_pack") || ends(n, "_unpack")) {
      reg("struct/" + n, n, [](S &s, C &c) { s.newRegime(); s.def(c); c.seti(2, s.below(6)); }, [](C &c) { S &s = *c.s; s.inHook = true; int w = c.len(0) / 5; bool fl = c.fn->args[0].kind == 'f';
        FOR(j, c.len(0)) { bool moved = j < w * c.I(2); Cell want = moved ? c.in[1][j] : c.in[0][j]; s.check(want.u == c.out[0][j].u || (fl && want.f != want.f), "%s(len %d): element %d is %s, expected %s (%s)", c.fn->name, c.I(2), j, show(c.out[0][j], fl).c_str(), show(want, fl).c_str(), moved ? "from the source" : "untouched"); } });
    } else if (n == "vec2_of_vec3s") reg("struct/" + n, n, DEF, [](C &c) { c.s->inHook = true; FOR(j, 2) c.o(1, j, c(0, j)); });
  }
}
// ------------------------------------------------------------------ X02 every build = scalar build
static Subject *refFor(Subject *sub) {
  Subject *best = nullptr;
  for (auto *x : g_subj) if (x->clip == sub->clip && (x->cfg == "scalar" || x->cfg == "lh_zo_scalar")) best = x;
  return best;
}
// predicates decided by comparing inputs, without arithmetic that could round differently
static bool strict(const std::string &n) {
  if (starts(n, "ivec")) return !ends(n, "distance");
  static const std::set<std::string> S_ = {"sign", "imin", "imax", "euler_order", "aabb2d_isvalid", "aabb2d_aabb", "aabb2d_point", "aabb2d_contains", "aabb_isvalid", "aabb_aabb", "aabb_point", "aabb_contains", "eq"};
  if (S_.count(n)) return true;
  for (const char *e : {"_eq", "_eq_eps", "_eq_all", "_eqv", "_eqv_eps", "_isnan", "_isinf", "_isvalid"}) if (ends(n, e) && starts(n, "vec")) return true;
  return false;
}
struct Dev { double d[MAXARG][MAXLEN]; double rd; bool flip, wild; };
static void perturb(S &s, C &p, const C &src, int k, double amp) {
  // in turn relative to each component, to the whole argument (and to 1 for scalars), and to the largest argument:
  // rounding inside the function is proportional to its largest intermediate, not to the smallest input
  double all = 0; FOR(i, p.fn->nargs) { const vf_arg &g = p.fn->args[i]; if (g.role != 'o' && g.kind == 'f') FOR(j, g.len) if (std::isfinite(src.in[i][j].f)) all = std::max(all, std::fabs((double)src.in[i][j].f)); }
  FOR(i, p.fn->nargs) { const vf_arg &g = p.fn->args[i]; if (g.role == 'o' || (g.kind != 'f' && g.kind != 'F')) continue;
    double mx = g.kind == 'F' ? 1 : 0; FOR(j, g.len) if (std::isfinite(src.in[i][j].f)) mx = std::max(mx, std::fabs((double)src.in[i][j].f));
    if (g.kind == 'f' && k % 3 == 2) mx = all;
    FOR(j, g.len) { float v = src.in[i][j].f; if (!std::isfinite(v)) continue;
      u64 h = mix64(mix64((u64)k * 1315423911u + (u64)i * 977 + (u64)j) ^ src.in[i][j].u); double u = (k & 1) ? (h & 1 ? 1.0 : -1.0) : (double)(int64_t)h / 9.3e18;
      p.in[i][j].f = (float)(v + amp * u * (k % 3 == 0 ? std::fabs((double)v) : mx)); } }
}
static void sens(S &s, const C &c, C &base, Subject *ref, int K, double amp, Dev &D) {
  memset(&D, 0, sizeof D); const vf_fn *f = base.fn;
  FOR(k, K) { C &p = s.again(2, c, ref, 0, -2); perturb(s, p, c, k, amp); p.run(0);
    if (f->ret == 'F') { double d = std::fabs((double)p.r.f - base.r.f); if (!(d < 1e38)) D.wild = true; else D.rd = std::max(D.rd, d); } else if (f->ret == 'B') { if ((p.r.i != 0) != (base.r.i != 0)) D.flip = true; } else if (f->ret == 'I' && p.r.i != base.r.i) D.flip = true;
    FOR(i, f->nargs) { const vf_arg &g = f->args[i]; if (g.role == 'i') continue; FOR(j, g.len) { if (g.kind != 'f') { if (p.out[i][j].i != base.out[i][j].i) D.flip = true; continue; } double d = std::fabs((double)p.out[i][j].f - base.out[i][j].f); if (!(d < 1e38)) { if (!(p.out[i][j].f != p.out[i][j].f && base.out[i][j].f != base.out[i][j].f) && p.out[i][j].u != base.out[i][j].u) D.wild = true; } else D.d[i][j] = std::max(D.d[i][j], d); } } }
}
static Dev g_dev;
static void hookBuilds(S &s, C &c) {
  Subject *ref = refFor(s.sub); if (!ref || ref == s.sub) return;
  const vf_fn *f = c.fn; std::string n = f->name;
  C &b = s.again(0, c, ref, 0, -1); if (!b.fn) return;
  if (n == "uniscaled") { s.skipped++; return; } // true only on a set of measure zero; A03 decides it
  bool st = strict(n); double slack = starts(n, "quat_slerp") ? 3e-4 : 0, rel = n == "mat4_inv_fast" ? 1e-3 : 0;
  // first look: anything not within a few units in the last place?
  auto far = [&](float x, float y) { return !(x == y || (x != x && y != y) || std::fabs((double)x - y) <= 8 * U * std::max(std::fabs((double)x), std::fabs((double)y))); };
  bool diff = false;
  if (f->ret == 'F' ? far(c.r.f, b.r.f) : f->ret == 'B' ? (c.r.i != 0) != (b.r.i != 0) : f->ret == 'I' ? c.r.i != b.r.i : false) diff = true;
  FOR(i, f->nargs) { const vf_arg &g = f->args[i]; if (g.role == 'i') continue; FOR(j, g.len) { s.compared++; if (g.kind == 'f' ? far(c.out[i][j].f, b.out[i][j].f) : c.out[i][j].i != b.out[i][j].i) diff = true; } }
  s.compared++;
  if (!diff) return;
  if (st) cmpExact(s, c, b, "the scalar build gives");
  std::string why;
  FOR(stage, 2) {
    why.clear(); double amp = stage ? std::ldexp(1.0, -19) : std::ldexp(1.0, -20); if (rel) amp = rel; sens(s, c, b, ref, stage ? 256 : 32, amp, g_dev);
    if (g_dev.wild) { s.skipped++; return; }
    // rounding of intermediate products that no change of the inputs shows; and cases too ill-conditioned to judge
    double noise = 16 * U, top = 0; FOR(i, f->nargs) { const vf_arg &g = f->args[i]; if ((g.kind != 'f' && g.kind != 'F') || g.role == 'o') continue; double m = 1; FOR(j, g.len) if (std::isfinite(c.in[i][j].f)) m = std::max(m, std::fabs((double)c.in[i][j].f)); noise *= m; }
    double dm = noise; if (f->ret == 'F') { top = std::fabs((double)b.r.f); dm = std::max(dm, g_dev.rd); }
    FOR(i, f->nargs) { const vf_arg &g = f->args[i]; if (g.role == 'i' || g.kind != 'f') continue; FOR(j, g.len) { dm = std::max(dm, g_dev.d[i][j]); if (std::isfinite(b.out[i][j].f)) top = std::max(top, std::fabs((double)b.out[i][j].f)); if (std::isfinite(c.out[i][j].f)) top = std::max(top, std::fabs((double)c.out[i][j].f)); } }
    if (f->ret != 'B' && f->ret != 'I' && dm > 0.01 * top) { s.skipped++; return; }
    bool loose = false; FOR(i, f->nargs) { const vf_arg &g = f->args[i]; if (g.role == 'i' || g.kind != 'f') continue; FOR(j, g.len) { double d = g_dev.d[i][j], y = std::max(std::fabs((double)b.out[i][j].f), std::fabs((double)c.out[i][j].f)); if (d > 0.3 * y && d > 5e-4 * top) loose = true; } }
    if (loose) { s.skipped++; return; }
    auto bad = [&](float x, float y, double d) { d += noise / 3 + slack / 3; if (!std::isfinite(y)) return false; if (std::fabs(y) > 1e30) return false; return !(std::fabs((double)x - y) <= 3 * d + 16 * U * std::fabs((double)y) + 1e-37); };
    if (f->ret == 'F' && bad(c.r.f, b.r.f, g_dev.rd)) why = sfmt("%s returns %.9g, the scalar build %.9g; nearby inputs move it by at most %.3g", f->name, c.r.f, b.r.f, g_dev.rd);
    else if ((f->ret == 'B' || f->ret == 'I') && (f->ret == 'B' ? (c.r.i != 0) != (b.r.i != 0) : c.r.i != b.r.i)) { if (g_dev.flip) { s.skipped++; return; } why = sfmt("%s returns %d, the scalar build %d, also for all nearby inputs", f->name, c.r.i, b.r.i); }
    else FOR(i, f->nargs) { const vf_arg &g = f->args[i]; if (g.role == 'i' || !why.empty()) continue; FOR(j, g.len) { if (g.kind != 'f') { if (c.out[i][j].i != b.out[i][j].i && !g_dev.flip) why = sfmt("%s: %s[%d] = %d, the scalar build gives %d", f->name, g.name, j, c.out[i][j].i, b.out[i][j].i); } else if (bad(c.out[i][j].f, b.out[i][j].f, g_dev.d[i][j])) { if ((f->ret == 'B' || f->ret == 'I') && g_dev.flip) continue; why = sfmt("%s: %s[%d] = %.9g, the scalar build gives %.9g; nearby inputs move it by at most %.3g", f->name, g.name, j, c.out[i][j].f, b.out[i][j].f, g_dev.d[i][j]); break; } } }
    if (why.empty()) return;
  }
  s.check(false, "%s", why.c_str());
}
PROP(X02) { g_hook = hookBuilds; register_base(); }

// ------------------------------------------------------------------ X03 no influence from memory that is not an input
__attribute__((noinline)) static void stain(unsigned char v) { volatile unsigned char b[6000]; for (size_t i = 0; i < sizeof b; i++) b[i] = v; }
static void hookMemory(S &s, C &c) {
  stain(0x00); C &a = s.again(0, c, s.sub, c.api, 0);
  stain(0xff); C &b = s.again(1, c, s.sub, c.api, 1);
  cmpExact(s, a, b, "after other memory contents");
  if (s.sub->cfg == "initpat") for (auto *x : g_subj) if (x->cfg == "initzero") { C &z = s.again(2, c, x, 0, 0); cmpExact(s, a, z, "with other initial values of its local variables"); }
}
PROP(X03) {
  g_hook = hookMemory; register_base(); formsExtra();
  size_t n = g_tests.size(); register_tests("X05"); // printing: only the memory behaviour is of interest here
  for (size_t i = n; i < g_tests.size(); i++) { g_tests[i].name = "X05/" + g_tests[i].name; g_tests[i].inlOnly = true; if (g_tests[i].body) g_tests[i].body = [](C &) {}; }
}

// ------------------------------------------------------------------ X04 in place = separate destination
struct Pair { int o, i, i2; };
static bool allowed(const std::string &n, int o, int i);
static void hookInPlace(S &s, C &c) {
  const vf_fn *f = c.fn; int cand[64][2], nc = 0; const std::string fn_ = f->name; const bool intDiv = starts(fn_, "ivec") && (ends(fn_, "_div") || ends(fn_, "_mod")); // v / v may be a division by zero

  FOR(o, f->nargs) { const vf_arg &g = f->args[o]; if (g.role == 'i' || (g.kind != 'f' && g.kind != 'i')) continue; FOR(i, o) { const vf_arg &h = f->args[i]; if (h.role != 'i' || h.kind != g.kind || h.len != g.len || g.align > h.align || !allowed(f->name, o, i)) continue; cand[nc][0] = o; cand[nc++][1] = i; } }
  FOR(k, nc) { int o = cand[k][0], i = cand[k][1];
    C &a = s.again(0, c, s.sub, 0, -2); memcpy(a.in[o], a.in[i], sizeof(Cell) * (size_t)f->args[o].len); a.run(0);
    C &b = s.again(1, c, s.sub, 0, -2); b.alias[o] = i; b.run(0);
    std::string w = sfmt("in place (%s is %s) it gives", f->args[o].name, f->args[i].name); cmpExact(s, a, b, w.c_str());
    // all three the same object
    FOR(l, i) { const vf_arg &h = f->args[l]; if (intDiv || l == i || h.role != 'i' || h.kind != f->args[i].kind || h.len != f->args[i].len || !allowed(f->name, o, l)) continue;
      C &d = s.again(2, c, s.sub, 0, -2); memcpy(d.in[i], d.in[l], sizeof(Cell) * (size_t)f->args[i].len); memcpy(d.in[o], d.in[l], sizeof(Cell) * (size_t)f->args[o].len); d.run(0);
      C &e = s.again(3, c, s.sub, 0, -2); memcpy(e.in[i], e.in[l], sizeof(Cell) * (size_t)f->args[i].len); e.alias[i] = l; e.alias[o] = l; e.run(0);
      w = sfmt("with %s, %s and %s the same object it gives", f->args[l].name, f->args[i].name, f->args[o].name); cmpExact(s, d, e, w.c_str()); } }
}
#include "inplace.hpp"
PROP(X04) {
  g_hook = hookInPlace; register_base();
  auto none = [](const Test &t) { if (g_subj.empty()) return false; for (auto &n : t.fns) { auto it = g_subj[0]->fns.find(n); if (it != g_subj[0]->fns.end() && aliasable(it->second)) return false; } return true; };
  g_tests.erase(std::remove_if(g_tests.begin(), g_tests.end(), none), g_tests.end());
}

// ------------------------------------------------------------------ X08 build options change what they announce, nothing else
static Subject *plainFor(Subject *sub) {
  static const char *B[][2] = {{"sse2u", "sse2"}, {"noint", "sse2"}, {"noprint", "sse2"}, {"debug", "sse2"}, {"print3", "sse2"}, {"noanon", "sse2"}, {"sepinc", "sse2"}, {"epsdef", "sse2"}, {"epsuser", "sse2"}, {"corners", "sse2"}, {"lh_no", "sse2"}, {"rh_zo", "sse2"}, {"lh_zo", "sse2"}, {"lh_zo_sepinc", "lh_zo"},
                               {"scalaru", "scalar"}, {"lh_zo_scalar", "scalar"}, {"avxun", "avx"}, {"nointavx", "avx"}, {"sse1fast", "sse1"}};
  for (auto &b : B) if (sub->cfg == b[0]) for (auto *x : g_subj) if (x->cfg == b[1]) return x;
  return nullptr;
}
// functions that exist once per convention and once under a plain name follow the configured convention under the plain name
static bool followsClip(Subject *sub, const std::string &n) {
  for (const char *e : {"_lh_no", "_no", "_lh"}) if (sub->fns.count(n + e)) return true;
  for (const char *e : {"_lh", "_rh"}) if (ends(n, e) && sub->fns.count(n + "_no")) return false;
  return n == "unproject";
}
static bool epsFn(const std::string &n) { return n == "eq" || ((ends(n, "_eq_eps") || ends(n, "_eqv_eps") || ends(n, "_eq_all")) && starts(n, "vec")); }
static void hookOptions(S &s, C &c) {
  Subject *base = plainFor(s.sub); if (!base) return;
  const std::string n = c.fn->name, &o = s.sub->cfg;
  if (base->clip != s.sub->clip && followsClip(s.sub, n)) return;
  if (starts(o, "eps")) { if (epsFn(n) || n == "uniscaled") return;
    if (n == "quat_from_vecs") { double d = 0, a = 0, b = 0; FOR(j, 3) { d += (double)c.f(0, j) * c.f(1, j); a += (double)c.f(0, j) * c.f(0, j); b += (double)c.f(1, j) * c.f(1, j); } if (!(std::fabs(d) < 0.99 * std::sqrt(a * b)) || !(std::fabs(d) < 0.99)) return; } }
  if (n == "layout" || (o == "corners" && n == "frustum_corners")) return;
  if (o == "sse1fast" && (ends(n, "_isnan") || ends(n, "_isinf") || ends(n, "_isvalid"))) return;
  C &d = s.again(0, c, base, c.api, -1); if (!d.fn) return;
  cmpExact(s, c, d, "without the option it gives");
}
static double epsOf(S &s) { return s.sub->cfg == "epsdef" ? (double)FLT_EPSILON : s.sub->cfg == "epsuser" ? (double)1e-3f : (double)1e-5f; }
static Tri within(S &s, float a, float b) { double e = epsOf(s), d = std::fabs((double)a - b); if ((double)(float)d == d) return tri(d <= e); double r = U * d; return d <= e - r ? YES : d > e + r ? NO : UNK; }
PROP(X08) {
  g_hook = hookOptions; register_base();
  // approximate comparisons use the configured tolerance
  auto offs = [](S &s, float x) { double e = epsOf(s); static const double E_[3] = {FLT_EPSILON, 1e-5f, 1e-3f}; if (s.chance(3)) e = E_[s.below(3)]; float d = (float)e; switch (s.below(6)) { case 0: d = 0; break; case 1: d = nextafterf(d, 1); break; case 2: d = nextafterf(d, 0); break; case 3: d *= s.uni(0, 2); break; case 4: d *= s.logu(-10, 10); break; default: break; } return s.bit() ? x + d : x - d; };
  auto start = [](S &s) { return s.below(3) ? s.below(3) ? (float)(s.below(9) - 4) / 8 : 0.0f : s.unit(); };
  auto own = [](std::function<void(C &)> b) { return [b](C &c) { c.s->inHook = true; b(c); }; };
  reg("opt/eq", "eq", [=](S &s, C &c) { float a = start(s); c.set(0, a); c.set(1, offs(s, a)); }, own([](C &c) { c.retb(within(*c.s, c.f(0), c.f(1))); }));
  FOR(n, 5) if (n > 1) for (const char *k : {"eq_eps", "eqv_eps", "eq_all"}) { std::string f = sfmt("vec%d_%s", n, k); int kind = k[2] == 'v' ? 1 : k[3] == 'a' ? 2 : 0;
    reg("opt/" + f, f, [=](S &s, C &c) { float a = start(s); int odd = s.below(n + 1);
      FOR(j, n) { float b = kind == 1 && s.bit() ? start(s) : a; if (kind == 1) { c.in[1][j].f = b; } c.in[0][j].f = odd == n || j == odd ? offs(s, b) : b; } if (kind == 0) c.set(1, a); },
      own([=](C &c) { S &s = *c.s; Tri t = YES; if (kind < 2) FOR(j, n) t = t && within(s, c.f(0, j), kind ? c.f(1, j) : c.f(1)); else FOR(j, n) FOR(k, j) { Tri e = within(s, c.f(0, j), c.f(0, k)); t = t && (c.f(0, j) == c.f(0, k) ? YES : e == NO && std::fabs((double)c.f(0, j) - c.f(0, k)) > 2.1 * epsOf(s) ? NO : UNK); } c.retb(t); })); }
  // the corners of whatever clip volume the user describes
  reg("opt/frustum_corners", "frustum_corners", [](S &s, C &c) { c.set(0, s.below(3) ? s.affine4() : s.gen4()); if (s.bit()) FOR(k, 4) c.in[0][k * 4 + 3].f = k < 3 ? s.uni(-0.25f, 0.25f) : 1.0f; },
    own([](C &c) { static const int X[8] = {-1, -1, 1, 1, -1, -1, 1, 1}, Y[8] = {-1, 1, 1, -1, -1, 1, 1, -1}; bool rev = c.s->sub->cfg == "corners";
      FOR(i, 8) { float z = rev ? (i < 4 ? 1.0f : 0.0f) : (i < 4 ? -1.0f : 1.0f), v[4] = {(float)X[i], (float)Y[i], z, 1}; E o[4]; FOR(r, 4) { o[r] = c(0, r) * E(v[0]); for (int k = 1; k < 4; k++) o[r] += c(0, k * 4 + r) * E(v[k]); } FOR(r, 4) c.o(1, i * 4 + r, o[r] / o[3]); } }));
  if (g_subj.empty() || (g_subj[0]->fns.count("layout"))) reg("layout", "layout", [](S &s, C &c) { c.seti(0, s.below(2)); }, own([](C &c) { S &s = *c.s; const std::string &o = s.sub->cfg;
    static const char *T[] = {"vec2", "vec3", "vec4", "ivec2", "ivec3", "ivec4", "versor", "mat2", "mat3", "mat4", "mat2x3", "mat2x4", "mat3x2", "mat3x4", "mat4x2", "mat4x3"}; static const int N[] = {2, 3, 4, 2, 3, 4, 4, 4, 9, 16, 6, 8, 6, 12, 8, 12};
    bool loose = o == "sse2u" || o == "avxun" || o == "scalaru" || o == "avxu", avx = starts(o, "avx") || o == "nointavx" || o == "clangavx";
    FOR(k, 16) { std::string t = T[k]; int a = c.gi(1, 2 * k + 1), z = c.gi(1, 2 * k); s.check(z == 4 * N[k], "sizeof(%s) is %d, not %d", T[k], z, 4 * N[k]);
      bool v4 = t == "vec4" || t == "versor" || t == "mat2x4" || t == "mat3x4"; int w = t == "mat4" ? (avx ? 32 : 16) : v4 || t == "mat2" ? (loose ? 4 : 16) : 4;
      s.check(t == "mat4" && loose ? a <= w : a == w, "%s is aligned to %d bytes, documented %d", T[k], a, w); } }));
}

// ------------------------------------------------------------------ X07 no call depends on other calls
// A second thread that makes calls while the main one does.
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <xmmintrin.h>
struct Lane { // one thread's side of a concurrent run: its own argument objects, the result of the call made alone
  C *c; alignas(64) unsigned char mem[MAXARG][4 * TEXTLEN + 64]; Cell r; void *A[MAXARG]; int bad; Cell got; int badArg, badEl; vf_wrap w;
  void load() { const vf_fn *f = c->fn; w = c->api == 1 && f->call ? f->call : c->api == 2 && f->str ? f->str : f->inl ? f->inl : f->call; FOR(i, f->nargs) A[i] = c->alias[i] >= 0 ? A[c->alias[i]] : mem[i]; bad = 0; }
  void once() { // again from the same inputs, in place of the previous call
    const vf_fn *f = c->fn; FOR(i, f->nargs) if (c->alias[i] < 0) memcpy(mem[i], c->in[i], 4 * (size_t)f->args[i].len); r.u = 0xdeadbeef; w(A, &r);
    if (bad) return;
    if (f->ret != 'v' && (f->ret == 'B' ? (r.i != 0) != (c->r.i != 0) : !sameBits(r, c->r, f->ret == 'F'))) { bad = 1; badArg = -1; got = r; return; }
    FOR(i, f->nargs) { const vf_arg &g = f->args[i]; if (g.role == 'i' || c->alias[i] >= 0) continue; const Cell *q = (const Cell *)mem[i]; FOR(j, g.len) if (!sameBits(q[j], c->out[i][j], g.kind == 'f')) { bad = 1; badArg = i; badEl = j; got = q[j]; return; } } }
};
static Lane g_lane[2]; static volatile int g_go, g_ready, g_iter; static pthread_t g_thr; static pid_t g_thrPid; static volatile int g_gen, g_done;
static void spinUntil(volatile int *p, int v) { for (int k = 0; __atomic_load_n(p, __ATOMIC_ACQUIRE) != v; k++) if (k > 2000) sched_yield(); }
static void loop(int me) { // both sides start together and keep calling until each has made its number of calls
  __atomic_add_fetch(&g_ready, 1, __ATOMIC_ACQ_REL); spinUntil(&g_ready, 2); for (int k = 0; k < g_iter; k++) g_lane[me].once(); }
static void *other(void *) { for (int gen = 1;; gen++) { spinUntil(&g_gen, gen); loop(1); __atomic_store_n(&g_done, gen, __ATOMIC_RELEASE); } return nullptr; }
static void together(int iter) {
  if (g_thrPid != getpid()) { // processes are forked after the tests are set up
    g_thrPid = getpid(); g_gen = g_done = 0; sigset_t all, old; sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &old); pthread_create(&g_thr, 0, other, 0); pthread_sigmask(SIG_SETMASK, &old, 0); }
  g_iter = iter; g_ready = 0; __atomic_add_fetch(&g_gen, 1, __ATOMIC_RELEASE); loop(0); spinUntil(&g_done, g_gen);
}
// another call of the same function: some of the numbers changed, the rest (sizes, flags, angles) kept
static void vary(S &s, C &b, const C &c) {
  const vf_fn *f = b.fn; std::vector<std::pair<int, int>> el; FOR(i, f->nargs) { const vf_arg &g = f->args[i]; if (g.role == 'o' || b.alias[i] >= 0 || (g.kind != 'f' && g.kind != 'i')) continue; FOR(j, g.len) el.push_back({i, j}); }
  if (el.empty()) { FOR(i, f->nargs) if (f->args[i].kind == 'F') b.in[i][0].f = c.in[i][0].f * (s.bit() ? 0.5f : 0.75f); return; }
  int how = s.below(4), n = how == 0 ? 1 : how == 1 ? (int)el.size() : 1 + s.below((int)el.size()), at = s.below((int)el.size());
  FOR(k, n) { auto e = el[(size_t)(at + k) % el.size()]; Cell &x = b.in[e.first][e.second]; if (f->args[e.first].kind == 'i') { x.i = (x.i & 0x3ffffff) + 1 + s.below(4); continue; }
    switch (s.t.u(4)) { case 0: x.f = -x.f; break; case 1: x.f = x.f * 0.5f; break; case 2: { auto o = el[s.t.u((u32)el.size())]; if (f->args[o.first].kind == 'f') x.f = c.in[o.first][o.second].f; break; } default: x.f = s.unit(); } }
}
static void hookPure(S &s, C &c) {
  const vf_fn *f = c.fn; u32 csr = _mm_getcsr() & ~0x3fu; unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw));
  if (csr != 0x1f80 || cw != 0x37f) { _mm_setcsr(0x1f80); __asm__ volatile("fninit"); s.check(false, "%s changed the floating point control state (mxcsr %x, x87 %x)", f->name, csr, cw); }
  Subject *tw = s.sub->twin; if (!tw) return;
  // first one way round, then, in a copy of the library that has not seen these calls, the other
  C &a1 = s.again(0, c, s.sub, c.api, 0);
  C &b1 = s.again(1, c, s.sub, c.api, -2); vary(s, b1, c); b1.run(0);
  C &b2 = s.again(2, b1, tw, c.api, 0); cmpExact(s, b1, b2, "made first");
  C &a2 = s.again(3, c, tw, c.api, 0); cmpExact(s, a1, a2, "made after another call");
  C &a3 = s.again(3, c, s.sub, c.api, 0); cmpExact(s, a1, a3, "made again after another call");
  if (s.chance(3)) {
    g_lane[0].c = &a1; g_lane[1].c = &b1; FOR(k, 2) g_lane[k].load();
    together(g_replaying ? 200000 : 150);
    FOR(k, 2) if (g_lane[k].bad) { Lane &l = g_lane[k]; bool rv = l.badArg < 0; bool fl = rv ? f->ret == 'F' : f->args[l.badArg].kind == 'f';
      s.check(false, "%s, called from two threads with separate arguments, gives %s%s = %s; alone %s", f->name, rv ? "result" : f->args[l.badArg].name, rv ? "" : sfmt("[%d]", l.badEl).c_str(), show(l.got, fl).c_str(), show(rv ? l.c->r : l.c->out[l.badArg][l.badEl], fl).c_str()); }
  }
}
PROP(X07) { g_hook = hookPure; register_base(); for (auto &t : g_tests) t.inlOnly = false; }

// development aid: every functional test at once (used for mutation campaigns, not registered as a check)
PROP(XALL) { g_hook = nullptr; register_base(); for (auto &t : g_tests) t.inlOnly = true; }
