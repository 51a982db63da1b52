// X06: ready-made values, numeric constants, index names, swizzle masks and the older function names.
#include "prop.hpp"
#define FOR(i, n) for (int i = 0; i < (int)(n); i++)
static const GenF NOIN = [](S &s, C &c) { FOR(i, c.fn->nargs) if (c.fn->args[i].role == 'i') c.seti(i, s.below(2)); };
// exact comparison; -0 and 0 denote the same value
static void vals(const char *nm, std::vector<double> e) {
  reg(std::string("const_") + nm, NOIN, [=](C &c) { bool in = c.fn->args[1].kind == 'i';
    FOR(j, e.size()) { double g = in ? (double)c.gi(1, j) : (double)c.g(1, j); c.s->check(g == e[j], "%s: element %d is %.9g, its meaning is %.9g", c.fn->name, j, g, e[j]); } });
}
static std::vector<double> fill(int n, double v) { return std::vector<double>(n, v); }
static std::vector<double> ident(int n) { std::vector<double> r(n * n); FOR(i, n) r[i * n + i] = 1; return r; }
static double ulp(double v) { return std::ldexp(1, std::ilogb(v) - 52); }
PROP(X06) {
  FOR(n, 5) if (n > 1) for (const char *p : {"VEC", "IVEC"}) { vals(sfmt("%s%d_ZERO", p, n).c_str(), fill(n, 0)); vals(sfmt("%s%d_ONE", p, n).c_str(), fill(n, 1)); }
  vals("VEC4_BLACK", {0, 0, 0, 1}); vals("QUAT_IDENTITY", {0, 0, 0, 1});
  FOR(c, 5) FOR(r, 5) if (c > 1 && r > 1) { std::string t = c == r ? sfmt("MAT%d", c) : sfmt("MAT%dX%d", c, r); vals((t + "_ZERO").c_str(), fill(c * r, 0)); if (c == r) vals((t + "_IDENTITY").c_str(), ident(c)); }
  vals("XUP", {1, 0, 0}); vals("YUP", {0, 1, 0}); vals("ZUP", {0, 0, 1}); vals("FORWARD", {0, 0, -1});
  // the basis matrices, by what they are for: row of parameter powers * M * control points = the curve's polynomial
  for (int h = 0; h < 2; h++) reg(h ? "const_HERMITE_MAT" : "const_BEZIER_MAT", NOIN, [h](C &c) { S &s = *c.s; double t = (s.below(4097) - 1024) / 2048.0, p[4];
    FOR(i, 4) p[i] = s.below(33) - 16; // p0, c0/t0, c1/t1, p1
    double w[4] = {t * t * t, t * t, t, 1}, g = 0; FOR(i, 4) FOR(k, 4) g += w[k] * (double)c.g(1, i * 4 + k) * p[i];
    double u = 1 - t, e = h ? 0 : u * u * u * p[0] + 3 * u * u * t * p[1] + 3 * u * t * t * p[2] + t * t * t * p[3];
    if (h) {
      double t2 = t * t, t3 = t2 * t; e = (2 * t3 - 3 * t2 + 1) * p[0] + (-2 * t3 + 3 * t2) * p[1] + (t3 - 2 * t2 + t) * p[2] + (t3 - t2) * p[3]; }
    s.check(std::fabs(g - e) < 1e-6 * (1 + std::fabs(e)), "%s gives %.9g at t=%g for the values %g %g %g %g; the curve passes through %.9g", c.fn->name, g, t, p[0], p[1], p[2], p[3], e); });
  struct Cs { const char *n; int x, y, z, i; };
  for (Cs k : {Cs{"LBN", -1, -1, -1, 0}, Cs{"LTN", -1, 1, -1, 1}, Cs{"RTN", 1, 1, -1, 2}, Cs{"RBN", 1, -1, -1, 3}, Cs{"LBF", -1, -1, 1, 4}, Cs{"LTF", -1, 1, 1, 5}, Cs{"RTF", 1, 1, 1, 6}, Cs{"RBF", 1, -1, 1, 7}})
    reg(std::string("const_CSCOORD_") + k.n, NOIN, [k](C &c) { double e[4] = {(double)k.x, (double)k.y, (double)k.z, 1}; FOR(j, 4) c.s->check(c.g(0, j) == e[j], "%s: coordinate %d is %g, not %g", c.fn->name, j, c.g(0, j), e[j]); c.s->check(c.r.i == k.i, "the index of corner %s is %d, not %d", k.n, c.r.i, k.i); });
  int pi = 0; for (const char *n : {"LEFT", "RIGHT", "BOTTOM", "TOP", "NEAR", "FAR"}) { int e = pi++; reg(std::string("const_PLANE_") + n, NOIN, [e](C &c) { c.s->check(c.r.i == e, "%s is %d, not %d", c.fn->name, c.r.i, e); }); }
  long double PI = acosl(-1.0L), E1 = expl(1.0L); struct Nm { const char *n; long double v; };
  for (Nm k : {Nm{"E", E1}, Nm{"LOG2E", 1 / logl(2.0L)}, Nm{"LOG10E", 1 / logl(10.0L)}, Nm{"LN2", logl(2.0L)}, Nm{"LN10", logl(10.0L)}, Nm{"PI", PI}, Nm{"PI_2", PI / 2}, Nm{"PI_4", PI / 4}, Nm{"1_PI", 1 / PI}, Nm{"2_PI", 2 / PI}, Nm{"TAU", 2 * PI}, Nm{"TAU_2", PI}, Nm{"TAU_4", PI / 2},
               Nm{"1_TAU", 1 / (2 * PI)}, Nm{"2_TAU", 1 / PI}, Nm{"2_SQRTPI", 2 / sqrtl(PI)}, Nm{"SQRTTAU", sqrtl(2 * PI)}, Nm{"SQRT2", sqrtl(2.0L)}, Nm{"SQRT1_2", sqrtl(0.5L)}}) {
    double d = (double)k.v; float f = (float)d; std::string n = k.n; bool two = n == "PI" || n == "PI_2" || n == "PI_4";
    reg("const_NUM_" + n, [](S &s, C &c) { s.newRegime(20); c.set(0, s.sc()); }, [=](C &c) { S &s = *c.s; double g; u32 b[2] = {c.out[1][0].u, c.out[1][1].u}; memcpy(&g, b, 8);
      s.check(std::fabs(g - d) <= ulp(d), "GLM_%s is %.17g, its meaning is %.17g", n.c_str(), g, d); s.check(c.r.i == 3, "GLM_%s is not a double with a float companion (%d)", n.c_str(), c.r.i);
      FOR(j, two ? 2 : 1) s.check(c.g(2, j) == f, "the float form %d of GLM_%s is %.9g, not %.9g", j, n.c_str(), c.g(2, j), f);
      E x(c.f(0)), q(f); s.near(c.g(3, 0), x * q, (n + ": x * constant").c_str()); s.near(c.g(3, 1), x / q, (n + ": x / constant").c_str()); s.near(c.g(3, 2), q - x, (n + ": constant - x").c_str()); s.check(c.g(3, 3) == -f, "- of the float form of GLM_%s is %.9g", n.c_str(), c.g(3, 3)); });
  }
  reg("const_MINMAX", [](S &s, C &c) { s.newRegime(20); float a = s.sc(); c.set(0, a); c.set(1, s.chance(4) ? a : s.sc()); }, [](C &c) { float a = c.f(0), b = c.f(1); S &s = *c.s; float mn = a < b ? a : b, mx = a > b ? a : b;
    s.check(c.g(2, 0) == mn && c.g(2, 1) == mx, "GLM_MIN/GLM_MAX of %.9g and %.9g are %.9g and %.9g", a, b, c.g(2, 0), c.g(2, 1)); s.near(c.g(2, 2), E(2.0f) * E(mn), "2 * GLM_MIN"); s.near(c.g(2, 3), E(mx) - E(1.0f), "GLM_MAX - 1"); });
  for (std::string m : {"XXX", "YYY", "ZZZ", "ZYX", "XXXX", "YYYY", "ZZZZ", "WWWW", "WZYX"})
    reg("mask_" + m, DEF, [m](C &c) { FOR(j, m.size()) { int k = (int)std::string("XYZW").find(m[j]); c.o(1, j, c(0, k)); } });
  FOR(n, 5) if (n > 1) reg(sfmt("mask_SHUFFLE%d", n), [n](S &s, C &c) { s.newRegime(60); FV v = s.gvec(n); c.set(0, v); FOR(j, n) c.in[1][j].i = s.below(n); },
    [n](C &c) { FOR(j, n) c.o(2, j, c(0, c.I(1, j))); });
  // older names
  for (const char *n : {"vec3_dup", "vec_dup", "vec4_dup", "mat4_dup", "mat4_udup", "mat3_dup"}) reg(std::string("alias_") + n, DEF, [](C &c) { FOR(j, c.len(1)) c.s->check(c.out[1][j].u == c.in[0][j].u, "%s: element %d is not copied", c.fn->name, j); });
  reg("alias_vec4_dup3", DEF, [](C &c) { FOR(j, 3) c.s->check(c.out[1][j].u == c.in[0][j].u, "%s: element %d is not copied", c.fn->name, j); });
  for (const char *f : {"flipsign", "inv"}) FOR(n, 5) if (n > 2) {
    reg(sfmt("alias_vec%d_%s", n, f), DEF, [n](C &c) { FOR(j, n) c.o(0, j, -c(0, j)); }); reg(sfmt("alias_vec%d_%s_to", n, f), DEF, [n](C &c) { FOR(j, n) c.o(1, j, -c(0, j)); }); }
  FOR(n, 5) if (n > 2) {
    reg(sfmt("alias_vec%d_mulv", n), DEF, [n](C &c) { FOR(j, n) c.o(2, j, c(0, j) * c(1, j)); });
    reg(sfmt("alias_vec%d_step_uni", n), [n](S &s, C &c) { s.newRegime(); s.def(c); if (s.chance(3)) c.in[1][s.below(n)].f = c.f(0); }, [n](C &c) { FOR(j, n) c.o(2, j, E(c.f(1, j) < c.f(0) ? 0.0f : 1.0f)); }); }
  reg("alias_mat4_inv_precise", [](S &s, C &c) { FV m = s.gen4(); FOR(i, 4) m[i * 5] += m[i * 5] < 0 ? -4.0f : 4.0f; c.set(0, m); }, [](C &c) { double mx = 0; FOR(j, 16) mx = std::max(mx, (double)std::fabs(c.g(2, j))); if (!(mx < 1e6)) c.s->skip(); FOR(j, 16) c.s->nearAbs(c.g(1, j), c.g(2, j), 1e-5 * mx + 1e-30, "mat4_inv_precise against mat4_inv", 1, j); });
  reg("alias_aabb2d_size", DEF, [](C &c) { E d[2] = {c(0, 2) - c(0, 0), c(0, 3) - c(0, 1)}; c.ret(normE(d, 2)); });
  reg("const_CLIP", NOIN, [](C &c) { int k = c.s->sub->clip; // 0 rh_no 1 rh_zo 2 lh_no 3 lh_zo
    c.s->check(c.gi(0, 0) == (k & 2 ? 1 : 2), "handedness bits of CGLM_CONFIG_CLIP_CONTROL: %d", c.gi(0, 0)); c.s->check(c.gi(0, 1) == (k & 1 ? 1 : 2), "depth range bits of CGLM_CONFIG_CLIP_CONTROL: %d", c.gi(0, 1)); c.s->check(c.r.i == 1 << k, "CGLM_CONFIG_CLIP_CONTROL equals the conventions %d", c.r.i); });
}
