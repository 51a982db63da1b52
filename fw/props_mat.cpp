#include "prop.hpp"
#include "ref.hpp"
#define FOR(i, n) for (int i = 0; i < (n); i++)
static std::string MN(int n) { return sfmt("mat%d_", n); }
// a square matrix of some interesting shape
static FV shaped(S &s, int n, int mx) {
  s.newRegime(mx); FV m(n * n);
  switch (s.below(9)) {
  case 0: case 1: case 2: m = s.mat(n); break;
  case 3: FOR(i, n) m[i * n + i] = s.sc(); break;                                              // diagonal
  case 4: m = s.mat(n); FOR(c, n) FOR(r, n) if (r > c) m[c * n + r] = 0; break;                 // triangular
  case 5: { FV r = s.rot3(); if (n == 2) { m = s.mat(2); break; } FOR(c, 3) FOR(k, 3) m[c * n + k] = r[c * 3 + k]; if (n == 4) { m[15] = 1; FOR(k, 3) m[12 + k] = s.sc(); } break; }
  case 6: { int p[4] = {0, 1, 2, 3}; FOR(i, n) std::swap(p[i], p[s.below(n)]); FOR(i, n) m[i * n + p[i]] = s.nz(); break; } // scaled permutation
  case 7: m = s.mat(n); { int a = s.below(n), b = s.below(n); float f = s.sc(), d = ldexpf(1, -s.below(12)); if (a != b) FOR(k, n) m[a * n + k] = m[b * n + k] * f + d * s.unit(); } break; // nearly dependent columns
  default: m = s.mat(n); FOR(c, n - 1) m[c * n + n - 1] = 0; m[n * n - 1] = 1; break;          // affine
  }
  float lim = ldexpf(1, mx); FOR(i, n * n) if (!(std::fabs(m[i]) <= lim)) m[i] = 1;
  return m;
}
// ------------------------------------------------------------------ M01
PROP(M01) {
  for (int n = 2; n <= 4; n++) {
    std::string M = MN(n); int q = n * n;
    auto g = [=](S &s, C &c) { c.set(0, shaped(s, n, 40)); c.set(1, shaped(s, n, 40)); if (!s.below(8)) c.set(1, c.fv(0)); };
    auto b = [=](C &c) { E x[16], y[16], o[16]; c.ev(0, x); c.ev(1, y); mm(x, y, o, n); FOR(i, q) c.o(2, i, o[i]); };
    reg(M + "mul", g, b);
    reg(M + "mul/dest=m1", M + "mul", [=](S &s, C &c) { g(s, c); c.alias[2] = 0; }, b);
    reg(M + "mul/dest=m2", M + "mul", [=](S &s, C &c) { g(s, c); c.alias[2] = 1; }, b);
    reg(M + "mul/dest=m1=m2", M + "mul", [=](S &s, C &c) { g(s, c); c.alias[1] = 0; c.alias[2] = 0; }, b);
    reg(M + "mul/m1=m2", M + "mul", [=](S &s, C &c) { g(s, c); c.alias[1] = 0; }, b);
    reg(M + "mulv", [=](S &s, C &c) { c.set(0, shaped(s, n, 40)); s.newRegime(40); s.fillArg(c, 1); }, [=](C &c) { E x[16], y[4], o[4]; c.ev(0, x); c.ev(1, y); mv(x, y, o, n); FOR(i, n) c.o(2, i, o[i]); });
    reg(M + "rmc", [=](S &s, C &c) { c.set(1, shaped(s, n, 28)); s.newRegime(28); s.fillArg(c, 0); s.fillArg(c, 2); }, [=](C &c) { E r[4], m[16], v[4], o[4]; c.ev(0, r); c.ev(1, m); c.ev(2, v); mv(m, v, o, n); E t = dotE(r, o, n); FOR(i, n) if (r[i].bad || o[i].bad) t.bad = true; c.ret(t); });
    // (AB)v = A(Bv)
    regm(M + "mul/assoc", {M + "mul", M + "mulv"}, [=](S &s) { FV A = shaped(s, n, 12), B = shaped(s, n, 12); s.newRegime(12); FV v(n); s.vec(v.v, n);
      FV AB = s.call((M + "mul").c_str(), {A, B}).ov(2), l = s.call((M + "mulv").c_str(), {AB, v}).ov(2), r = s.call((M + "mulv").c_str(), {A, s.call((M + "mulv").c_str(), {B, v}).ov(2)}).ov(2);
      FOR(i, n) { double mag = 0; FOR(k, n) FOR(j, n) mag += std::fabs((double)A[k * n + i] * B[j * n + k] * v[j]); s.nearAbs(l[i], r[i], 40 * U * mag + 1e-40, "(AB)v vs A(Bv)", i); } });
  }
  reg("mat4_mulv3", [](S &s, C &c) { c.set(0, shaped(s, 4, 40)); s.newRegime(40); s.fillArg(c, 1); c.set(2, s.bit() ? (float)s.below(2) : s.sc()); }, [](C &c) { E x[16], y[4], o[4]; c.ev(0, x); c.ev(1, y); y[3] = c(2); mv(x, y, o, 4); FOR(i, 3) c.o(3, i, o[i]); });
  reg("mat4_mulN", [](S &s, C &c) { int k = 2 + s.below(6); c.seti(1, k); FOR(i, k) { FV m = shaped(s, 4, 8); FOR(j, 16) c.in[0][i * 16 + j].f = m[j]; } for (int j = k * 16; j < 128; j++) c.in[0][j].f = 7e8f; },
    [](C &c) { int k = c.I(1); E a[16], b[16], o[16]; FOR(j, 16) a[j] = c(0, j); for (int i = 1; i < k; i++) { FOR(j, 16) b[j] = c(0, i * 16 + j); mm(a, b, o, 4); FOR(j, 16) a[j] = o[j]; } FOR(j, 16) c.o(2, j, a[j]); });
}
// ------------------------------------------------------------------ M02
PROP(M02) {
  for (int cn = 2; cn <= 4; cn++) for (int rn = 2; rn <= 4; rn++) { // cn columns of rn rows
    if (cn == rn) continue;
    std::string M = sfmt("mat%dx%d_", cn, rn), T = sfmt("mat%dx%d_", rn, cn); int q = cn * rn;
    reg(M + "copy", DEFX(100), [=](C &c) { FOR(i, q) c.o(1, i, c(0, i)); });
    reg(M + "zero", DEF, [=](C &c) { FOR(i, q) c.o(0, i, E(0.0f)); });
    reg(M + "make", DEFX(100), [=](C &c) { FOR(i, q) c.o(1, i, c(0, i)); });
    // m1 has cn columns of rn rows; m2 has rn columns of cn rows; the product is rn x rn
    reg(M + "mul", DEFX(40), [=](C &c) { FOR(j, rn) FOR(i, rn) { E t = c(0, i) * c(1, j * cn); for (int k = 1; k < cn; k++) t += c(0, k * rn + i) * c(1, j * cn + k); c.o(2, j * rn + i, t); } });
    reg(M + "mulv", DEFX(40), [=](C &c) { FOR(i, rn) { E t = c(0, i) * c(1, 0); for (int k = 1; k < cn; k++) t += c(0, k * rn + i) * c(1, k); c.o(2, i, t); } });
    reg(M + "transpose", DEFX(100), [=](C &c) { FOR(j, rn) FOR(k, cn) c.o(1, j * cn + k, c(0, k * rn + j)); });
    reg(M + "scale", DEFX(60), [=](C &c) { FOR(i, q) c.o(0, i, c(0, i) * c(1)); });
    regm(M + "transpose twice", {M + "transpose", T + "transpose"}, [=](S &s) { s.newRegime(60); FV m(q); s.vec(m.v, q); FV t = s.call((M + "transpose").c_str(), {m}).ov(1), u = s.call((T + "transpose").c_str(), {t}).ov(1); FOR(i, q) s.check(u[i] == m[i], "element %d is %.9g after two transposes of %.9g", i, u[i], m[i]); });
    // B^T A^T = (A B)^T, over the 2..4 shapes that have a rectangular second operand
    regm(M + "mul vs transposes", {M + "mul", M + "transpose", T + "transpose"}, [=](S &s) { s.newRegime(12); FV A(q), B(q); s.vec(A.v, q); s.vec(B.v, q);
      FV P = s.call((M + "mul").c_str(), {A, B}).ov(2), At = s.call((M + "transpose").c_str(), {A}).ov(1), Bt = s.call((T + "transpose").c_str(), {B}).ov(1), Q = s.call((M + "mul").c_str(), {Bt, At}).ov(2);
      FOR(i, rn) FOR(j, rn) { double mag = 0; FOR(k, cn) mag += std::fabs((double)A[k * rn + i] * B[j * cn + k]); s.nearAbs(P[j * rn + i], Q[i * rn + j], 16 * U * mag + 1e-40, "AB vs transposed", i, j); } });
  }
}
// ------------------------------------------------------------------ M03
PROP(M03) {
  for (int n = 2; n <= 4; n++) {
    std::string M = MN(n); int q = n * n; int mx = n == 4 ? 14 : 18;
    auto g = [=](S &s, C &c) { c.set(0, shaped(s, n, mx)); };
    reg(M + "det", [=](S &s, C &c) { c.set(0, shaped(s, n, n == 4 ? 24 : 28)); }, [=](C &c) { FV m = c.fv(0); E d = detOf(m.v, n); bool ex = true; double mxv = 0; FOR(i, q) { if (m[i] != std::floor(m[i])) ex = false; mxv = std::max(mxv, (double)std::fabs(m[i])); } if (ex && d.m < 8e6) d.e = 0; (void)mxv; c.ret(d); });
    auto inv = [=](double extra) { return [=](C &c) { FV m = c.fv(0); E d = detOf(m.v, n);
      double ds = std::fabs(d.v); if (ds > 1e30 || ds < 1e-30) { c.s->skipped++; return; }
      FOR(j, n) FOR(i, n) { E x = cofOf(m.v, n, j, i) / d; c.o(1, j * n + i, x.rel(extra).abs_(1e-36)); } }; };
    reg(M + "inv", g, inv(0));
    if (n == 4) { reg("mat4_inv_fast", g, inv(5e-4 / KTOL)); reg("mat4_inv_precise", g, inv(0)); }
    for (int al = 0; al < (n == 4 ? 2 : 1); al++) reg(M + "inv/dest=m" + (al ? " fast" : ""), al ? M + "inv_fast" : M + "inv", [=](S &s, C &c) { g(s, c); c.alias[1] = 0; }, inv(al ? 5e-4 / KTOL : 0));
    regm(M + "inv/identity", {M + "inv"}, [=](S &s) { FV m = shaped(s, n, 8); FV v = s.call((M + "inv").c_str(), {m}).ov(1); E d = detOf(m.v, n); if (!(std::fabs(d.v) > 1e-3 * d.m) || d.m < 1e-20) s.skip();
      FOR(i, n) FOR(j, n) { double t = 0, tol = 1e-7; FOR(k, n) { t += (double)m[k * n + i] * v[j * n + k]; E x = cofOf(m.v, n, j, k) / d; if (x.bad) s.skip(); tol += std::fabs(m[k * n + i]) * (KTOL * x.e + 1e-36); } s.nearAbs(t, i == j, tol, "m*inv(m)", j, i); } });
  }
}
// ------------------------------------------------------------------ M04
PROP(M04) {
  for (int n = 2; n <= 4; n++) {
    std::string M = MN(n); int q = n * n;
    auto cp = [=](C &c) { FOR(i, q) c.o(1, i, c(0, i)); };
    reg(M + "copy", DEFX(100), cp); reg(M + "make", DEFX(100), cp);
    if (n == 4) for (auto f : {"mat4_ucopy", "mat4_dup", "mat4_udup"}) reg(f, DEFX(100), cp);
    if (n == 3) reg("mat3_dup", DEFX(100), cp);
    reg(M + "zero", DEF, [=](C &c) { FOR(i, q) c.o(0, i, E(0.0f)); });
    reg(M + "identity", DEF, [=](C &c) { FOR(i, q) c.o(0, i, E(i % (n + 1) ? 0.0f : 1.0f)); });
    reg(M + "identity_array", [=](S &s, C &c) { s.newRegime(100); s.def(c); c.seti(1, s.below(9)); }, [=](C &c) { int k = c.I(1); FOR(m, 8) FOR(i, q) if (m < k) c.o(0, m * q + i, E(i % (n + 1) ? 0.0f : 1.0f)); else c.sameEl(0, m * q + i); });
    auto tr = [=](int d) { return [=](C &c) { FOR(i, n) FOR(j, n) c.o(d, j * n + i, c(0, i * n + j)); }; };
    reg(M + "transpose_to", DEFX(100), tr(1)); reg(M + "transpose", DEFX(100), tr(0));
    reg(M + "transpose_to/dest=m", M + "transpose_to", [](S &s, C &c) { s.newRegime(100); s.def(c); c.alias[1] = 0; }, tr(1));
    reg(M + "scale", DEFX(60), [=](C &c) { FOR(i, q) c.o(0, i, c(0, i) * c(1)); });
    if (n == 4) reg("mat4_scale_p", DEFX(60), [=](C &c) { FOR(i, q) c.o(0, i, c(0, i) * c(1)); });
    auto gsw = [=](S &s, C &c) { s.newRegime(100); s.def(c); c.seti(1, s.below(n)); c.seti(2, s.below(n)); };
    auto pm = [](int a, int b, int x) { return x == a ? b : x == b ? a : x; };
    reg(M + "swap_col", gsw, [=](C &c) { FOR(k, n) FOR(r, n) c.o(0, k * n + r, c(0, pm(c.I(1), c.I(2), k) * n + r)); });
    reg(M + "swap_row", gsw, [=](C &c) { FOR(k, n) FOR(r, n) c.o(0, k * n + r, c(0, k * n + pm(c.I(1), c.I(2), r))); });
    reg(M + "trace", DEFX(100), [=](C &c) { E t = c(0, 0); for (int i = 1; i < n; i++) t += c(0, i * n + i); c.ret(t); });
  }
  reg("mat4_trace3", DEFX(100), [](C &c) { c.ret(c(0, 0) + c(0, 5) + c(0, 10)); });
  reg("mat4_pick3", DEFX(100), [](C &c) { FOR(k, 3) FOR(r, 3) c.o(1, k * 3 + r, c(0, k * 4 + r)); });
  reg("mat4_pick3t", DEFX(100), [](C &c) { FOR(k, 3) FOR(r, 3) c.o(1, r * 3 + k, c(0, k * 4 + r)); });
  reg("mat4_ins3", DEFX(100), [](C &c) { FOR(k, 4) FOR(r, 4) if (k < 3 && r < 3) c.o(1, k * 4 + r, c(0, k * 3 + r)); else c.sameEl(1, k * 4 + r); });
}
// ------------------------------------------------------------------ A01
// generator: affine matrix in argument i
static void aff(S &s, C &c, int i) { c.set(i, s.below(4) ? s.affine4() : s.rigid4()); }
static void fillRest(S &s, C &c) { // offsets, scales, angles and axes by argument name
  FOR(i, c.fn->nargs) { const vf_arg &a = c.fn->args[i]; std::string nm = a.name; if (a.role == 'o') continue;
    if (nm == "angle" || nm == "rot") c.set(i, s.angle());
    else if (nm == "axis" && !s.below(6)) { int z = s.below(3); FOR(k, 3) c.in[i][k].f = (s.below(9) - 4) * 0.5f; if (c.f(i, z) == 0) c.in[i][z].f = s.bit() ? 0.5f : -0.5f; }
    else if (nm == "axis") { FV d = s.unitv(3); float l = s.bit() ? 1.0f : s.below(4) ? s.logu(-6, 6) : s.logu(-17, 24); FOR(k, 3) { c.in[i][k].f = d[k] * l; if (d[k] == 0 && s.bit()) c.in[i][k].f = -0.0f; } }
    else if (nm == "m") continue;
    else { s.newRegime(s.below(8) ? 10 : 20); s.fillArg(c, i); } }
}
typedef std::function<bool(C &, E *)> ElemF; // builds the elementary matrix of a call
static void xform(const std::string &f, int n, int post, ElemF el) { // post: 0 M*X, 1 X*M, 2 X alone
  std::vector<int> md;
  auto g = [=](S &s, C &c) { if (post < 2) { if (post == 0 && !s.below(5)) { s.newRegime(10); c.set(0, s.mat(n)); } else if (n == 4) aff(s, c, 0); else c.set(0, s.affine3()); } fillRest(s, c); };
  auto b = [=](C &c) {
    E m[16], x[16], o[16]; if (!el(c, x)) { c.s->skipped++; return; }
    if (post < 2) { c.ev(0, m); if (post == 0) mm(m, x, o, n); else mm(x, m, o, n); }
    int d = 0; FOR(i, c.fn->nargs) if (c.fn->args[i].role != 'i') d = i;
    FOR(i, n * n) c.o(d, i, post < 2 ? o[i] : x[i]); };
  reg(f, g, b);
}
static E *arg3(C &c, int i, E *v) { FOR(k, c.len(i)) v[k] = c(i, k); return v; }
PROP(A01) {
  for (int post = 0; post < 2; post++) {
    std::string d = post ? "d" : "";
    auto T = [](C &c, E *x) { E v[3]; transE(arg3(c, 1, v), x, 4); return true; };
    xform(post ? "translated" : "translate", 4, post, T); xform(post ? "translated_to" : "translate_to", 4, post, T);
    for (int a = 0; a < 3; a++) {
      xform((post ? "translated_" : "translate_") + std::string(1, "xyz"[a]), 4, post, [a](C &c, E *x) { E v[3]; v[a] = c(1); transE(v, x, 4); return true; });
      xform((post ? "rotated_" : "rotate_") + std::string(1, "xyz"[a]), 4, post, [a](C &c, E *x) { elemRot(a, c(1), x, 4); return true; });
    }
    xform(post ? "rotated" : "rotate", 4, post, [](C &c, E *x) { E v[3]; return axisRot(c(1), arg3(c, 2, v), x, 4); });
    auto at = [](int pi, int ai, int xi) { return [=](C &c, E *x) { E v[3], r[16], t[16], u[16], p[3], q[3]; if (!axisRot(c(ai), arg3(c, xi, v), r, 4)) return false; arg3(c, pi, p); FOR(k, 3) q[k] = -p[k]; transE(p, t, 4); mm(t, r, u, 4); transE(q, t, 4); mm(u, t, x, 4); return true; }; };
    xform(post ? "rotated_at" : "rotate_at", 4, post, at(1, 2, 3));
    if (!post) xform("rotate_atm", 4, 2, at(1, 2, 3));
    // rotation about the object's own position leaves that position where it is
    if (post) xform("spinned", 4, 1, [](C &c, E *x) { E v[3], r[16], t[16], u[16], p[3], q[3]; if (!axisRot(c(1), arg3(c, 2, v), r, 4)) return false; FOR(k, 3) { p[k] = c(0, 12 + k); q[k] = -p[k]; } transE(p, t, 4); mm(t, r, u, 4); transE(q, t, 4); mm(u, t, x, 4); return true; });
    else xform("spin", 4, 0, [](C &c, E *x) { E v[3]; return axisRot(c(1), arg3(c, 2, v), x, 4); });
  }
  auto Sc = [](C &c, E *x) { E v[3]; scaleE(arg3(c, 1, v), x, 4); return true; };
  xform("scale", 4, 0, Sc); xform("scale_to", 4, 0, Sc);
  xform("scale_uni", 4, 0, [](C &c, E *x) { E v[3] = {c(1), c(1), c(1)}; scaleE(v, x, 4); return true; });
  xform("translate_make", 4, 2, [](C &c, E *x) { E v[3]; transE(arg3(c, 1, v), x, 4); return true; });
  xform("scale_make", 4, 2, Sc);
  xform("rotate_make", 4, 2, [](C &c, E *x) { E v[3]; return axisRot(c(1), arg3(c, 2, v), x, 4); });
  // in-place destinations
  for (int post = 0; post < 2; post++) for (int a = 0; a < 3; a++) { std::string f = (post ? "rotated_" : "rotate_") + std::string(1, "xyz"[a]);
    reg(f + "/dest=m", f, [](S &s, C &c) { aff(s, c, 0); fillRest(s, c); c.alias[2] = 0; }, [=](C &c) { E m[16], x[16], o[16]; c.ev(0, m); elemRot(a, c(1), x, 4); if (post) mm(x, m, o, 4); else mm(m, x, o, 4); FOR(i, 16) c.o(2, i, o[i]); }); }
  // rotating by a then b about one axis is rotating by a+b
  regm("rotate adds angles", {"rotate"}, [](S &s) { FV m = s.rigid4(), ax = s.dir3(); float a = s.uni(-3, 3), b = s.uni(-3, 3); FV l = s.call("rotate", {s.call("rotate", {m, a, ax}).ov(0), b, ax}).ov(0), r = s.call("rotate", {m, a + b, ax}).ov(0); FOR(i, 16) s.nearAbs(l[i], r[i], 3e-6 * (i >= 12 ? 1 + std::fabs(m[i]) : 1), "rotate(a) rotate(b)", i); });
}
// ------------------------------------------------------------------ A02
PROP(A02) {
  for (int post = 0; post < 2; post++) {
    std::string d = post ? "d" : "";
    auto T = [](C &c, E *x) { E v[3]; transE(arg3(c, 1, v), x, 3); return true; };
    xform("translate" + d + "2d", 3, post, T);
    for (int a = 0; a < 2; a++) xform("translate" + d + "2d_" + std::string(1, "xy"[a]), 3, post, [a](C &c, E *x) { E v[3]; v[a] = c(1); transE(v, x, 3); return true; });
    auto R = [](int ai) { return [=](C &c, E *x) { identE(x, 3); E cs = Cos(c(ai)), sn = Sin(c(ai)); x[0] = cs; x[1] = sn; x[3] = -sn; x[4] = cs; return true; }; };
    xform("rotate" + d + "2d", 3, post, R(1));
    auto Sc = [](C &c, E *x) { E v[3]; scaleE(arg3(c, 1, v), x, 3); return true; };
    xform("scale" + d + "2d", 3, post, Sc);
    xform("scale" + d + "2d_uni", 3, post, [](C &c, E *x) { E v[2] = {c(1), c(1)}; scaleE(v, x, 3); return true; });
    if (!post) {
      xform("translate2d_to", 3, 0, T); xform("scale2d_to", 3, 0, Sc); xform("rotate2d_to", 3, 0, R(1));
      xform("translate2d_make", 3, 2, T); xform("scale2d_make", 3, 2, Sc); xform("rotate2d_make", 3, 2, R(1));
      reg("rotate2d_to/dest=m", "rotate2d_to", [](S &s, C &c) { c.set(0, s.affine3()); fillRest(s, c); c.alias[2] = 0; }, [](C &c) { E m[9], x[9], o[9]; c.ev(0, m); identE(x, 3); E cs = Cos(c(1)), sn = Sin(c(1)); x[0] = cs; x[1] = sn; x[3] = -sn; x[4] = cs; mm(m, x, o, 3); FOR(i, 9) c.o(2, i, o[i]); });
    }
  }
  for (int n = 3; n <= 4; n++) reg(sfmt("mat%d_textrans", n), [](S &s, C &c) { fillRest(s, c); }, [n](C &c) {
    E m[16]; identE(m, n); E cs = Cos(c(2)), sn = Sin(c(2)); m[0] = cs * c(0); m[1] = -(sn * c(1)); m[n] = sn * c(0); m[n + 1] = cs * c(1); m[(n - 1) * n] = c(3); m[(n - 1) * n + 1] = c(4); FOR(i, n * n) c.o(5, i, m[i]); });
}
// ------------------------------------------------------------------ A03
PROP(A03) {
  auto g = [](S &s, C &c) { FOR(i, 2) { aff(s, c, i); if (!s.below(6)) c.in[i][15].f = s.nz(); } };
  auto gr = [](S &s, C &c) { aff(s, c, 0); FV r = s.rot3(); if (!s.below(4)) { s.newRegime(8); r = s.mat(3); } FOR(k, 16) c.in[1][k].f = k == 15; FOR(k, 3) FOR(j, 3) c.in[1][k * 4 + j].f = r[k * 3 + j]; };
  auto b = [](C &c) { E x[16], y[16], o[16]; c.ev(0, x); c.ev(1, y); mm(x, y, o, 4); FOR(i, 16) c.o(2, i, o[i]); };
  reg("mul", g, b); reg("mul_rot", gr, b);
  FOR(al, 2) { reg(sfmt("mul/dest=m%d", al + 1), "mul", [=](S &s, C &c) { g(s, c); c.alias[2] = al; }, b); reg(sfmt("mul_rot/dest=m%d", al + 1), "mul_rot", [=](S &s, C &c) { gr(s, c); c.alias[2] = al; }, b); }
  reg("inv_tr", [](S &s, C &c) { c.set(0, s.rigid4()); }, [](C &c) {
    FOR(i, 3) { FOR(j, 3) c.o(0, i * 4 + j, c(0, j * 4 + i)); c.o(0, i * 4 + 3, E(0.0f)); E t = c(0, i * 4) * c(0, 12) + c(0, i * 4 + 1) * c(0, 13) + c(0, i * 4 + 2) * c(0, 14); c.o(0, 12 + i, -t); } c.o(0, 15, E(1.0f)); });
  regm("inv_tr undoes", {"inv_tr", "mat4_mul"}, [](S &s) { FV m = s.rigid4(); FV p = s.call("mat4_mul", {s.call("inv_tr", {m}).ov(0), m}).ov(2); double t = std::fabs(m[12]) + std::fabs(m[13]) + std::fabs(m[14]); FOR(i, 16) s.nearAbs(p[i], i % 5 == 0, 1e-6 * (1 + (i >= 12 ? t : 0)), "inv*m", i); });
  auto gtrs = [](S &s, C &c) { // translation * rotation * scale, possibly mirrored
    FV r = s.rot3(); float sc[3]; int k = s.below(4); FOR(j, 3) sc[j] = k == 0 ? 1.0f : (k == 1 && j) ? sc[0] : s.below(8) ? s.logu(-8, 8) : s.logu(-14, 18);
    int mir = s.below(8); if (s.bit()) FOR(j, 3) if (mir >> j & 1) sc[j] = -sc[j];
    FOR(j, 3) FOR(i, 3) c.in[0][j * 4 + i].f = r[j * 3 + i] * sc[j]; FOR(j, 3) c.in[0][j * 4 + 3].f = 0; s.newRegime(12); FOR(i, 3) c.in[0][12 + i].f = s.sc(); c.in[0][15].f = 1; };
  auto lens = [](C &c, E *l) { FOR(j, 3) { E v[3] = {c(0, j * 4), c(0, j * 4 + 1), c(0, j * 4 + 2)}; l[j] = normE(v, 3); } };
  auto dec = [=](C &c, int ri, int si) {
    E l[3]; lens(c, l); FV m = c.fv(0); float q[9]; FOR(j, 3) FOR(i, 3) q[j * 3 + i] = m[j * 4 + i]; E d = detOf(q, 3); float sg = d.v < 0 ? -1.0f : 1.0f;
    FOR(j, 3) c.o(si, j, E(sg) * l[j]);
    FV r = c.ov(ri); FOR(j, 3) { FOR(i, 3) c.o(ri, j * 4 + i, E(sg) * c(0, j * 4 + i) / l[j]); c.o(ri, j * 4 + 3, E(0.0f)); c.o(ri, 12 + j, E(0.0f)); } c.o(ri, 15, E(1.0f));
    float rq[9]; FOR(j, 3) FOR(i, 3) rq[j * 3 + i] = r[j * 4 + i]; c.s->nearAbs(detOf(rq, 3).v, 1, 1e-5, "det of rotation");
    FOR(j, 3) FOR(i, 3) c.s->nearAbs((double)r[j * 4 + i] * c.g(si, j), m[j * 4 + i], 4 * U * std::fabs(l[j].v), "r*s", j, i); };
  reg("decompose_rs", gtrs, [=](C &c) { dec(c, 1, 2); });
  reg("decompose", gtrs, [=](C &c) { dec(c, 2, 3); FOR(i, 4) c.o(1, i, c(0, 12 + i)); });
  reg("decompose_scalev", gtrs, [=](C &c) { E l[3]; lens(c, l); FOR(j, 3) c.o(1, j, l[j]); });
  reg("uniscaled", [=](S &s, C &c) { gtrs(s, c); if (s.bit()) { float f = s.logu(-6, 2); FV r = s.rot3(); int k = s.below(3); float e = s.bit() ? 0 : 1e-5f * s.uni(-4, 4); FOR(j, 3) FOR(i, 3) c.in[0][j * 4 + i].f = r[j * 3 + i] * (f + (j == k ? e : 0)); } }, [=](C &c) {
    E l[3]; lens(c, l); double hi = 0, sl = 0; FOR(j, 3) FOR(k, j) hi = std::max(hi, std::fabs(l[j].v - l[k].v)); FOR(j, 3) sl += 4 * l[j].e; c.retb(hi + sl < 0.95e-5 ? YES : hi - sl > 2.1e-5 ? NO : UNK); });
}
