#include "prop.hpp"
#include "ref.hpp"
#define FOR(i, n) for (int i = 0; i < (n); i++)
static std::string Q(const char *f) { return std::string("quat_") + f; }
// ------------------------------------------------------------------ double-precision quaternion helpers
struct Qd { double x, y, z, w; };
static Qd qd(const FV &q) { return {q[0], q[1], q[2], q[3]}; }
static double qn(const Qd &q) { return std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); }
static Qd qu(Qd q) { double n = qn(q); return {q.x / n, q.y / n, q.z / n, q.w / n}; }
static void qrotd(const Qd &q0, const double *v, double *o) {
  Qd q = qu(q0); double t[3] = {2 * (q.y * v[2] - q.z * v[1]), 2 * (q.z * v[0] - q.x * v[2]), 2 * (q.x * v[1] - q.y * v[0])};
  o[0] = v[0] + q.w * t[0] + q.y * t[2] - q.z * t[1]; o[1] = v[1] + q.w * t[1] + q.z * t[0] - q.x * t[2]; o[2] = v[2] + q.w * t[2] + q.x * t[1] - q.y * t[0];
}
static void qmatd(const Qd &q, double *m) { FOR(c, 3) { double e[3] = {0, 0, 0}; e[c] = 1; qrotd(q, e, m + 3 * c); } }
// quaternions with a length over many magnitudes; sometimes zero
static void genQ(S &s, C &c, int i, int mx) { s.newRegime(mx); s.fillArg(c, i); if (s.below(2)) { FV d = s.quat(); float l = s.logu(-std::min(mx, 20), std::min(mx, 20)); FOR(j, 4) c.in[i][j].f = d[j] * l; } if (!s.below(12)) FOR(j, 4) c.in[i][j].f = s.bit() ? 0.0f : -0.0f; }
static void genU(S &s, C &c, int i) { c.set(i, s.quat()); }
// angle-axis
static void angAxis(C &c, int dst, E an, const E *ax) {
  E k[3] = {ax[0], ax[1], ax[2]}; double l = normE(k, 3).v; E h = an * E(0.5f), cs = Cos(h), sn = Sin(h);
  c.o(dst, 3, cs);
  if (l < 0.9e-7) { FOR(j, 3) c.o(dst, j, E(0.0f)); return; }
  if (l < 1.5e-7 || !normalizeE(k, 3)) { c.s->skipped++; return; }
  FOR(j, 3) c.o(dst, j, sn * k[j]);
}
PROP(Q01) {
  auto g2 = [](S &s, C &c) { genQ(s, c, 0, 28); genQ(s, c, 1, 28); };
  auto two = [](C &c, E (*op)(E, E)) { FOR(j, 4) c.o(2, j, op(c(0, j), c(1, j))); };
  reg("quat_add", g2, [=](C &c) { two(c, [](E a, E b) { return a + b; }); });
  reg("quat_sub", g2, [=](C &c) { two(c, [](E a, E b) { return a - b; }); });
  auto mulB = [](C &c) { E p[4], q[4], o[4]; c.ev(0, p); c.ev(1, q); qmulE(p, q, o); FOR(j, 4) c.o(2, j, o[j]); };
  reg("quat_mul", g2, mulB);
  reg("quat_mul/units", "quat_mul", [](S &s, C &c) { // products of i, j, k, 1 and of unit quaternions
    FOR(a, 2) { if (s.bit()) genU(s, c, a); else { FV q(4); q[s.below(4)] = s.bit() ? -1 : 1; c.set(a, q); } } }, mulB);
  reg("quat_dot", g2, [](C &c) { E p[4], q[4]; c.ev(0, p); c.ev(1, q); c.ret(dotE(p, q, 4)); });
  auto g1 = [](S &s, C &c) { genQ(s, c, 0, 59); };
  reg("quat_norm", g1, [](C &c) { E q[4]; c.ev(0, q); c.ret(normE(q, 4)); });
  reg("quat_conjugate", g1, [](C &c) { FOR(j, 4) c.o(1, j, j < 3 ? -c(0, j) : c(0, j)); });
  reg("quat_conjugate/dest=q", "quat_conjugate", [=](S &s, C &c) { g1(s, c); c.alias[1] = 0; }, [](C &c) { FOR(j, 4) c.o(1, j, j < 3 ? -c(0, j) : c(0, j)); });
  auto inv = [](C &c) { E q[4]; c.ev(0, q); E n = dotE(q, q, 4); if (!(n.v > 1e-36) || n.v > 1e36) { c.s->skipped++; return; } FOR(j, 4) c.o(1, j, (j < 3 ? -q[j] : q[j]) / n); };
  reg("quat_inv", g1, inv); reg("quat_inv/dest=q", "quat_inv", [=](S &s, C &c) { g1(s, c); c.alias[1] = 0; }, inv);
  for (int k = 0; k < 3; k++) {
    auto nb = [k](C &c) { int d = k ? 1 : 0; E q[4]; c.ev(0, q); E n = dotE(q, q, 4); bool z = true; FOR(j, 4) if (q[j].v != 0) z = false;
      if (z) { FOR(j, 4) c.o(d, j, E(j == 3 ? 1.0f : 0.0f)); return; }
      if (!(n.v > 1e-34)) { c.s->skipped++; return; } E r = Sqrt(n); FOR(j, 4) c.o(d, j, q[j] / r); double l = 0; FOR(j, 4) l += (double)c.g(d, j) * c.g(d, j); if (n.v < 1e37) c.s->nearAbs(std::sqrt(l), 1, 1e-6, "length"); };
    const char *f = k ? "quat_normalize_to" : "quat_normalize";
    reg(k == 2 ? "quat_normalize_to/dest=q" : f, f, [=](S &s, C &c) { g1(s, c); if (k == 2) c.alias[1] = 0; }, nb);
  }
  reg("quat_identity", DEF, [](C &c) { FOR(j, 4) c.o(0, j, E(j == 3 ? 1.0f : 0.0f)); });
  reg("quat_identity_array", [](S &s, C &c) { s.newRegime(60); s.def(c); c.seti(1, s.below(9)); }, [](C &c) { FOR(k, 8) FOR(j, 4) if (k < c.I(1)) c.o(0, k * 4 + j, E(j == 3 ? 1.0f : 0.0f)); else c.sameEl(0, k * 4 + j); });
  reg("quat_init", DEFX(100), [](C &c) { FOR(j, 4) c.o(0, j, c(1 + j)); });
  reg("quat_copy", DEFX(100), [](C &c) { FOR(j, 4) c.o(1, j, c(0, j)); });
  reg("quat_make", DEFX(100), [](C &c) { FOR(j, 4) c.o(1, j, c(0, j)); });
  reg("quat_real", DEFX(100), [](C &c) { c.ret(c(0, 3)); });
  reg("quat_imag", DEFX(100), [](C &c) { FOR(j, 3) c.o(1, j, c(0, j)); });
  reg("quat_imaglen", DEFX(59), [](C &c) { E q[4]; c.ev(0, q); c.ret(normE(q, 3)); });
  for (auto f : {"quat_imagn", "quat_axis"}) reg(f, [](S &s, C &c) { genQ(s, c, 0, 59); if (!s.below(4)) { FV d = s.unitv(3); float l = s.logu(-26, -10); FOR(j, 3) c.in[0][j].f = d[j] * l; } }, [](C &c) { E q[4]; c.ev(0, q); double l = normE(q, 3).v; if (l < 0.9e-7) { FOR(j, 3) c.o(1, j, E(0.0f)); return; } if (l < 1.5e-7 || !normalizeE(q, 3)) { c.s->skipped++; return; } FOR(j, 3) c.o(1, j, q[j]); });
  reg("quat_angle", [](S &s, C &c) { if (s.bit()) genU(s, c, 0); else genQ(s, c, 0, 40); }, [](C &c) { E q[4]; c.ev(0, q); E l = normE(q, 3); if (l.bad || (l.v < 1e-15 && l.v > 0)) { c.s->skipped++; return; } c.ret(E(2.0f) * Atan2(l, q[3])); });
  auto gaa = [](S &s, C &c) { c.set(1, s.angle()); FV d = s.unitv(3); float l = s.bit() ? 1.0f : s.logu(-12, 12); if (!s.below(10)) l = s.bit() ? 0 : 5e-8f; if (!s.below(8)) { l = 1; FOR(j, 3) d[j] = (s.below(9) - 4) * 0.5f; } FOR(j, 3) if (c.fn->nargs == 3) c.in[2][j].f = d[j] * l; else c.set(2 + j, d[j] * l); };
  reg("quatv", gaa, [](C &c) { E a[3] = {c(2, 0), c(2, 1), c(2, 2)}; angAxis(c, 0, c(1), a); });
  reg("quat", gaa, [](C &c) { E a[3] = {c(2), c(3), c(4)}; angAxis(c, 0, c(1), a); });
  // laws
  regm("inverse times original is the identity", {"quat_inv", "quat_mul"}, [](S &s) { FV q = s.quat(); float l = s.logu(-20, 20); FOR(j, 4) q[j] *= l; FV v = s.call("quat_inv", {q}).ov(1); FV a = s.bit() ? s.call("quat_mul", {v, q}).ov(2) : s.call("quat_mul", {q, v}).ov(2); FOR(j, 4) s.nearAbs(a[j], j == 3, 2e-6, "q*inv(q)", j); });
  regm("norm is multiplicative", {"quat_mul", "quat_norm"}, [](S &s) { FV p = s.quat(), q = s.quat(); float l = s.logu(-12, 12), k = s.logu(-12, 12); FOR(j, 4) { p[j] *= l; q[j] *= k; } FV r = s.call("quat_mul", {p, q}).ov(2); double e = (double)s.call("quat_norm", {p}).r.f * s.call("quat_norm", {q}).r.f, n = s.call("quat_norm", {r}).r.f; s.nearAbs(n, e, 4e-6 * e, "|pq|"); });
  regm("product is associative", {"quat_mul"}, [](S &s) { FV p = s.quat(), q = s.quat(), r = s.quat(); FV a = s.call("quat_mul", {s.call("quat_mul", {p, q}).ov(2), r}).ov(2), b = s.call("quat_mul", {p, s.call("quat_mul", {q, r}).ov(2)}).ov(2); FOR(j, 4) s.nearAbs(a[j], b[j], 3e-6, "(pq)r vs p(qr)", j); });
  regm("angle and axis rebuild the quaternion", {"quat_angle", "quat_axis", "quatv"}, [](S &s) { FV q = s.quat(); double l = std::sqrt((double)q[0] * q[0] + (double)q[1] * q[1] + (double)q[2] * q[2]); if (l < 1e-4) s.skip(); float a = s.call("quat_angle", {q}).r.f; FV x = s.call("quat_axis", {q}).ov(1), r = s.call("quatv", {a, x}).ov(0); FOR(j, 4) s.nearAbs(r[j], q[j], 2e-6, "rebuilt", j); });
  regm("conjugate reverses a product", {"quat_mul", "quat_conjugate"}, [](S &s) { FV p = s.quat(), q = s.quat(); FV a = s.call("quat_conjugate", {s.call("quat_mul", {p, q}).ov(2)}).ov(1), b = s.call("quat_mul", {s.call("quat_conjugate", {q}).ov(1), s.call("quat_conjugate", {p}).ov(1)}).ov(2); FOR(j, 4) s.nearAbs(a[j], b[j], 2e-6, "(pq)*", j); });
}
// ------------------------------------------------------------------ Q02
PROP(Q02) {
  for (int n = 3; n <= 4; n++) for (int t = 0; t < 2; t++)
    reg(sfmt("quat_mat%d%s", n, t ? "t" : ""), [](S &s, C &c) { genU(s, c, 0); }, [=](C &c) { E q[4], m[16]; c.ev(0, q); quatMatE(q, m, n); FOR(k, n) FOR(r, n) { E x = t ? m[r * n + k] : m[k * n + r]; c.o(1, k * n + r, k < 3 && r < 3 ? x.abs_(3e-8) : x); } });
  for (int n = 3; n <= 4; n++) {
    std::string M = sfmt("mat%d_quat", n), back = sfmt("quat_mat%d", n);
    auto gr = [=](S &s) { FV r = s.rot3(), m(n * n); if (!s.below(3)) { // nearly balanced trace / diagonal
        FV q(4); FOR(j, 4) q[j] = (s.bit() ? 1 : -1) * (1 + (s.below(3) ? 0 : s.unit() * ldexpf(1, -s.below(22)))); if (!s.below(3)) q[s.below(4)] = 0; if (!s.below(3)) q[3] = s.unit() * ldexpf(1, -s.below(24)); double l = qn(qd(q)); if (l > 0) { FOR(j, 4) q[j] = (float)(q[j] / l); double D[9]; qmatd(qd(q), D); FOR(j, 9) r[j] = (float)D[j]; } }
      if (n == 4) { m[15] = 1; s.newRegime(10); if (s.bit()) FOR(j, 3) m[12 + j] = s.sc(); } FOR(k, 3) FOR(j, 3) m[k * n + j] = r[k * 3 + j]; return m; };
    reg(M, [=](S &s, C &c) { c.set(0, gr(s)); }, [=](C &c) { FV q = c.ov(1); c.s->nearAbs(qn(qd(q)), 1, 2e-6, "length"); double D[9]; qmatd(qd(q), D); FOR(k, 3) FOR(r, 3) c.s->nearAbs(D[k * 3 + r], c.f(0, k * n + r), 2e-6, "matrix of the quaternion", k, r); });
    regm(M + "/round trip", {M, back}, [=](S &s) { FV m = gr(s), o = s.call(back.c_str(), {s.call(M.c_str(), {m}).ov(1)}).ov(1); FOR(k, 3) FOR(r, 3) s.nearAbs(o[k * n + r], m[k * n + r], 3e-6, "round trip", k, r); });
    regm(M + "/of a quaternion", {M, back}, [=](S &s) { FV q = s.quat(), o = s.call(M.c_str(), {s.call(back.c_str(), {q}).ov(1)}).ov(1); double d = 0; FOR(j, 4) d += (double)q[j] * o[j]; FOR(j, 4) s.nearAbs(o[j], d < 0 ? -q[j] : q[j], 3e-6, "up to sign", j); });
  }
  auto rot = [](C &c, const E *q, E *m, int n) { (void)c; quatMatE(q, m, n); };
  reg("quat_rotatev", [](S &s, C &c) { genQ(s, c, 0, 20); s.newRegime(28); s.fillArg(c, 1); if (!s.below(6)) { float f = s.sc(); FOR(j, 3) c.in[1][j].f = c.f(0, j) * (std::fabs(f) < 1e6 ? f : 1); } }, [=](C &c) {
    E q[4], m[9], v[3], o[3]; c.ev(0, q); c.ev(1, v); double l = qn(qd(c.fv(0))), mv_ = 0; if (l == 0) { q[3] = E(1.0f); } else if (l < 1e-16) { c.s->skipped++; return; } quatMatE(q, m, 3); mv(m, v, o, 3); FOR(j, 3) mv_ = std::max(mv_, std::fabs(v[j].v)); FOR(j, 3) c.o(2, j, o[j].abs_(1.5e-7 * mv_)); });
  reg("quat_rotatev/dest=v", "quat_rotatev", [](S &s, C &c) { genU(s, c, 0); s.newRegime(28); s.fillArg(c, 1); c.alias[2] = 1; }, [=](C &c) {
    E q[4], m[9], v[3], o[3]; c.ev(0, q); c.ev(1, v); double mv_ = 0; quatMatE(q, m, 3); mv(m, v, o, 3); FOR(j, 3) mv_ = std::max(mv_, std::fabs(v[j].v)); FOR(j, 3) c.o(2, j, o[j].abs_(1.5e-7 * mv_)); });
  // the vector part of q v q*
  regm("rotatev is q v q*", {"quat_rotatev", "quat_mul", "quat_conjugate"}, [](S &s) { FV q = s.quat(), v = s.unitv(3), p{v[0], v[1], v[2], 0}; FV r = s.call("quat_rotatev", {q, v}).ov(2), o = s.call("quat_mul", {s.call("quat_mul", {q, p}).ov(2), s.call("quat_conjugate", {q}).ov(1)}).ov(2); FOR(j, 3) s.nearAbs(r[j], o[j], 3e-6, "q v q*", j); s.nearAbs(o[3], 0, 2e-6, "real part"); });
  regm("product composes rotations", {"quat_mul", "quat_mat3", "mat3_mul"}, [](S &s) { FV p = s.quat(), q = s.quat(); FV a = s.call("quat_mat3", {s.call("quat_mul", {p, q}).ov(2)}).ov(1), b = s.call("mat3_mul", {s.call("quat_mat3", {p}).ov(1), s.call("quat_mat3", {q}).ov(1)}).ov(2); FOR(j, 9) s.nearAbs(a[j], b[j], 4e-6, "R(pq)", j); });
  auto ga = [](S &s, C &c) { FOR(i, c.fn->nargs) { std::string nm = c.fn->args[i].name; if (nm == "m" && c.fn->args[i].role != 'o') { if (!s.below(6)) { s.newRegime(10); c.set(i, s.mat(4)); } else c.set(i, s.bit() ? s.affine4() : s.rigid4()); } else if (nm == "q" || nm == "ori") c.set(i, s.quat()); else if (c.fn->args[i].role != 'o') { s.newRegime(10); s.fillArg(c, i); } } };
  auto tol = [](const E *m, int n, double *t) { FOR(r, n) { t[r] = 0; FOR(k, 3) t[r] = std::max(t[r], std::fabs(m[k * n + r].v)); } };
  for (int al = 0; al < 2; al++) reg(al ? "quat_rotate/dest=m" : "quat_rotate", "quat_rotate", [=](S &s, C &c) { ga(s, c); if (al) c.alias[2] = 0; }, [=](C &c) { E q[4], m[16], x[16], o[16]; double t[4]; c.ev(0, m); c.ev(1, q); rot(c, q, x, 4); mm(m, x, o, 4); tol(m, 4, t); FOR(i, 16) c.o(2, i, i < 12 ? o[i].abs_(1.5e-7 * t[i % 4]) : o[i]); });
  for (int mk = 0; mk < 2; mk++) reg(mk ? "quat_rotate_atm" : "quat_rotate_at", ga, [=](C &c) {
    E q[4], m[16], r[16], o[16], t[16], u[16], p[3], ip[3]; c.ev(1, q); quatMatE(q, r, 4); FOR(j, 12) if (j % 4 < 3) r[j] = r[j].abs_(1.5e-7); FOR(j, 3) { p[j] = c(2, j); ip[j] = -p[j]; }
    if (mk) identE(m, 4); else c.ev(0, m);
    transE(p, t, 4); mm(m, t, u, 4); mm(u, r, o, 4); transE(ip, t, 4); mm(o, t, u, 4); FOR(i, 16) c.o(0, i, u[i]); });
  reg("quat_look", [=](S &s, C &c) { ga(s, c); }, [=](C &c) { E q[4], m[16], v[3]; c.ev(1, q); c.ev(0, v); quatMatE(q, m, 4); double mx = 0; FOR(j, 3) mx = std::max(mx, std::fabs(v[j].v));
    FOR(k, 3) FOR(r, 3) c.o(2, k * 4 + r, m[r * 4 + k].abs_(3e-8)); FOR(r, 3) { c.o(2, r * 4 + 3, E(0.0f)); E x = m[r * 4] * v[0] + m[r * 4 + 1] * v[1] + m[r * 4 + 2] * v[2]; c.o(2, 12 + r, (-x).abs_(1.5e-7 * mx)); } c.o(2, 15, E(1.0f)); });
}
// ------------------------------------------------------------------ Q03
// a pair of unit quaternions at a chosen angle (spread over magnitudes, also near 0, pi/2 and pi)
static void pair(S &s, FV &a, FV &b) {
  a = s.quat(); b = s.quat(); double an;
  switch (s.below(6)) { case 0: return; case 1: an = s.logu(-24, 0); break; case 2: an = M_PI - s.logu(-24, 0); break; case 3: an = M_PI / 2 + s.unit() * std::ldexp(1, -s.below(24)); break; case 4: an = s.below(9) * M_PI / 8; break; default: an = s.uni(0, 3.1415927f); }
  double d = 0; FOR(j, 4) d += (double)a[j] * b[j]; double o[4], l = 0; FOR(j, 4) { o[j] = b[j] - d * a[j]; l += o[j] * o[j]; } l = std::sqrt(l); if (l < 0.1) { int k = 0; FOR(j, 4) if (std::fabs(a[j]) < std::fabs(a[k])) k = j; l = 0; FOR(j, 4) { o[j] = (j == k) - (double)a[k] * a[j]; l += o[j] * o[j]; } l = std::sqrt(l); }
  FOR(j, 4) b[j] = (float)(a[j] * std::cos(an) + o[j] / l * std::sin(an));
}
static float tpar(S &s) { switch (s.below(6)) { case 0: return 0; case 1: return 1; case 2: return 0.5f; case 3: return s.logu(-20, 0); case 4: return 1 - s.logu(-20, -1); default: return s.uni(0, 1); } }
PROP(Q03) {
  auto lerpB = [](bool cl) { return [cl](C &c) { E t = c(2); if (cl) t = Max(E(0.0f), Min(t, E(1.0f))); FOR(j, 4) c.o(3, j, c(0, j) + t * (c(1, j) - c(0, j))); }; };
  auto gl = [](S &s, C &c) { if (s.bit()) { FV a, b; pair(s, a, b); c.set(0, a); c.set(1, b); } else { genQ(s, c, 0, 40); genQ(s, c, 1, 40); } s.newRegime(20); c.set(2, s.below(3) ? tpar(s) : s.sc()); };
  reg("quat_lerp", gl, lerpB(false)); reg("quat_lerpc", gl, lerpB(true));
  auto gp = [](S &s, C &c) { FV a, b; pair(s, a, b); c.set(0, a); c.set(1, b); c.set(2, tpar(s)); };
  auto nl = [](C &c) { double d = 0, l = 0, r[4]; FOR(j, 4) d += (double)c.f(0, j) * c.f(1, j); if (std::fabs(d) < 1e-6) { c.s->skipped++; double q = 0; FOR(j, 4) q += (double)c.g(3, j) * c.g(3, j); c.s->nearAbs(std::sqrt(q), 1, 2e-6, "length"); return; }
    FOR(j, 4) { double b = d < 0 ? -(double)c.f(1, j) : c.f(1, j); r[j] = c.f(0, j) + (double)c.f(2) * (b - c.f(0, j)); l += r[j] * r[j]; } l = std::sqrt(l); FOR(j, 4) c.s->nearAbs(c.g(3, j), r[j] / l, 1.5e-6, "nlerp", j); };
  reg("quat_nlerp", gp, nl);
  for (int lo = 0; lo < 2; lo++) {
    const char *f = lo ? "quat_slerp_longest" : "quat_slerp";
    reg(f, gp, [lo](C &c) {
      double t = c.f(2), d = 0; FOR(j, 4) d += (double)c.f(0, j) * c.f(1, j);
      double q = 0; FOR(j, 4) q += (double)c.g(3, j) * c.g(3, j); q = std::sqrt(q);
      // the two parallel directions leave the long arc undetermined
      if (lo && std::fabs(d) > 0.99999) { c.s->skipped++; return; }
      double sn2 = std::max(1 - d * d, 1e-12), tolL = 2e-6 + 4 * U / sn2; c.s->nearAbs(q, 1, std::min(tolL, lo ? 1e-2 : 2e-4), "length");
      if (std::fabs(d) < 1e-6) { c.s->skipped++; return; } // either way round is shortest
      double sg = (lo ? d < 0 : d > 0) ? 1 : -1; // sign given to the start
      double dd = sg * d; // cosine of the arc actually travelled
      double lo_[4], hi_[4]; FOR(j, 4) lo_[j] = 1e9, hi_[j] = -1e9;
      FOR(k, 9) { double x = dd + (k - 4) * 1e-7; if (x > 1) x = 1; if (x < -1) x = -1; double a = std::acos(x), w0, w1; if (a < 1e-9) w0 = 1 - t, w1 = t; else w0 = std::sin((1 - t) * a) / std::sin(a), w1 = std::sin(t * a) / std::sin(a); FOR(j, 4) { double r = w0 * sg * c.f(0, j) + w1 * c.f(1, j); lo_[j] = std::min(lo_[j], r); hi_[j] = std::max(hi_[j], r); } }
      double tol = 3e-6 + std::min(4 * U / sn2, lo ? 1e-2 : 2e-4); double s1 = 1; if (!lo && dd > 1 - 4e-7) tol += std::sqrt(2 * std::max(1 - dd, 0.0) + 4e-7); // rounds to parallel: the start may be returned
      if (!lo && dd > 1 - 1e-6) { double x = 0; FOR(j, 4) x += c.g(3, j) * 0.5 * (lo_[j] + hi_[j]); s1 = x < 0 ? -1 : 1; } // nearly parallel: up to sign
      FOR(j, 4) { double g = s1 * c.g(3, j); c.s->check(g >= lo_[j] - tol && g <= hi_[j] + tol, "component %d is %.9g, the point on the arc is %.9g..%.9g (t=%.9g, dot=%.9g)", j, g, lo_[j], hi_[j], t, d); } });
    regm(std::string(f) + "/end points", {f}, [=](S &s) { FV a, b; pair(s, a, b); double d = 0; FOR(j, 4) d += (double)a[j] * b[j]; if (lo && std::fabs(d) > 0.99999) s.skip(); bool e = s.bit(); FV r = s.call(f, {a, b, e ? 1.0f : 0.0f}).ov(3); const FV &x = e ? b : a; double p = 0; FOR(j, 4) p += (double)r[j] * x[j]; double tol = 3e-6 + std::min(4 * U / std::max(1 - d * d, 1e-12), lo ? 1e-2 : 2e-4); if (std::fabs(d) > 1 - 1e-6) tol = 2e-3; FOR(j, 4) s.nearAbs(r[j], p < 0 ? -x[j] : x[j], tol, "end point", j); });
  }
}
// ------------------------------------------------------------------ Q04
PROP(Q04) {
  regm("quat_from_vecs", {"quat_from_vecs"}, [](S &s) {
    FV a = s.unitv(3), b = s.unitv(3); double an = -1;
    switch (s.below(6)) { case 0: break; case 1: FOR(j, 3) b[j] = -a[j]; break; case 2: FOR(j, 3) b[j] = a[j]; break; case 3: an = s.logu(-24, -1); break; case 4: an = M_PI - s.logu(-24, -1); break; default: an = s.below(9) * M_PI / 8; }
    if (an >= 0) { double d = 0, o[3], l = 0; FOR(j, 3) d += (double)a[j] * b[j]; FOR(j, 3) { o[j] = b[j] - d * a[j]; l += o[j] * o[j]; } l = std::sqrt(l); if (l < 0.1) { int k = 0; FOR(j, 3) if (std::fabs(a[j]) < std::fabs(a[k])) k = j; l = 0; FOR(j, 3) { o[j] = (j == k) - (double)a[k] * a[j]; l += o[j] * o[j]; } l = std::sqrt(l); } FOR(j, 3) b[j] = (float)(a[j] * std::cos(an) + o[j] / l * std::sin(an)); }
    FV q = s.call("quat_from_vecs", {a, b}).ov(2); Qd Q = qd(q); s.nearAbs(qn(Q), 1, 2e-6, "length");
    double x[3] = {a[0], a[1], a[2]}, y[3], cs = 0, cr[3]; FOR(j, 3) { cs += (double)a[j] * b[j]; int k = (j + 1) % 3, l = (j + 2) % 3; cr[j] = (double)a[k] * b[l] - (double)a[l] * b[k]; } double sn = std::sqrt(cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]);
    double tol = 3e-6 + 8e-7 / std::max(sn, 1e-3); if (std::fabs(cs) > 1 - 1.2e-5) tol = 5.2e-3; // within the library's epsilon of (anti)parallel
    qrotd(Q, x, y); FOR(j, 3) s.nearAbs(y[j], b[j], tol, "rotated first direction", j);
    double da = q[0] * (double)a[0] + q[1] * (double)a[1] + q[2] * (double)a[2]; s.nearAbs(da, 0, 3e-6 + 8e-7 / std::max(sn, 1e-3), "twist about the first direction"); s.check(q[3] >= -1e-6, "real part is %.9g", q[3]); });
  for (int p = 0; p < 2; p++) {
    const char *f = p ? "quat_forp" : "quat_for";
    regm(f, {f}, [=](S &s) {
      FV d = s.unitv(3), up = s.unitv(3), from(3), to(3); double mul = 1;
      if (p) { s.newRegime(8); FOR(j, 3) from[j] = s.sc(); float l = s.logu(-4, 8); FOR(j, 3) to[j] = from[j] + d[j] * l; } else { float l = s.bit() ? 1 : s.logu(-10, 10); FOR(j, 3) d[j] *= l; }
      double dd[3], L = 0, mag = 0; FOR(j, 3) { dd[j] = p ? (double)to[j] - from[j] : (double)d[j]; L += dd[j] * dd[j]; mag = std::max(mag, (double)std::fabs(to[j])); } L = std::sqrt(L); if (L < 1e-4) s.skip(); FOR(j, 3) dd[j] /= L;
      float ul = s.bit() ? 1 : s.logu(-6, 6); FOR(j, 3) up[j] *= ul;
      double cr[3], ud = 0; FOR(j, 3) { int k = (j + 1) % 3, l = (j + 2) % 3; cr[j] = ((double)up[k] * dd[l] - (double)up[l] * dd[k]) / ul; ud += up[j] * dd[j] / ul; } double sn = std::sqrt(cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]); if (sn < 0.02) s.skip();
      FV q = p ? s.call(f, {from, to, up}).ov(3) : s.call(f, {d, up}).ov(2); Qd Q = qd(q); double tol = 3e-6 + 1e-6 / sn + (p ? 4 * U * mag / L : 0); (void)mul;
      s.nearAbs(qn(Q), 1, tol, "length"); double z[3] = {0, 0, -1}, y[3] = {0, 1, 0}, o[3]; qrotd(Q, z, o); FOR(j, 3) s.nearAbs(o[j], dd[j], tol, "forward", j);
      qrotd(Q, y, o); FOR(j, 3) s.nearAbs(o[j], (up[j] / ul - ud * dd[j]) / sn, 3 * tol / sn, "up", j); });
  }
}
// ------------------------------------------------------------------ Q05
static void axq(int a, double an, Qd &q) { double s = std::sin(an / 2); q = {a == 0 ? s : 0, a == 1 ? s : 0, a == 2 ? s : 0, std::cos(an / 2)}; }
static Qd qmuld(const Qd &p, const Qd &q) { return {p.w * q.x + p.x * q.w + p.y * q.z - p.z * q.y, p.w * q.y - p.x * q.z + p.y * q.w + p.z * q.x, p.w * q.z + p.x * q.y - p.y * q.x + p.z * q.w, p.w * q.w - p.x * q.x - p.y * q.y - p.z * q.z}; }
PROP(Q05) {
  static const char *ord[6] = {"xyz", "xzy", "yxz", "yzx", "zxy", "zyx"};
  auto ga = [](S &s, C &c, int i) { FOR(j, 3) c.in[i][j].f = s.angle(); if (!s.below(4)) { int a = s.below(3); float x = (s.bit() ? 1 : -1) * 1.5707964f; if (s.bit()) x += s.unit() * ldexpf(1, -8 - s.below(16)); c.in[i][a].f = x; } };
  auto ref = [](C &c, const char *o, int dst) { E m[16], t[16], r[16]; identE(m, 4); FOR(k, 3) { int a = o[k] - 'x'; elemRot(a, c(0, a), r, 4); mm(m, r, t, 4); FOR(i, 16) m[i] = t[i]; } FOR(i, 16) c.o(dst, i, i % 4 < 3 && i < 12 ? m[i].abs_(1e-7) : m[i]); };
  FOR(k, 6) {
    const char *o = ord[k];
    reg(std::string("euler_") + o, [=](S &s, C &c) { ga(s, c, 0); }, [=](C &c) { ref(c, o, 1); });
    if (!k) reg("euler", [=](S &s, C &c) { ga(s, c, 0); }, [=](C &c) { ref(c, o, 1); });
    for (int rh = 0; rh < 3; rh++) {
      std::string f = std::string("euler_") + o + "_quat" + (rh == 1 ? "_rh" : rh ? "_lh" : "");
      // in left-handed builds the unsuffixed form turns the other way about z
      reg(f, [=](S &s, C &c) { ga(s, c, 0); }, [=](C &c) { bool lh = rh == 2 || (!rh && c.s->sub->clip >= 2); Qd q = {0, 0, 0, 1}, x; FOR(j, 3) { int a = o[j] - 'x'; axq(a, lh && a == 2 ? -(double)c.f(0, a) : c.f(0, a), x); q = qmuld(q, x); } double r[4] = {q.x, q.y, q.z, q.w}; FOR(j, 4) c.s->nearAbs(c.g(1, j), r[j], 6e-7, "quaternion", j); });
    }
    regm(std::string("matrix and quaternion agree ") + o, {std::string("euler_") + o, std::string("euler_") + o + "_quat_rh", "quat_mat4"}, [=](S &s) { FV a(3); FOR(j, 3) a[j] = s.angle(); FV m = s.call((std::string("euler_") + o).c_str(), {a}).ov(1), n = s.call("quat_mat4", {s.call((std::string("euler_") + o + "_quat_rh").c_str(), {a}).ov(1)}).ov(1); FOR(i, 16) s.nearAbs(m[i], n[i], 3e-6, "element", i); });
  }
  regm("euler_by_order", {"euler_by_order", "euler_order"}, [=](S &s) { const char *o = ord[s.below(6)]; int od[3] = {o[0] - 'x', o[1] - 'x', o[2] - 'x'}; C &e = s.call("euler_order", {od}); s.check(e.r.i == (od[0] | od[1] << 2 | od[2] << 4), "order of %s is %d", o, e.r.i); int code = e.r.i;
    C &c = s.prep("euler_by_order"); ga(s, c, 0); c.seti(1, code); c.run(); ref(c, o, 2); });
  regm("euler_angles", {"euler_angles"}, [=](S &s) { // any rotation matrix, including gimbal lock
    FV m(16); m[15] = 1; double D[9]; if (s.bit()) { FV r = s.rot3(); FOR(j, 9) D[j] = r[j]; } else { double y = (s.bit() ? 1 : -1) * M_PI / 2; if (s.bit()) y += (s.bit() ? 1 : -1) * (double)s.logu(-24, -1); Qd a, b, c; axq(0, s.angle(), a); axq(1, y, b); axq(2, s.angle(), c); qmatd(qmuld(qmuld(a, b), c), D); }
    FOR(k, 3) FOR(r, 3) m[k * 4 + r] = (float)D[k * 3 + r];
    s.newRegime(10); if (s.bit()) FOR(j, 3) m[12 + j] = s.sc();
    FV a = s.call("euler_angles", {m}).ov(1); Qd q = {0, 0, 0, 1}, x; FOR(j, 3) { axq(j, a[j], x); q = qmuld(q, x); } double R[9]; qmatd(q, R); double cy = std::sqrt(D[0] * D[0] + D[3] * D[3]), tol = 2e-6 + 4e-7 / std::max(cy, 4e-4);
    FOR(k, 3) FOR(r, 3) s.nearAbs(R[k * 3 + r], m[k * 4 + r], tol, "rebuilt", k, r); s.check(std::fabs(a[1]) <= 1.5708f && std::fabs(a[0]) <= 3.1416f && std::fabs(a[2]) <= 3.1416f, "angles out of range: %g %g %g", a[0], a[1], a[2]); });
  regm("angles of euler matrix", {"euler_angles", "euler_xyz"}, [](S &s) { FV a{s.uni(-3.1f, 3.1f), s.uni(-1.4f, 1.4f), s.uni(-3.1f, 3.1f)}; FV r = s.call("euler_angles", {s.call("euler_xyz", {a}).ov(1)}).ov(1); FOR(j, 3) s.nearAbs(r[j], a[j], 5e-6, "angle", j); });
}
