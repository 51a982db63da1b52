#include "prop.hpp"
#define FORN for (int j = 0; j < n; j++)
static std::string VN(int n) { return sfmt("vec%d_", n); }
// ------------------------------------------------------------------ V01
PROP(V01) {
  for (int n = 2; n <= 4; n++) {
    std::string V = VN(n);
    auto two = [&](const char *f, E (*op)(E, E)) {
      reg(V + f, DEFX(60), [=](C &c) { FORN c.o(2, j, op(c(0, j), c(1, j))); });
    };
    two("add", [](E a, E b) { return a + b; }); two("sub", [](E a, E b) { return a - b; });
    two("mul", [](E a, E b) { return a * b; }); two("div", [](E a, E b) { return a / b; });
    auto vs = [&](const char *f, E (*op)(E, E)) { reg(V + f, DEFX(60), [=](C &c) { FORN c.o(2, j, op(c(0, j), c(1))); }); };
    vs("adds", [](E a, E b) { return a + b; }); vs("subs", [](E a, E b) { return a - b; });
    vs("scale", [](E a, E b) { return a * b; }); vs("divs", [](E a, E b) { return a / b; });
    auto acc = [&](const char *f, E (*op)(E, E, E)) { reg(V + f, DEFX(50), [=](C &c) { FORN c.o(2, j, op(c(0, j), c(1, j), c(2, j))); }); };
    acc("addadd", [](E a, E b, E d) { return d + (a + b); }); acc("subadd", [](E a, E b, E d) { return d + (a - b); });
    acc("muladd", [](E a, E b, E d) { return d + a * b; }); acc("maxadd", [](E a, E b, E d) { return d + Max(a, b); });
    acc("minadd", [](E a, E b, E d) { return d + Min(a, b); }); acc("subsub", [](E a, E b, E d) { return d - (a - b); });
    acc("addsub", [](E a, E b, E d) { return d - (a + b); }); acc("mulsub", [](E a, E b, E d) { return d - a * b; });
    acc("maxsub", [](E a, E b, E d) { return d - Max(a, b); }); acc("minsub", [](E a, E b, E d) { return d - Min(a, b); });
    reg(V + "muladds", DEFX(50), [=](C &c) { FORN c.o(2, j, c(2, j) + c(0, j) * c(1)); });
    reg(V + "mulsubs", DEFX(50), [=](C &c) { FORN c.o(2, j, c(2, j) - c(0, j) * c(1)); });
    reg(V + "negate_to", DEFX(100), [=](C &c) { FORN c.o(1, j, -c(0, j)); });
    reg(V + "negate", DEFX(100), [=](C &c) { FORN c.o(0, j, -c(0, j)); });
    reg(V + "abs", DEFX(100), [=](C &c) { FORN { c.o(1, j, Abs(c(0, j))); c.s->check(!std::signbit(c.g(1, j)), "abs left a sign bit in lane %d", j); } });
    reg(V + "sqrt", [](S &s, C &c) { s.newRegime(60); s.nonneg = true; s.def(c); }, [=](C &c) { FORN c.o(1, j, Sqrt(c(0, j))); });
    if (n > 2) {
      reg(V + "mulv", DEFX(60), [=](C &c) { FORN c.o(2, j, c(0, j) * c(1, j)); });
      for (auto f : {"flipsign", "inv"}) reg(V + f, DEFX(60), [=](C &c) { FORN c.o(0, j, -c(0, j)); });
      for (auto f : {"flipsign_to", "inv_to"}) reg(V + f, DEFX(60), [=](C &c) { FORN c.o(1, j, -c(0, j)); });
    }
  }
  reg("vec2_complex_mul", DEFX(28), [](C &c) { c.o(2, 0, c(0, 0) * c(1, 0) - c(0, 1) * c(1, 1)); c.o(2, 1, c(0, 0) * c(1, 1) + c(0, 1) * c(1, 0)); });
  reg("vec2_complex_div", DEFX(20), [](C &c) { E d = sq(c(1, 0)) + sq(c(1, 1)); c.o(2, 0, (c(0, 0) * c(1, 0) + c(0, 1) * c(1, 1)) / d); c.o(2, 1, (c(0, 1) * c(1, 0) - c(0, 0) * c(1, 1)) / d); });
  reg("vec2_complex_conjugate", DEFX(60), [](C &c) { c.o(1, 0, c(0, 0)); c.o(1, 1, -c(0, 1)); });
}
// ------------------------------------------------------------------ V02
PROP(V02) {
  for (int n = 2; n <= 4; n++) {
    std::string V = VN(n);
    auto dotf = [=](C &c) { E a[4], b[4]; c.ev(0, a); c.ev(1, b); c.ret(dotE(a, b, n)); };
    reg(V + "dot", DEFX(60), dotf);
    if (n == 3) reg("dot", DEFX(60), dotf);
    reg(V + "norm2", DEFX(60), [=](C &c) { E a[4]; c.ev(0, a); c.ret(dotE(a, a, n)); });
    reg(V + "norm", DEFX(60), [=](C &c) { E a[4]; c.ev(0, a); c.ret(normE(a, n)); });
    if (n > 2) {
      reg(V + "norm_one", DEFX(60), [=](C &c) { E t = Abs(c(0, 0)); for (int j = 1; j < n; j++) t += Abs(c(0, j)); c.ret(t); });
      reg(V + "norm_inf", DEFX(100), [=](C &c) { E t = Abs(c(0, 0)); for (int j = 1; j < n; j++) t = Max(t, Abs(c(0, j))); c.ret(t); });
      reg(V + "hadd", DEFX(60), [=](C &c) { E t = c(0, 0); for (int j = 1; j < n; j++) t += c(0, j); c.ret(t); });
    }
    reg(V + "distance2", DEFX(60), [=](C &c) { E d[4]; FORN d[j] = c(0, j) - c(1, j); c.ret(dotE(d, d, n)); });
    reg(V + "distance", DEFX(60), [=](C &c) { E d[4]; FORN d[j] = c(0, j) - c(1, j); c.ret(normE(d, n)); });
    if (n < 4) reg(V + "center", DEFX(60), [=](C &c) { FORN c.o(2, j, (c(0, j) + c(1, j)) * E(0.5f)); });
  }
  reg("vec2_cross", DEFX(60), [](C &c) { c.ret(c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0)); });
  auto cr = [](C &c) { for (int j = 0; j < 3; j++) { int k = (j + 1) % 3, l = (j + 2) % 3; c.o(2, j, c(0, k) * c(1, l) - c(0, l) * c(1, k)); } };
  for (auto f : {"vec3_cross", "cross"}) {
    reg(f, DEFX(60), cr);
    // the destination may be an operand
    for (int al = 0; al < 2; al++) reg(std::string(f) + (al ? "/dest=b" : "/dest=a"), f, [=](S &s, C &c) { s.newRegime(60); s.def(c); c.alias[2] = al; }, cr);
  }
}
// ------------------------------------------------------------------ V03
// direction*length reference: v * (s / |v|), zero below epsilon
static void unitRef(C &c, int in, int out, int n, int m, E s, bool div = false) {
  E a[4], nn; c.ev(in, a); nn = normE(a, n);
  if (nn.bad) { c.s->skipped++; return; }
  double l = nn.v, t = KTOL * nn.e + 1e-5 * l;
  if (l < FLT_EPSILON - t) { for (int j = 0; j < m; j++) c.o(out, j, E(0.0f)); return; }
  if (l < FLT_EPSILON + t) { c.s->skipped++; return; } // on the threshold: either
  double n2 = 0; for (int j = 0; j < n; j++) n2 += (double)c.f(in, j) * c.f(in, j);
  nn = E(std::sqrt(n2), 3 * U * std::sqrt(n2));
  E k = div ? s : s / nn;
  for (int j = 0; j < m; j++) { E x = c(in, j) * (s / nn); x.e += TINY; c.o(out, j, x); }
  (void)k;
}
static void genLen(S &s, C &c, int i, int n) { // vectors with length over many magnitudes, dense around float epsilon
  s.newRegime(59); s.def(c);
  if (!s.below(3)) return;
  FV d = s.unitv(n); float l;
  switch (s.below(4)) { case 0: l = s.logu(-28, -8); break; case 1: l = s.logu(-59, 59); break; case 2: l = FLT_EPSILON * s.uni(0.5f, 2.0f); break; default: l = s.logu(-3, 3); }
  for (int j = 0; j < n; j++) c.in[i][j].f = d[j] * l;
}
PROP(V03) {
  for (int n = 2; n <= 4; n++) {
    std::string V = VN(n); auto g = [=](S &s, C &c) { genLen(s, c, 0, n); };
    auto ip = [=](C &c) { unitRef(c, 0, 0, n, n, E(1.0f)); };
    auto to = [=](C &c) { unitRef(c, 0, 1, n, n, E(1.0f)); };
    auto al = [=](S &s, C &c) { genLen(s, c, 0, n); c.alias[1] = 0; };
    reg(V + "normalize", g, ip); reg(V + "normalize_to", g, to); reg(V + "normalize_to/dest=v", V + "normalize_to", al, to);
    if (n == 3) { reg("normalize", g, ip); reg("normalize_to", g, to); }
    auto sg = [=](S &s, C &c) { genLen(s, c, 0, n); s.newRegime(20); c.set(1, s.sc()); };
    auto sa = [=](C &c) { unitRef(c, 0, 2, n, n, c(1)); };
    reg(V + "scale_as", sg, sa);
    // laws: unit length and parallel
    regm(V + "normalize/unit", {V + "normalize_to", V + "norm"}, [=](S &s) {
      FV d = s.unitv(n); float l = s.logu(-18, 40); for (int j = 0; j < n; j++) d[j] *= l;
      FV u = s.call((V + "normalize_to").c_str(), {d}).ov(1);
      double q = 0; for (int j = 0; j < n; j++) q += (double)u[j] * u[j];
      s.nearAbs(std::sqrt(q), 1, 1e-6, "length");
    });
  }
  reg("vec3_crossn", [](S &s, C &c) { s.newRegime(25); s.def(c); if (s.below(3)) { FV a = s.unitv(3), b = s.unitv(3); float l = s.logu(-10, 10), m = s.logu(-10, 10); for (int j = 0; j < 3; j++) { c.in[0][j].f = a[j] * l; c.in[1][j].f = b[j] * m; } } },
    [](C &c) {
      E x[3]; for (int j = 0; j < 3; j++) { int k = (j + 1) % 3, l = (j + 2) % 3; x[j] = c(0, k) * c(1, l) - c(0, l) * c(1, k); }
      E nn = normE(x, 3); if (nn.bad) { c.s->skipped++; return; }
      double t = KTOL * nn.e;
      if (nn.v < FLT_EPSILON * 0.999 - t) { for (int j = 0; j < 3; j++) c.o(2, j, E(0.0f)); return; }
      if (nn.v < FLT_EPSILON * 1.001 + t) { c.s->skipped++; return; }
      for (int j = 0; j < 3; j++) c.o(2, j, x[j] / nn);
    });
  reg("plane_normalize", [](S &s, C &c) { genLen(s, c, 0, 3); s.newRegime(25); c.in[0][3].f = s.sc(); },
    [](C &c) { E a[4]; c.ev(0, a); unitRef(c, 0, 0, 3, 3, E(1.0f)); E nn = normE(a, 3); if (nn.bad) return; double t = KTOL * nn.e;
      if (nn.v < FLT_EPSILON * 0.999 - t) c.o(0, 3, E(0.0f)); else if (nn.v > FLT_EPSILON * 1.001 + t) c.o(0, 3, a[3] / nn); });
}
// ------------------------------------------------------------------ V04
static E dot3(const E *a, const E *b) { return dotE(a, b, 3); }
static void rodr(const E *v, E cs, E sn, const E *k, E *o) {
  E d = dot3(k, v), x[3] = {k[1] * v[2] - k[2] * v[1], k[2] * v[0] - k[0] * v[2], k[0] * v[1] - k[1] * v[0]};
  for (int j = 0; j < 3; j++) o[j] = v[j] * cs + x[j] * sn + k[j] * d * (E(1.0f) - cs);
}
PROP(V04) {
  auto gdirs = [](S &s, C &c) { // two vectors with all kinds of relative alignment and lengths
    s.newRegime(12); s.def(c);
    FV a = s.unitv(3), b = s.unitv(3); int k = s.below(7);
    if (k == 1) b = a; if (k == 2) for (int j = 0; j < 3; j++) b[j] = -a[j];
    if (k == 3) { float d = ldexpf(1, -s.below(22)); for (int j = 0; j < 3; j++) b[j] = a[j] + d * s.unit(); }
    if (k == 4) { float d = ldexpf(1, -s.below(22)); for (int j = 0; j < 3; j++) b[j] = -a[j] + d * s.unit(); }
    if (k == 5) return;
    float l = s.logu(-6, 6), m = s.logu(-6, 6);
    for (int j = 0; j < 3; j++) { c.in[0][j].f = a[j] * l; c.in[1][j].f = b[j] * m; }
  };
  reg("vec3_angle", gdirs, [](C &c) {
    double a[3], b[3], na = 0, nb = 0, x = 0, d = 0;
    for (int j = 0; j < 3; j++) { a[j] = c.f(0, j); b[j] = c.f(1, j); na += a[j] * a[j]; nb += b[j] * b[j]; d += a[j] * b[j]; }
    if (na < 1e-16 || nb < 1e-16) return;
    for (int j = 0; j < 3; j++) { int k = (j + 1) % 3, l = (j + 2) % 3; double t = a[k] * b[l] - a[l] * b[k]; x += t * t; }
    double ang = std::atan2(std::sqrt(x), d), tol = 1e-6 / std::max(std::sin(ang), 7e-4) + 1e-6;
    c.s->check(c.r.f >= 0 && c.r.f <= 3.1415930f, "angle %.9g outside [0,pi]", c.r.f);
    c.s->nearAbs(c.r.f, ang, tol, "angle");
  });
  reg("vec3_proj", [=](S &s, C &c) { gdirs(s, c); }, [](C &c) {
    E a[3], b[3]; c.ev(0, a); c.ev(1, b); E q = dot3(b, b); if (q.v < 1e-9) return; E k = dot3(a, b) / q; for (int j = 0; j < 3; j++) c.o(2, j, b[j] * k); });
  reg("vec3_rotate", [](S &s, C &c) { s.newRegime(10); s.def(c); c.set(1, s.angle()); FV a = s.unitv(3); float l = s.bit() ? 1 : s.logu(-8, 8); for (int j = 0; j < 3; j++) c.in[2][j].f = a[j] * l; }, [](C &c) {
    E v[3], k[3], o[3]; c.ev(0, v); c.ev(2, k); E l = normE(k, 3); if (l.v < 1e-5) return; for (int j = 0; j < 3; j++) k[j] = k[j] / l;
    E an = c(1); rodr(v, Cos(an), Sin(an), k, o); double big = std::fabs(c.f(0, 0)) + std::fabs(c.f(0, 1)) + std::fabs(c.f(0, 2));
    for (int j = 0; j < 3; j++) c.o(0, j, o[j].abs_(2 * U * big)); });
  reg("vec2_rotate", [](S &s, C &c) { s.newRegime(20); s.def(c); c.set(1, s.angle()); }, [](C &c) {
    E cs = Cos(c(1)), sn = Sin(c(1)); c.o(2, 0, cs * c(0, 0) - sn * c(0, 1)); c.o(2, 1, sn * c(0, 0) + cs * c(0, 1)); });
  for (int N = 3; N <= 4; N++) {
    // rotation by the rotation part: columns are normalized, so uniform and non-uniform scale is ignored
    reg(N == 3 ? "vec3_rotate_m3" : "vec3_rotate_m4", [N](S &s, C &c) {
      FV r = s.rot3(); float sc[3]; int k = s.below(3); for (int j = 0; j < 3; j++) sc[j] = k == 0 ? 1 : (k == 1 && j) ? sc[0] : s.logu(-5, 5);
      s.newRegime(10); s.def(c); for (int i = 0; i < 3; i++) { if (N == 4) c.in[0][i * 4 + 3].f = 0; for (int j = 0; j < 3; j++) c.in[0][i * N + j].f = r[i * 3 + j] * sc[i]; } },
      [N](C &c) {
        E o[3]; for (int i = 0; i < 3; i++) { E q[3]; for (int j = 0; j < 3; j++) q[j] = c(0, i * N + j); E l = normE(q, 3); if (l.v < 1e-6) return; for (int j = 0; j < 3; j++) o[j] += q[j] / l * c(1, i); }
        for (int j = 0; j < 3; j++) c.o(2, j, o[j]); });
  }
  for (int n = 2; n <= 4; n++) {
    std::string V = VN(n);
    auto gr = [=](S &s, C &c) { s.newRegime(8); s.def(c); FV nn = s.unitv(n); if (n == 4) { FV q = s.unitv(3); for (int j = 0; j < 3; j++) nn[j] = q[j]; nn[3] = 0; } c.set(1, nn); };
    reg(V + "reflect", gr, [=](C &c) { E v[4], m[4]; c.ev(0, v); c.ev(1, m); E d = dotE(v, m, n) * E(2.0f); FORN c.o(2, j, v[j] - m[j] * d); });
    reg(V + "refract", [=](S &s, C &c) { gr(s, c); FV v = s.unitv(n); FV m = c.fv(1);
        if (!s.below(4)) { float d = ldexpf(1, -s.below(12)); FORN v[j] = (s.test ? -m[j] : 0) + d * s.unit(); double l = 0; FORN l += (double)v[j] * v[j]; l = std::sqrt(l); if (l > 1e-6) { FORN v[j] = (float)(v[j] / l); } else v = s.unitv(n); }
        c.set(0, v); float eta; switch (s.below(4)) { case 0: eta = s.uni(0.3f, 3.0f); break; case 1: { static const float e[] = {1.0f, 0.75f, 1.33333f, 1.5f, 0.66667f, 0.5f, 2.0f}; eta = e[s.below(7)]; break; } case 2: eta = s.logu(-6, 6); break; default: { double d = 0; FORN d += (double)v[j] * m[j]; double sn = std::sqrt(std::max(1e-6, 1 - d * d)); eta = (float)(1 / sn) * (1 + (s.bit() ? 1 : -1) * ldexpf(1, -4 - s.below(14))); } }
        c.set(2, eta); },
      [=](C &c) {
        E v[4], m[4]; c.ev(0, v); c.ev(1, m); E d = dotE(m, v, n), eta = c(2), k = E(1.0f) - eta * eta + (eta * d) * (eta * d);
        Tri tot = lt(k, E(0.0f)); if (tot == UNK) { c.s->skipped++; return; }
        c.retb(tnot(tot)); if (tot == YES) { FORN c.o(3, j, E(0.0f)); return; }
        E q = eta * d + Sqrt(k); FORN c.o(3, j, eta * v[j] - m[j] * q); });
    // Snell's law on the result: unit length, tangential component scaled by eta
    regm(V + "refract/snell", {V + "refract"}, [=](S &s) {
      FV m = s.unitv(n), v = s.unitv(n); float eta = s.uni(0.4f, 1.6f); double d = 0; FORN d += (double)v[j] * m[j]; if (d > 0) { FORN m[j] = -m[j]; d = -d; }
      C &c = s.call((V + "refract").c_str(), {v, m, eta}); double k = 1 - (double)eta * eta * (1 - d * d); if (std::fabs(k) < 1e-4) s.skip();
      s.check((c.r.i != 0) == (k > 0), "refract returned %d for k=%g", c.r.i, k); if (k < 0) return;
      FV t = c.ov(3); double l = 0, td = 0; FORN { l += (double)t[j] * t[j]; td += (double)t[j] * m[j]; }
      s.nearAbs(std::sqrt(l), 1, 2e-5, "refracted length"); s.check(td < 1e-5, "refracted ray does not cross the surface (t.n = %g)", td);
      FORN s.nearAbs(t[j] - td * m[j], eta * (v[j] - d * m[j]), 2e-5, "tangential component", j);
    });
  }
  reg("vec3_faceforward", [](S &s, C &c) { s.newRegime(20); s.def(c); }, [](C &c) {
    E v[3], r[3]; c.ev(1, v); c.ev(2, r); Tri neg = lt(dot3(v, r), E(0.0f)); if (neg == UNK) { c.s->skipped++; return; }
    for (int j = 0; j < 3; j++) c.o(3, j, neg == YES ? c(0, j) : -c(0, j)); });
  reg("vec3_ortho", [](S &s, C &c) { s.newRegime(16); s.def(c); }, [](C &c) {
    double v[3], o[3], d = 0, lv = 0, lo = 0; for (int j = 0; j < 3; j++) { v[j] = c.f(0, j); o[j] = c.g(1, j); d += v[j] * o[j]; lv += v[j] * v[j]; lo += o[j] * o[j]; }
    if (lv == 0) return;
    c.s->check(lo > 0 && std::isfinite(lo), "orthogonal vector is zero or not finite");
    c.s->check(std::fabs(d) <= 1e-5 * std::sqrt(lv * lo), "result is not perpendicular (dot %g of lengths %g %g)", d, std::sqrt(lv), std::sqrt(lo));
  });
}
// ------------------------------------------------------------------ V05
static const double GEPS = 1e-5f;
static float oddf(S &s) {
  switch (s.below(12)) { case 0: return 0; case 1: return -0.0f; case 2: return INFINITY; case 3: return -INFINITY; case 4: return NAN; case 5: return -NAN; case 6: return FLT_MAX; case 7: return -FLT_MAX;
    case 8: return FLT_MIN; case 9: return 1.4e-45f; case 10: { Cell c; c.u = s.t.u(0); return c.f; } default: return s.unit(); }
}
static Tri epsEq(float a, float b) {
  if (!(std::isfinite(a) && std::isfinite(b))) { if (std::isnan(a) || std::isnan(b)) return NO; return a == b ? UNK : NO; }
  double d = std::fabs((double)a - b); if ((double)(float)d == d) return tri(d <= (double)(float)GEPS); double r = U * d + 1e-12; return d <= GEPS - r ? YES : d > GEPS + r ? NO : UNK;
}
PROP(V05) {
  for (int n = 2; n <= 4; n++) {
    std::string V = VN(n);
    // vector equal to a value except in a few random lanes
    auto gv = [=](S &s, C &c) {
      s.newRegime(100); int k = s.below(4); float base = k == 0 ? s.sc() : k == 1 ? s.unit() : k == 2 ? (float)(s.below(5) - 2) : oddf(s);
      for (int j = 0; j < n; j++) { float x = base; switch (s.below(8)) { case 4: x = s.sc(); break; case 5: x = oddf(s); break; case 6: x = nextafterf(base, s.bit() ? 1e30f : -1e30f); break; case 7: x = base + (s.bit() ? 1 : -1) * (float)GEPS * (s.bit() ? 1.0f : s.uni(0, 2)); break; default: break; } c.in[0][j].f = x; }
      if (c.fn->nargs > 1) { if (c.fn->args[1].kind == 'F') c.in[1][0].f = base; else for (int j = 0; j < n; j++) { float x = c.in[0][j].f; switch (s.below(9)) { case 5: x = s.sc(); break; case 6: x = oddf(s); break; case 7: x = nextafterf(x, s.bit() ? 1e30f : -1e30f); break; case 8: if (s.bit()) c.in[0][j].f = x = 0; x = x + (s.bit() ? 1 : -1) * (float)GEPS * (s.bit() ? 1.0f : s.uni(0, 2)); break; default: break; } c.in[1][j].f = x; } }
    };
    reg(V + "eq", gv, [=](C &c) { bool t = true; FORN t = t && c.f(0, j) == c.f(1); c.retb(tri(t)); });
    reg(V + "eqv", gv, [=](C &c) { bool t = true; FORN t = t && c.f(0, j) == c.f(1, j); c.retb(tri(t)); });
    reg(V + "eq_eps", gv, [=](C &c) { Tri t = YES; FORN t = t && epsEq(c.f(0, j), c.f(1)); c.retb(t); });
    reg(V + "eqv_eps", gv, [=](C &c) { Tri t = YES; FORN t = t && epsEq(c.f(0, j), c.f(1, j)); c.retb(t); });
    // "all components are the same": the implementation may use an epsilon, so differences inside it are left open
    reg(V + "eq_all", gv, [=](C &c) { Tri t = YES; for (int j = 0; j < n; j++) for (int k = 0; k < j; k++) { float a = c.f(0, j), b = c.f(0, k); Tri e; if (std::isinf(a) || std::isinf(b)) e = a == b ? UNK : NO; else if (a == b) e = YES; else e = std::fabs((double)a - b) <= 2.1e-5 ? UNK : NO; t = t && e; } c.retb(t); });
    reg(V + "isnan", gv, [=](C &c) { if (c.s->sub->cfg == "fastdef") FORN if (!std::isfinite(c.f(0, j))) { c.s->skipped++; return; } bool t = false; FORN t = t || std::isnan(c.f(0, j)); c.retb(tri(t)); });
    reg(V + "isinf", gv, [=](C &c) { if (c.s->sub->cfg == "fastdef") FORN if (!std::isfinite(c.f(0, j))) { c.s->skipped++; return; } bool t = false; FORN t = t || std::isinf(c.f(0, j)); c.retb(tri(t)); });
    reg(V + "isvalid", gv, [=](C &c) { if (c.s->sub->cfg == "fastdef") FORN if (!std::isfinite(c.f(0, j))) { c.s->skipped++; return; } bool t = true; FORN t = t && std::isfinite(c.f(0, j)); c.retb(tri(t)); });
    auto gm = [=](S &s, C &c) { s.newRegime(100); s.def(c); if (!s.below(6)) c.in[0][s.below(n)].f = s.bit() ? INFINITY : -INFINITY; if (!s.below(6)) c.in[0][s.below(n)].f = s.bit() ? FLT_MAX : -FLT_MAX; };
    auto ext = [=](bool mx) { return [=](C &c) { float m = c.f(0, 0); FORN if (mx ? c.f(0, j) > m : c.f(0, j) < m) m = c.f(0, j); c.s->check(c.r.f == m, "returned %.9g, expected %.9g", c.r.f, m); }; };
    reg(V + "max", gm, ext(true)); reg(V + "min", gm, ext(false));
  }
  reg("eq", [](S &s, C &c) { s.newRegime(60); s.def(c); if (!s.below(4)) c.set(0, 0.0f); if (s.bit()) c.set(1, c.f(0) + (s.bit() ? 1 : -1) * (float)GEPS * (s.bit() ? 1.0f : s.uni(0, 2))); }, [](C &c) { c.retb(epsEq(c.f(0), c.f(1))); });
}
// ------------------------------------------------------------------ V06
static void thresholds(S &s, C &c, int a, int b, int n) { // make lanes of b coincide with / neighbour lanes of a
  for (int j = 0; j < n; j++) { float e = c.in[a][c.fn->args[a].len == 1 ? 0 : j].f; float &x = c.in[b][c.fn->args[b].len == 1 ? 0 : j].f; switch (s.below(6)) { case 3: x = e; break; case 4: x = nextafterf(e, 1e30f); break; case 5: x = nextafterf(e, -1e30f); break; default: break; } }
}
PROP(V06) {
  for (int n = 2; n <= 4; n++) {
    std::string V = VN(n);
    auto gmm = [=](S &s, C &c) { s.newRegime(100); s.def(c); thresholds(s, c, 0, 1, n); };
    auto mm = [=](bool mx) { return [=](C &c) { FORN { float a = c.f(0, j), b = c.f(1, j), e = mx ? (a > b ? a : b) : (a < b ? a : b); c.s->check(c.g(2, j) == e, "lane %d = %.9g, expected %.9g", j, c.g(2, j), e); } }; };
    reg(V + "maxv", gmm, mm(true)); reg(V + "minv", gmm, mm(false));
    reg(V + "clamp", [=](S &s, C &c) { s.newRegime(60); s.def(c); if (c.f(1) > c.f(2)) std::swap(c.in[1][0], c.in[2][0]); for (int j = 0; j < n; j++) { switch (s.below(6)) { case 3: c.in[0][j].f = c.f(1); break; case 4: c.in[0][j].f = c.f(2); break; case 5: c.in[0][j].f = c.f(1) + (c.f(2) - c.f(1)) * s.uni(-1, 2); break; default: break; } } },
      [=](C &c) { FORN { float x = c.f(0, j), e = x < c.f(1) ? c.f(1) : x > c.f(2) ? c.f(2) : x; c.s->check(c.g(0, j) == e, "lane %d = %.9g, expected %.9g", j, c.g(0, j), e); } });
    reg(V + "sign", [=](S &s, C &c) { s.newRegime(100); s.def(c); for (int j = 0; j < n; j++) if (!s.below(6)) c.in[0][j].f = s.bit() ? 0.0f : -0.0f; }, [=](C &c) { FORN c.o(1, j, E(c.f(0, j) > 0 ? 1.0f : c.f(0, j) < 0 ? -1.0f : 0.0f)); });
    auto gfl = [=](S &s, C &c) { s.newRegime(20); s.def(c); FORN switch (s.below(6)) { case 3: c.in[0][j].f = (float)(s.below(41) - 20); break; case 4: c.in[0][j].f = nextafterf((float)(s.below(41) - 20), s.bit() ? 1e30f : -1e30f); break; case 5: c.in[0][j].f = (s.bit() ? -1 : 1) * s.logu(-20, 30); break; default: break; } };
    reg(V + "floor", gfl, [=](C &c) { FORN c.o(1, j, E((float)std::floor((double)c.f(0, j)))); });
    reg(V + "fract", gfl, [=](C &c) { FORN { double x = c.f(0, j); float f = c.g(1, j); c.s->check(f >= 0 && f < 1, "fract(%.9g) = %.9g is outside [0,1)", x, f); c.s->nearAbs(f, x - std::floor(x), 1.2e-7, "fract", j); } });
    reg(V + "mods", [=](S &s, C &c) { gfl(s, c); switch (s.below(4)) { case 0: c.set(1, (float)(1 + s.below(9))); break; case 1: c.set(1, s.logu(-4, 8)); break; case 2: c.set(1, 289.0f); break; default: c.set(1, s.nz()); } }, [=](C &c) { if (c.f(1) == 0) return; FORN c.o(2, j, E((float)std::fmod((double)c.f(0, j), (double)c.f(1)))); });
    auto st = [=](int e, int x, int d) { return [=](C &c) { FORN { float ed = c.f(e, c.len(e) == 1 ? 0 : j), xx = c.f(x, c.len(x) == 1 ? 0 : j), r = xx < ed ? 0.0f : 1.0f; c.s->check(c.g(d, j) == r, "lane %d: step(%.9g, %.9g) = %.9g", j, ed, xx, c.g(d, j)); } }; };
    auto gst = [=](S &s, C &c) { s.newRegime(60); s.def(c); thresholds(s, c, 0, 1, n); };
    reg(V + "step", gst, st(0, 1, 2)); reg(V + "steps", gst, st(0, 1, 2)); reg(V + "stepr", gst, st(0, 1, 2));
    if (n > 2) reg(V + "step_uni", gst, st(0, 1, 2));
    if (n > 2) {
      auto gss = [=](S &s, C &c) { s.newRegime(12); s.def(c); int ne = c.len(0); for (int j = 0; j < ne; j++) if (c.in[0][j].f > c.in[1][j].f && s.below(4)) std::swap(c.in[0][j], c.in[1][j]);
        FORN { float a = c.in[0][ne == 1 ? 0 : j].f, b = c.in[1][ne == 1 ? 0 : j].f; switch (s.below(6)) { case 2: case 3: c.in[2][j].f = a + (b - a) * s.uni(-0.5f, 1.5f); break; case 4: c.in[2][j].f = a; break; case 5: c.in[2][j].f = b; break; default: break; } } };
      auto ss = [=](C &c) { FORN { int k = c.len(0) == 1 ? 0 : j; E d = c(1, k) - c(0, k); if (d.v == 0) { c.s->skipped++; continue; } E t = (c(2, j) - c(0, k)) / d; t = Max(E(0.0f), Min(E(1.0f), t)); c.o(3, j, t * t * (E(3.0f) - E(2.0f) * t)); } };
      reg(V + "smoothstep", gss, ss); reg(V + "smoothstep_uni", gss, ss);
      reg(V + "broadcast", DEFX(100), [=](C &c) { FORN c.o(1, j, c(0)); });
    }
    reg(V + "swizzle", [=](S &s, C &c) { s.newRegime(60); s.def(c); int m = 0; FORN m |= s.below(n) << (2 * j); c.seti(1, m); }, [=](C &c) { FORN c.o(2, j, c(0, (c.I(1) >> (2 * j)) & 3)); });
    reg(V + "fill", DEFX(100), [=](C &c) { FORN c.o(0, j, c(1)); });
    reg(V + "copy", DEFX(100), [=](C &c) { FORN c.o(1, j, c(0, j)); });
    reg(V + "zero", DEF, [=](C &c) { FORN c.o(0, j, E(0.0f)); });
    reg(V + "one", DEF, [=](C &c) { FORN c.o(0, j, E(1.0f)); });
    reg(V + "make", DEFX(100), [=](C &c) { FORN c.o(1, j, c(0, j)); });
    if (n > 2) reg(V + "dup", DEFX(100), [=](C &c) { FORN c.o(1, j, c(0, j)); });
  }
  auto cp = [](int n) { return [n](C &c) { FORN c.o(1, j, c(0, j)); }; };
  reg("vec2", DEFX(100), cp(2)); reg("vec3", DEFX(100), cp(3)); reg("vec4_copy3", DEFX(100), cp(3)); reg("vec4_dup3", DEFX(100), cp(3)); reg("vec4_ucopy", DEFX(100), cp(4));
  reg("vec4", DEFX(100), [](C &c) { for (int j = 0; j < 3; j++) c.o(2, j, c(0, j)); c.o(2, 3, c(1)); });
}
// ------------------------------------------------------------------ V07
static E clz(E t) { return Max(E(0.0f), Min(E(1.0f), t)); }
static E lerpE(E a, E b, E t) { return a + t * (b - a); }
static E smoothE(E t) { return t * t * (E(3.0f) - E(2.0f) * t); }
static float genT(S &s) { switch (s.below(9)) { case 0: return 0; case 1: return 1; case 2: return s.uni(0, 1); case 3: return s.uni(-1, 2); case 4: return s.below(9) / 8.0f; case 5: return (s.bit() ? 1.0f : 0.0f) + (s.bit() ? 1 : -1) * ldexpf(1, -s.below(24)); case 6: return s.unit() * 10; case 7: return (float)s.below(9) - 4; default: return (s.bit() ? -1 : 1) * s.logu(3, 14); } }
PROP(V07) {
  auto gl = [](S &s, C &c) { s.newRegime(16); s.def(c); c.set(2, genT(s)); };
  for (int n = 3; n <= 4; n++) {
    std::string V = VN(n);
    for (auto f : {"lerp", "mix"}) reg(V + f, gl, [=](C &c) { FORN c.o(3, j, lerpE(c(0, j), c(1, j), c(2))); });
    auto bet = [=](C &c, int j) { float lo = std::min(c.f(0, j), c.f(1, j)), hi = std::max(c.f(0, j), c.f(1, j)); double t = 4 * U * (std::fabs((double)lo) + std::fabs((double)hi)); c.s->check(c.g(3, j) >= lo - t && c.g(3, j) <= hi + t, "lane %d = %.9g leaves [%.9g, %.9g]", j, c.g(3, j), lo, hi); };
    for (auto f : {"lerpc", "mixc"}) reg(V + f, gl, [=](C &c) { FORN { c.o(3, j, lerpE(c(0, j), c(1, j), clz(c(2)))); bet(c, j); } });
    reg(V + "smoothinterp", gl, [=](C &c) { FORN c.o(3, j, lerpE(c(0, j), c(1, j), smoothE(c(2)))); });
    reg(V + "smoothinterpc", gl, [=](C &c) { FORN { c.o(3, j, lerpE(c(0, j), c(1, j), smoothE(clz(c(2))))); bet(c, j); } });
  }
  // the 2-component lerp clamps t in this code base; only t in [0,1] is common to all readings
  reg("vec2_lerp", [](S &s, C &c) { s.newRegime(16); s.def(c); float t = genT(s); c.set(2, t < 0 ? 0 : t > 1 ? 1 : t); }, [](C &c) { for (int j = 0; j < 2; j++) c.o(3, j, lerpE(c(0, j), c(1, j), c(2))); });
  reg("lerp", gl, [](C &c) { c.ret(lerpE(c(0), c(1), c(2))); });
  reg("lerpc", gl, [](C &c) { c.ret(lerpE(c(0), c(1), clz(c(2)))); });
  reg("smoothinterp", gl, [](C &c) { c.ret(lerpE(c(0), c(1), smoothE(c(2)))); });
  reg("smoothinterpc", gl, [](C &c) { c.ret(lerpE(c(0), c(1), smoothE(clz(c(2))))); });
  reg("smooth", [](S &s, C &c) { c.set(0, genT(s)); }, [](C &c) { c.ret(smoothE(c(0))); });
  reg("smoothstep", [](S &s, C &c) { s.newRegime(12); s.def(c); if (c.f(0) > c.f(1) && s.below(4)) std::swap(c.in[0][0], c.in[1][0]); switch (s.below(5)) { case 1: c.set(2, c.f(0)); break; case 2: c.set(2, c.f(1)); break; case 3: case 4: c.set(2, c.f(0) + (c.f(1) - c.f(0)) * genT(s)); break; default: break; } },
    [](C &c) { if (c.f(0) == c.f(1)) return; E t = clz((c(2) - c(0)) / (c(1) - c(0))); c.ret(smoothE(t)); });
  auto gp = [](S &s, C &c) { s.newRegime(14); s.def(c); switch (s.below(5)) { case 1: c.set(2, c.f(0)); break; case 2: c.set(2, c.f(1)); break; case 3: case 4: c.set(2, c.f(0) + (c.f(1) - c.f(0)) * genT(s)); break; default: break; } if (!s.below(10)) c.set(1, c.f(0)); };
  reg("percent", gp, [](C &c) { if (c.f(0) == c.f(1)) { c.ret(E(1.0f)); return; } c.ret((c(2) - c(0)) / (c(1) - c(0))); });
  reg("percentc", gp, [](C &c) { if (c.f(0) == c.f(1)) { c.ret(E(1.0f)); return; } c.ret(clz((c(2) - c(0)) / (c(1) - c(0)))); });
  regm("percent inverts lerp", {"percent", "lerp"}, [](S &s) { s.newRegime(8); float a = s.sc(), b = s.sc(), t = s.uni(0, 1); if (std::fabs(a - b) < 1e-2 * (std::fabs(a) + std::fabs(b)) || a == b) s.skip(); float l = s.call("lerp", {a, b, t}).r.f; float p = s.call("percent", {a, b, l}).r.f; s.nearAbs(p, t, 1e-4, "percent"); });
  reg("rad", DEFX(60), [](C &c) { c.ret(c(0) * E(M_PI) / E(180.0f)); }); reg("deg", DEFX(60), [](C &c) { c.ret(c(0) * E(180.0f) / E(M_PI)); });
  reg("make_rad", DEFX(60), [](C &c) { c.o(0, 0, c(0) * E(M_PI) / E(180.0f)); }); reg("make_deg", DEFX(60), [](C &c) { c.o(0, 0, c(0) * E(180.0f) / E(M_PI)); });
  regm("deg(rad(x))=x", {"deg", "rad"}, [](S &s) { s.newRegime(40); float x = s.sc(); float y = s.call("deg", {s.call("rad", {x}).r.f}).r.f; s.nearAbs(y, x, 1e-6 * std::fabs(x), "deg"); });
  reg("pow2", DEFX(60), [](C &c) { c.ret(c(0) * c(0)); });
  reg("min", DEFX(100), [](C &c) { float m = c.f(0) < c.f(1) ? c.f(0) : c.f(1); c.s->check(c.r.f == m, "returned %.9g", c.r.f); });
  reg("max", DEFX(100), [](C &c) { float m = c.f(0) > c.f(1) ? c.f(0) : c.f(1); c.s->check(c.r.f == m, "returned %.9g", c.r.f); });
  reg("imin", DEF, [](C &c) { c.reti(std::min(c.I(0), c.I(1))); }); reg("imax", DEF, [](C &c) { c.reti(std::max(c.I(0), c.I(1))); });
  reg("clamp", [](S &s, C &c) { s.newRegime(60); s.def(c); if (c.f(1) > c.f(2)) std::swap(c.in[1][0], c.in[2][0]); if (!s.below(4)) c.set(0, c.f(1)); else if (!s.below(4)) c.set(0, c.f(2)); else if (s.bit()) c.set(0, c.f(1) + (c.f(2) - c.f(1)) * s.uni(0, 1)); }, [](C &c) { float x = c.f(0), e = x < c.f(1) ? c.f(1) : x > c.f(2) ? c.f(2) : x; c.s->check(c.r.f == e, "clamp = %.9g, expected %.9g", c.r.f, e); });
  reg("clamp_zo", [](S &s, C &c) { s.newRegime(60); s.def(c); if (s.bit()) c.set(0, genT(s)); }, [](C &c) { float x = c.f(0), e = x < 0 ? 0 : x > 1 ? 1 : x; c.s->check(c.r.f == e, "clamp_zo = %.9g, expected %.9g", c.r.f, e); });
  reg("step", [](S &s, C &c) { s.newRegime(60); s.def(c); thresholds(s, c, 0, 1, 1); }, [](C &c) { float e = c.f(1) < c.f(0) ? 0.0f : 1.0f; c.s->check(c.r.f == e, "step = %.9g", c.r.f); });
  reg("sign", DEF, [](C &c) { c.reti(c.I(0) > 0 ? 1 : c.I(0) < 0 ? -1 : 0); });
  reg("signf", [](S &s, C &c) { s.newRegime(100); s.def(c); if (!s.below(6)) c.set(0, -0.0f); }, [](C &c) { c.ret(E(c.f(0) > 0 ? 1.0f : c.f(0) < 0 ? -1.0f : 0.0f)); });
  reg("swapf", DEFX(100), [](C &c) { c.o(0, 0, c(1)); c.o(1, 0, c(0)); });
  reg("vec4_cubic", [](S &s, C &c) { c.set(0, s.bit() ? genT(s) : s.unit() * 20); }, [](C &c) { E x = c(0); c.o(1, 0, x * x * x); c.o(1, 1, x * x); c.o(1, 2, x); c.o(1, 3, E(1.0f)); });
}
// ------------------------------------------------------------------ V08
typedef long long ll;
static bool fits(ll x) { return x >= INT_MIN && x <= INT_MAX; }
static void intGen(S &s, C &c, int style) { // style: value range so that products/sums usually fit
  for (int i = 0; i < c.fn->nargs; i++) { const vf_arg &a = c.fn->args[i]; if (a.role == 'o') continue; for (int j = 0; j < a.len; j++) {
    int v = s.ival(); if (style == 0) v = v; else if (style == 1) { if (v > 1000000000 || v < -1000000000) v %= 1000000000; } else if (style == 2) { if (v > 20000 || v < -20000) v %= 20001; }
    c.in[i][j].i = v; }
    if (i && !s.below(4) && a.role != 'o' && c.fn->args[0].len == a.len) for (int j = 0; j < a.len; j++) if (s.below(3)) c.in[i][j].i = c.in[0][j].i; }
}
PROP(V08) {
  for (int n = 2; n <= 4; n++) {
    std::string V = sfmt("ivec%d_", n);
    auto R = [=](const char *f, std::function<ll(ll, ll, ll)> op, int style, std::function<bool(ll, ll, ll)> dom = nullptr) {
      reg(V + f, [=](S &s, C &c) { s.regime = s.below(3); int st = s.below(3); intGen(s, c, std::max(st, style));
          // make every lane in-domain (no overflow, no division by zero) by simplifying the lane
          int d = c.fn->nargs - 1; bool acc = c.fn->args[d].role == 'b'; bool sc = c.fn->nargs > 2 && c.fn->args[1].len == 1;
          if (style == 2 && !s.below(3)) { // one large factor
            bool big1 = !sc && s.bit(); int q = (int)s.t.u(201) - 100; if (sc) c.in[1][0].i = q; FORN { if (!sc) q = (int)s.t.u(201) - 100; int l = s.ival(); int m = INT_MAX / std::max(1, std::abs(q)) - 1; if (l > m || l < -m) l %= m; c.in[big1 ? 1 : 0][j].i = l; if (!sc) c.in[big1 ? 0 : 1][j].i = q; } }
          if (acc && !s.below(3)) FORN c.in[d][j].i = s.ival();
          for (int pass = 0; pass < 2; pass++) FORN { ll a = c.I(0, j), b = c.fn->nargs > 2 ? c.I(1, sc ? 0 : j) : 0, x = acc ? c.I(d, j) : 0;
            if ((dom && !dom(a, b, x)) || !fits(op(a, b, x))) { c.in[0][j].i %= 100; if (!sc) c.in[1][j].i = c.in[1][j].i % 100; else c.in[1][0].i %= 100; if (acc) c.in[d][j].i %= 100; if (dom) { int &q = c.in[1][sc ? 0 : j].i; if (!q) q = 3; } } } },
        [=](C &c) { int d = c.fn->nargs - 1; bool acc = c.fn->args[d].role == 'b'; bool sc = c.fn->nargs > 2 && c.fn->args[1].len == 1;
          FORN { ll a = c.I(0, j), b = c.fn->nargs > 2 ? c.I(1, sc ? 0 : j) : 0, x = acc ? c.I(d, j) : 0; if ((dom && !dom(a, b, x))) continue; ll r = op(a, b, x); if (!fits(r)) continue; c.oi(d, j, r); } });
    };
    R("add", [](ll a, ll b, ll) { return a + b; }, 0); R("sub", [](ll a, ll b, ll) { return a - b; }, 0); R("adds", [](ll a, ll b, ll) { return a + b; }, 0); R("subs", [](ll a, ll b, ll) { return a - b; }, 0);
    R("mul", [](ll a, ll b, ll) { return a * b; }, 2); R("scale", [](ll a, ll b, ll) { return a * b; }, 2);
    if (n < 4) { auto dm = [](ll a, ll b, ll) { return b != 0 && !(a == INT_MIN && b == -1); };
      R("div", [](ll a, ll b, ll) { return b ? a / b : 0; }, 0, dm); R("divs", [](ll a, ll b, ll) { return b ? a / b : 0; }, 0, dm); R("mod", [](ll a, ll b, ll) { return b ? a % b : 0; }, 0, dm); }
    // accumulate forms: intermediate results must fit as well
    auto A = [=](const char *f, std::function<ll(ll, ll)> in, int sg, int style) { R(f, [=](ll a, ll b, ll x) { ll t = in(a, b); return fits(t) ? x + sg * t : (ll)1 << 40; }, style); };
    auto add = [](ll a, ll b) { return a + b; }; auto sub = [](ll a, ll b) { return a - b; }; auto mul = [](ll a, ll b) { return a * b; }; auto mx = [](ll a, ll b) { return std::max(a, b); }; auto mn = [](ll a, ll b) { return std::min(a, b); };
    A("addadd", add, 1, 1); A("subadd", sub, 1, 1); A("muladd", mul, 1, 2); A("maxadd", mx, 1, 1); A("minadd", mn, 1, 1); A("addsub", add, -1, 1); A("subsub", sub, -1, 1); A("mulsub", mul, -1, 2); A("maxsub", mx, -1, 1); A("minsub", mn, -1, 1);
    A("addadds", add, 1, 1); A("subadds", sub, 1, 1); A("muladds", mul, 1, 2); A("addsubs", add, -1, 1); A("subsubs", sub, -1, 1); A("mulsubs", mul, -1, 2);
    auto g0 = [](S &s, C &c) { s.regime = s.below(3); intGen(s, c, s.below(3)); };
    reg(V + "maxv", g0, [=](C &c) { FORN c.oi(2, j, std::max(c.I(0, j), c.I(1, j))); }); reg(V + "minv", g0, [=](C &c) { FORN c.oi(2, j, std::min(c.I(0, j), c.I(1, j))); });
    reg(V + "clamp", [=](S &s, C &c) { g0(s, c); if (c.I(1) > c.I(2)) std::swap(c.in[1][0], c.in[2][0]); FORN if (!s.below(4)) c.in[0][j].i = s.bit() ? c.I(1) : c.I(2); }, [=](C &c) { FORN c.oi(0, j, std::max(c.I(1), std::min(c.I(2), c.I(0, j)))); });
    reg(V + "abs", [=](S &s, C &c) { g0(s, c); FORN if (c.I(0, j) == INT_MIN) c.in[0][j].i = INT_MIN + 1; }, [=](C &c) { FORN if (c.I(0, j) != INT_MIN) c.oi(1, j, std::llabs(c.I(0, j))); });
    reg(V + "copy", g0, [=](C &c) { FORN c.oi(1, j, c.I(0, j)); }); reg(V + "zero", g0, [=](C &c) { FORN c.oi(0, j, 0); }); reg(V + "one", g0, [=](C &c) { FORN c.oi(0, j, 1); });
    auto gs = [=](S &s, C &c) { s.regime = s.below(3); intGen(s, c, 2); if (!s.below(3)) for (int i = 0; i < c.fn->nargs; i++) for (int j = 0; j < c.len(i); j++) c.in[i][j].i = (int)s.t.u(21) - 10;
      // keep every intermediate inside 32 bits: overflow is outside the property
      ll m = 0; for (int i = 0; i < c.fn->nargs; i++) for (int j = 0; j < c.len(i); j++) m = std::max(m, (ll)std::llabs((ll)c.I(i, j)));
      ll lim = (c.fn->nargs == 2 && (strstr(c.fn->name, "distance"))) ? (n == 2 ? 16383 : n == 3 ? 13377 : 11585) : n == 2 ? 32767 : n == 3 ? 26754 : 23170; if (m > lim) for (int i = 0; i < c.fn->nargs; i++) for (int j = 0; j < c.len(i); j++) { int &q = c.in[i][j].i; q = (int)((ll)q % (lim + 1)); }
      // two points close together, far from the origin
      if (strstr(c.fn->name, "distance") && !s.below(4)) for (int j = 0; j < n; j++) { int b = s.ival(), d = (int)((ll)s.ival() % (lim + 1)); if (s.bit()) d = (int)s.t.u(201) - 100; c.in[1][j].i = b; ll a = (ll)b + d; if (!fits(a)) a = (ll)b - d; c.in[0][j].i = (int)a; } };
    // products of a large and a small factor, either way round in each lane
    auto gl = [=](S &s, C &c) { gs(s, c); if (s.below(3)) return; int w = s.below(3); int q = w == 0 ? 1 + (int)s.t.u(100) : 1; if (w == 2) q = 1 << s.below(15); int m = INT_MAX / (n * q);
      for (int j = 0; j < n; j++) { bool sw = s.below(4) == 0; int l = s.ival(); if (l > m || l < -m) l %= m; int k = (int)s.t.u((u32)(2 * q + 1)) - q; c.in[sw ? 1 : 0][j].i = l; c.in[sw ? 0 : 1][j].i = k; }
      // the cross product pairs different lanes: keep the large factors in one vector there
      if (strstr(c.fn->name, "cross")) { int big = s.bit(); for (int j = 0; j < n; j++) { int l = s.ival(); if (l > m || l < -m) l %= m; c.in[big][j].i = l; c.in[!big][j].i = (int)s.t.u((u32)(2 * q + 1)) - q; } } };
    reg(V + "distance2", gs, [=](C &c) { ll t = 0; FORN { ll d = (ll)c.I(0, j) - c.I(1, j); if (d * d > INT_MAX) return; t += d * d; } if (fits(t)) c.reti(t); });
    reg(V + "distance", gs, [=](C &c) { ll t = 0; FORN { ll d = (ll)c.I(0, j) - c.I(1, j); if (d * d > INT_MAX) return; t += d * d; } if (fits(t)) c.ret(Sqrt(E((double)t, U * (double)t))); });
    if (n < 4) {
      reg(V + "dot", gl, [=](C &c) { ll t = 0; FORN { t += (ll)c.I(0, j) * c.I(1, j); if (!fits(t)) return; } c.reti(t); });
      auto ge = [=](S &s, C &c) { g0(s, c); if (s.below(3)) { int v = c.I(1, 0); if (c.len(1) == 1) FORN { if (s.below(4)) c.in[0][j].i = v; } else FORN if (s.below(4)) c.in[0][j].i = c.I(1, j); } };
      reg(V + "eq", ge, [=](C &c) { bool t = true; FORN t = t && c.I(0, j) == c.I(1); c.retb(tri(t)); });
      reg(V + "eqv", ge, [=](C &c) { bool t = true; FORN t = t && c.I(0, j) == c.I(1, j); c.retb(tri(t)); });
      reg(V + "fill", g0, [=](C &c) { FORN c.oi(0, j, c.I(1)); });
    }
    if (n == 3) {
      reg(V + "norm2", gs, [=](C &c) { ll t = 0; FORN t += (ll)c.I(0, j) * c.I(0, j); if (fits(t)) c.reti(t); });
      // the integer norm is the Euclidean norm truncated
      reg(V + "norm", gs, [=](C &c) { ll t = 0; FORN t += (ll)c.I(0, j) * c.I(0, j); if (!fits(t)) return; double q = std::sqrt((double)(float)t); if (std::fabs(q - std::round(q)) < 1e-4 + 3e-7 * q && std::floor(std::sqrt((double)t)) != std::sqrt((double)t)) { c.s->skipped++; return; } c.reti((ll)std::floor(std::sqrt((double)t))); });
    }
    if (n == 2) reg(V + "cross", gl, [=](C &c) { ll p = (ll)c.I(0, 0) * c.I(1, 1), q = (ll)c.I(0, 1) * c.I(1, 0); if (fits(p) && fits(q) && fits(p - q)) c.reti(p - q); });
  }
  auto g0 = [](S &s, C &c) { s.regime = s.below(3); intGen(s, c, s.below(3)); };
  reg("ivec2", g0, [](C &c) { for (int j = 0; j < 2; j++) c.oi(1, j, c.I(0, j)); }); reg("ivec3", g0, [](C &c) { for (int j = 0; j < 3; j++) c.oi(1, j, c.I(0, j)); });
  reg("ivec4", g0, [](C &c) { for (int j = 0; j < 3; j++) c.oi(2, j, c.I(0, j)); c.oi(2, 3, c.I(1)); });
}
