#include "prop.hpp"
#include "ref.hpp"
#define FOR(i, n) for (int i = 0; i < (n); i++)
static const char *SUF[4] = {"_rh_no", "_rh_zo", "_lh_no", "_lh_zo"}; // index = clip: bit0 zero-to-one, bit1 left-handed
static int clipOf(const std::string &suf, int dflt) { FOR(k, 4) if (suf == SUF[k]) return k; return dflt; }
// convention of a call: from the name's suffix, or the build's default
static int clip(S &s, const std::string &suf) { return clipOf(suf, s.sub->clip); }
static const char *SUFD[5] = {"", "_rh_no", "_rh_zo", "_lh_no", "_lh_zo"};
// ------------------------------------------------------------------ C01
static void viewCheck(S &s, const FV &m, const FV &eye, const double *f, const double *up, bool lh, double dirTol, double sn) {
  double tol = 2e-6 + dirTol, R[9]; FOR(k, 3) FOR(r, 3) R[k * 3 + r] = m[k * 4 + r];
  double rt = tol + 1.2e-6 / sn; // the side axis comes from a cross product
  FOR(i, 3) FOR(j, 3) { double d = 0; FOR(k, 3) d += R[k * 3 + i] * R[k * 3 + j]; s.nearAbs(d, i == j, rt, "rows orthonormal", i, j); }
  float Rf[9]; FOR(j, 9) Rf[j] = (float)R[j]; s.nearAbs(detOf(Rf, 3).v, 1, 3 * rt, "determinant");
  FOR(j, 3) s.check(m[j * 4 + 3] == 0, "bottom row element %d is %g", j, m[j * 4 + 3]);
  s.check(m[15] == 1, "m33 is %g", m[15]);
  double mag = 0; FOR(j, 3) mag = std::max(mag, (double)std::fabs(eye[j]));
  FOR(r, 3) { double e = m[12 + r]; FOR(k, 3) e += R[k * 3 + r] * eye[k]; s.nearAbs(e, 0, 1e-6 * mag + 1e-37, "eye goes to the origin", r); }
  double z = 0, x = 0, y = 0; FOR(k, 3) { x += R[k * 3] * f[k]; y += R[k * 3 + 1] * f[k]; z += R[k * 3 + 2] * f[k]; }
  s.nearAbs(x, 0, rt, "view direction x"); s.nearAbs(y, 0, rt, "view direction y"); s.nearAbs(z, lh ? 1 : -1, tol, "view direction z");
  if (up) { double ux = 0, uy = 0, ul = 0; FOR(k, 3) { ux += R[k * 3] * up[k]; uy += R[k * 3 + 1] * up[k]; ul += up[k] * up[k]; } ul = std::sqrt(ul); s.nearAbs(ux / ul, 0, rt + 1e-6, "up x"); s.nearAbs(uy / ul, sn, 2 * rt + 1e-6, "up y"); }
}
PROP(C01) {
  static const char *VS[7] = {"", "_rh_no", "_rh_zo", "_lh_no", "_lh_zo", "_lh", "_rh"};
  for (int kind = 0; kind < 3; kind++) FOR(v, 7) {
    std::string suf = VS[v], fn = std::string(kind == 0 ? "lookat" : kind == 1 ? "look" : "look_anyup") + suf;
    regm(fn, {fn}, [=](S &s) {
      bool lh = v == 5 ? true : v == 6 ? false : clip(s, suf) >= 2;
      FV eye(3), c(3), d = s.unitv(3), up = s.unitv(3); s.newRegime(12); if (s.below(4)) FOR(j, 3) eye[j] = s.sc(); s.far_(eye.v, 3); bool half = !s.below(6); if (half) { FOR(j, 3) d[j] = (s.below(9) - 4) * 0.5f; } float l = half || s.bit() ? 1 : s.logu(-6, s.below(4) ? 12 : 24), ul = s.bit() ? 1 : s.logu(-10, s.below(4) ? 10 : 30);
      if (!s.below(3)) { up = FV(3); up[s.below(3)] = s.bit() ? 1 : -1; }
      if (!s.below(4)) { // up close to the view direction
        float e = s.logu(-6, 0); FV o = s.unitv(3); FOR(j, 3) up[j] = d[j] + e * o[j]; }
      FOR(j, 3) { d[j] *= l; up[j] *= ul; c[j] = eye[j] + d[j]; }
      double f[3], L = 0, u[3], U2 = 0, mag = 0; FOR(j, 3) { f[j] = kind == 0 ? (double)c[j] - eye[j] : (double)d[j]; L += f[j] * f[j]; u[j] = up[j]; U2 += u[j] * u[j]; mag = std::max(mag, (double)std::max(std::fabs(eye[j]), std::fabs(c[j]))); } L = std::sqrt(L); U2 = std::sqrt(U2); if (L < 1e-5 || U2 < 1e-6) s.skip();
      double dirTol = kind ? 6 * U * mag / L : 0; FOR(j, 3) f[j] /= L; if (dirTol > 1e-3) s.skip();
      if (kind == 2) { FV m = s.call(fn.c_str(), {eye, d}).ov(2); viewCheck(s, m, eye, f, nullptr, lh, dirTol, 0.3); return; }
      double cr[3], sn = 0; FOR(j, 3) { int a = (j + 1) % 3, b = (j + 2) % 3; cr[j] = (f[a] * u[b] - f[b] * u[a]) / U2; sn += cr[j] * cr[j]; } sn = std::sqrt(sn); if (sn < 0.01 || sn * U2 < 1e-4 || dirTol / sn > 1e-2) s.skip();
      FV m = s.call(fn.c_str(), {eye, kind ? d : c, up}).ov(3); viewCheck(s, m, eye, f, u, lh, dirTol / sn, sn); });
  }
}
// ------------------------------------------------------------------ C02
// backward-stable check that P sends (x,y,z,1) to the given clip position (as multiples of w)
static void maps(S &s, const FV &P, double x, double y, double z, const double *want, const char *what, double k = 12) {
  double v[4] = {x, y, z, 1}, c[4], mag[4]; FOR(r, 4) { c[r] = mag[r] = 0; FOR(j, 4) { c[r] += P[j * 4 + r] * v[j]; mag[r] += std::fabs(P[j * 4 + r] * v[j]); } }
  s.check(c[3] > 0, "%s: clip w is %g", what, c[3]);
  FOR(r, 3) s.nearAbs(c[r] / c[3], want[r], k * U * (mag[r] + std::fabs(want[r]) * mag[3]) / c[3] + 1e-30, what, r);
}
static void perspBody(S &s, const FV &P, int cl, double l, double r, double b, double t, double n, double f) {
  double sg = cl >= 2 ? 1 : -1, zn = (cl & 1) ? 0 : -1;
  FOR(j, 3) s.check(P[j * 4 + 3] == (j == 2 ? sg : 0), "bottom row element %d is %g, expected %g", j, P[j * 4 + 3], j == 2 ? sg : 0.0);
  s.check(P[15] == 0, "P33 is %g", P[15]);
  FOR(q, 8) { double d = (q & 4) ? f : n, k = d / n; double w[3] = {(q & 1) ? 1.0 : -1.0, (q & 2) ? 1.0 : -1.0, (q & 4) ? 1.0 : zn};
    maps(s, P, ((q & 1) ? r : l) * k, ((q & 2) ? t : b) * k, sg * d, w, (q & 4) ? "far corner" : "near corner"); }
  // depth grows with distance
  if (f > n * 1.001) { double dn = n + (f - n) * 0.25, df = n + (f - n) * 0.75; auto dep = [&](double d) { return (P[10] * sg * d + P[14]) / d; }; s.check(dep(n) < dep(dn) && dep(dn) < dep(df) && dep(df) < dep(f), "depth does not grow with distance"); }
}
static void nf(S &s, float &n, float &f) { static const float NT[] = {1, 0.5f, 0.25f, 2, 0.01f, 0.001f, 10, 5}; n = s.bit() ? 0.1f : s.below(4) ? s.logu(-10, s.below(8) ? 4 : 14) : NT[s.below(8)]; if (!s.below(8)) { f = n * (float)(2 + s.below(2000)); if (s.bit()) f = n + 1 + s.below(1000); if (f > n) return; } switch (s.below(3)) { case 0: f = n * s.uni(1.05f, 3); break; case 1: f = n * (1 + s.logu(-4, 14)); break; default: f = 100 * n; } if (!(f > n)) f = n * 2; }
static float fov(S &s) { switch (s.below(4)) { case 0: return (float)(M_PI / 4); case 1: return s.uni(0.02f, 3.1f); case 2: return (float)(M_PI / 2); default: return s.uni(0.3f, 2.2f); } }
static float asp(S &s) { static const float T[] = {2, 0.5f, 4.0f / 3, 3.0f / 4, 9.0f / 16, 1.5f, 4, 0.25f}; switch (s.below(6)) { case 0: return 1; case 1: return 16.0f / 9; case 2: return T[s.below(8)]; case 3: return s.below(4) ? s.logu(-4, 4) : s.logu(-12, 12); default: return s.logu(-4, 4); } }
static void rect(S &s, float &l, float &r) { if (!s.below(7)) { float h = s.bit() ? 1.0f : 0.5f; l = ((int)s.below(33) - 16) * h; r = l + (1 + s.below(20)) * h; if (!s.below(8)) std::swap(l, r); return; } float w = s.logu(-8, 8), c = s.below(3) ? w * s.uni(-4, 4) : 0; l = c - w; r = c + w; if (!s.below(8)) std::swap(l, r); switch (s.below(16)) { case 1: case 2: l = 0; break; case 3: case 4: r = 0; break; case 5: l = std::ldexp(l, -14); break; case 6: r = std::ldexp(r, -14); break; } if (l == r) r = l + 1; }
PROP(C02) {
  FOR(v, 5) {
    std::string suf = SUFD[v];
    reg("frustum" + suf, [](S &s, C &c) { float l, r, b, t, n, f; rect(s, l, r); rect(s, b, t); nf(s, n, f); float a[6] = {l, r, b, t, n, f}; FOR(i, 6) c.set(i, a[i]); },
      [=](C &c) { perspBody(*c.s, c.ov(6), clip(*c.s, suf), c.f(0), c.f(1), c.f(2), c.f(3), c.f(4), c.f(5)); });
    auto pb = [=](S &s, const FV &P, double fo, double as, double n, double f) { double t = n * std::tan(fo / 2), r = t * as; perspBody(s, P, clip(s, suf), -r, r, -t, t, n, f); };
    reg("perspective" + suf, [](S &s, C &c) { float n, f; nf(s, n, f); c.set(0, fov(s)); c.set(1, asp(s)); c.set(2, n); c.set(3, f); }, [=](C &c) { pb(*c.s, c.ov(4), c.f(0), c.f(1), c.f(2), c.f(3)); });
    reg("perspective_default" + suf, [](S &s, C &c) { c.set(0, asp(s)); }, [=](C &c) { pb(*c.s, c.ov(1), (double)(float)(M_PI / 4), c.f(0), (double)0.01f, 100); });
    reg("perspective_resize" + suf, [=](S &s, C &c) { // of a projection, and of arbitrary matrices
        c.set(0, asp(s)); if (s.bit()) { float n, f; nf(s, n, f); C &q = s.call(("perspective" + suf).c_str(), {fov(s), asp(s), n, f}); c.set(1, q.ov(4)); } else { s.newRegime(30); s.fillArg(c, 1); if (!s.below(4)) c.in[1][0].f = 0; } },
      [=](C &c) { if (c.f(1, 0) == 0) c.sameEl(1, 0); else c.o(1, 0, c(1, 5) / c(0)); for (int j = 1; j < 16; j++) c.sameEl(1, j); }); also("perspective" + suf);
    regm("resize is the projection of the new aspect" + suf, {"perspective" + suf, "perspective_resize" + suf}, [=](S &s) { float n, f, fo = fov(s), a0 = asp(s), a1 = asp(s); nf(s, n, f); FV P = s.call(("perspective" + suf).c_str(), {fo, a0, n, f}).ov(4), W = s.call(("perspective" + suf).c_str(), {fo, a1, n, f}).ov(4), R = s.call(("perspective_resize" + suf).c_str(), {a1, P}).ov(1); FOR(j, 16) s.nearAbs(R[j], W[j], 4e-7 * std::fabs(W[j]), "element", j); });
  }
}
// ------------------------------------------------------------------ C03
static void orthoBody(S &s, const FV &P, int cl, double l, double r, double b, double t, double n, double f, double relX = 0, double relY = 0, double relZ = 0) {
  double sg = cl >= 2 ? 1 : -1, zn = (cl & 1) ? 0 : -1;
  FOR(j, 4) s.check(P[j * 4 + 3] == (j == 3), "bottom row element %d is %g", j, P[j * 4 + 3]);
  double rel[3] = {relX, relY, relZ};
  FOR(q, 8) { double v[3] = {(q & 1) ? r : l, (q & 2) ? t : b, sg * ((q & 4) ? f : n)}, w[3] = {(q & 1) ? 1.0 : -1.0, (q & 2) ? 1.0 : -1.0, (q & 4) ? 1.0 : zn};
    FOR(k, 3) { double c = P[12 + k], mag = std::fabs(c); FOR(j, 3) { c += P[j * 4 + k] * v[j]; mag += std::fabs(P[j * 4 + k] * v[j]); } s.nearAbs(c, w[k], 12 * U * (mag + 1) + rel[k], "box corner", q, k); } }
}
static void box3(S &s, C &c, int i) { FOR(j, 3) { float l, r; rect(s, l, r); c.in[i][j].f = std::min(l, r); c.in[i][3 + j].f = std::max(l, r); } }
PROP(C03) {
  FOR(v, 5) {
    std::string suf = SUFD[v];
    reg("ortho" + suf, [](S &s, C &c) { FOR(k, 3) { float l, r; rect(s, l, r); if (k == 2 && !s.below(5)) { l = 0.1f * s.logu(-12, 0); r = l + s.logu(-4, 12); } c.set(2 * k, l); c.set(2 * k + 1, r); } }, [=](C &c) { orthoBody(*c.s, c.ov(6), clip(*c.s, suf), c.f(0), c.f(1), c.f(2), c.f(3), c.f(4), c.f(5)); });
    for (int pad = 0; pad < 3; pad++) reg(std::string(pad == 0 ? "ortho_aabb" : pad == 1 ? "ortho_aabb_p" : "ortho_aabb_pz") + suf, [=](S &s, C &c) { box3(s, c, 0); if (pad) { float p = !s.below(8) ? 1.0f + s.below(4) : s.below(6) ? s.logu(s.below(3) ? -8 : -16, s.below(4) ? 4 : 14) : 0; if (!s.below(6)) p = -p; c.set(1, p); } }, [=](C &c) {
      double p = pad ? c.f(1) : 0, px = pad == 1 ? p : 0, a[3], b[3], rel[3]; int cl = clip(*c.s, suf);
      FOR(j, 3) { double q = j == 2 ? p : px; a[j] = c.f(0, j) - q; b[j] = c.f(0, 3 + j) + q; double w = b[j] - a[j]; if (!(w > 1e-4 * (std::fabs(a[j]) + std::fabs(b[j])))) { c.s->triv(); return; } rel[j] = q == 0 ? 0 : 8 * U * (std::fabs(a[j]) + std::fabs(b[j])) / w; }
      // the near side of a view-space box is its +Z side in a right-handed view and its -Z side in a left-handed one
      double n = cl >= 2 ? a[2] : -b[2], f = cl >= 2 ? b[2] : -a[2];
      orthoBody(*c.s, c.ov(pad ? 2 : 1), cl, a[0], b[0], a[1], b[1], n, f, rel[0], rel[1], rel[2]); });
    reg("ortho_default" + suf, [](S &s, C &c) { c.set(0, asp(s)); }, [=](C &c) { double a = c.f(0), x = a >= 1 ? a : 1, y = a >= 1 ? 1 : 1 / a; orthoBody(*c.s, c.ov(1), clip(*c.s, suf), -x, x, -y, y, -100, 100); });
    reg("ortho_default_s" + suf, [](S &s, C &c) { c.set(0, asp(s)); c.set(1, s.logu(-6, 8)); }, [=](C &c) { double a = c.f(0), z = c.f(1), x = a >= 1 ? z * a : z, y = a >= 1 ? z : z / a; orthoBody(*c.s, c.ov(2), clip(*c.s, suf), -x, x, -y, y, -z - 100, z + 100); });
  }
}
// ------------------------------------------------------------------ C04
PROP(C04) {
  FOR(v, 5) {
    std::string suf = SUFD[v];
    struct PP { double l, r, b, t, n, f; FV P; float fo, as; bool sym; };
    auto mk = [=](S &s) { PP p; float n, f; nf(s, n, f); p.sym = s.bit(); if (p.sym) { p.fo = fov(s); p.as = asp(s); p.P = s.call(("perspective" + suf).c_str(), {p.fo, p.as, n, f}).ov(4); p.t = n * std::tan((double)p.fo / 2); p.r = p.t * p.as; p.l = -p.r; p.b = -p.t; } else { float l, r, b, t; rect(s, l, r); rect(s, b, t); p.P = s.call(("frustum" + suf).c_str(), {l, r, b, t, n, f}).ov(6); p.l = l; p.r = r; p.b = b; p.t = t; p.fo = p.as = 0; } p.n = n; p.f = f; if (16 * U * f / n > 0.05) s.skip(); return p; };
    auto tn = [](const PP &p) { return 16 * U * p.n * (1 + p.n / p.f); }; auto tf = [](const PP &p) { return 16 * U * p.f * (1 + p.f / p.n); };
    auto tx = [](const PP &p) { return 20 * U * (std::fabs(p.l) + std::fabs(p.r)); }; auto ty = [](const PP &p) { return 20 * U * (std::fabs(p.b) + std::fabs(p.t)); };
    regm("persp_decomp" + suf, {"persp_decomp" + suf, "persp_decompv" + suf, "frustum" + suf, "perspective" + suf}, [=](S &s) { PP p = mk(s); double w[6] = {p.n, p.f, p.t, p.b, p.l, p.r}, t[6] = {tn(p), tf(p), ty(p), ty(p), tx(p), tx(p)}; bool vv = s.bit(); C &c = s.call((std::string(vv ? "persp_decompv" : "persp_decomp") + suf).c_str(), {p.P}); static const char *nm[6] = {"near", "far", "top", "bottom", "left", "right"}; FOR(k, 6) s.nearAbs(vv ? c.g(1, k) : c.g(1 + k), w[k], t[k], nm[k]); });
    regm("persp_decomp_x" + suf, {"persp_decomp_x" + suf, "frustum" + suf, "perspective" + suf}, [=](S &s) { PP p = mk(s); C &c = s.call(("persp_decomp_x" + suf).c_str(), {p.P}); s.nearAbs(c.g(1), p.l, tx(p), "left"); s.nearAbs(c.g(2), p.r, tx(p), "right"); });
    regm("persp_decomp_y" + suf, {"persp_decomp_y" + suf, "frustum" + suf, "perspective" + suf}, [=](S &s) { PP p = mk(s); C &c = s.call(("persp_decomp_y" + suf).c_str(), {p.P}); s.nearAbs(c.g(1), p.t, ty(p), "top"); s.nearAbs(c.g(2), p.b, ty(p), "bottom"); });
    regm("persp_decomp_z" + suf, {"persp_decomp_z" + suf, "persp_decomp_near" + suf, "persp_decomp_far" + suf, "frustum" + suf, "perspective" + suf}, [=](S &s) { PP p = mk(s); C &c = s.call(("persp_decomp_z" + suf).c_str(), {p.P}); s.nearAbs(c.g(1), p.n, tn(p), "near"); s.nearAbs(c.g(2), p.f, tf(p), "far"); s.nearAbs(s.call(("persp_decomp_near" + suf).c_str(), {p.P}).g(1), p.n, tn(p), "near alone"); s.nearAbs(s.call(("persp_decomp_far" + suf).c_str(), {p.P}).g(1), p.f, tf(p), "far alone"); });
    regm("persp_fovy and persp_aspect" + suf, {"persp_fovy" + suf, "persp_aspect" + suf, "frustum" + suf, "perspective" + suf}, [=](S &s) { PP p = mk(s); double h = std::fabs(p.t - p.b) / (2 * p.n), fo = 2 * std::atan((p.t - p.b) / (2 * p.n)), as = (p.r - p.l) / (p.t - p.b); s.nearAbs(s.call(("persp_fovy" + suf).c_str(), {p.P}).r.f, fo, 12 * U * std::fabs(fo) + 8 * U * h / (1 + h * h), "fovy"); s.nearAbs(s.call(("persp_aspect" + suf).c_str(), {p.P}).r.f, as, 16 * U * std::fabs(as), "aspect"); });
    regm("persp_sizes" + suf, {"persp_sizes" + suf, "frustum" + suf, "perspective" + suf}, [=](S &s) { PP p = mk(s); if (!p.sym) s.skip(); double t = 2 * std::tan((double)p.fo / 2); C &c = s.call(("persp_sizes" + suf).c_str(), {p.P, p.fo}); double w[4] = {p.as * t * p.n, t * p.n, p.as * t * p.f, t * p.f}; FOR(k, 4) s.nearAbs(c.g(2, k), w[k], std::fabs(w[k]) * (24 * U + (k < 2 ? tn(p) / p.n : tf(p) / p.f)), "size", k); });
    regm("persp_move_far" + suf, {"persp_move_far" + suf, "frustum" + suf, "perspective" + suf}, [=](S &s) { PP p = mk(s); float d; switch (s.below(3)) { case 0: d = 0; break; case 1: d = (float)(p.f * s.logu(-4, 6)); break; default: d = -(float)((p.f - p.n) * s.uni(0, 0.9f)); } double F = p.f + d; if (!(F > 1.02 * p.n)) s.skip(); double eF = tf(p) + 4 * U * F, eN = tn(p); if (eF > 0.01 * (F - p.n)) s.skip();
      FV R = s.call(("persp_move_far" + suf).c_str(), {p.P, d}).ov(0); double n = p.n, w = F - n; bool zo = clip(s, suf) & 1, lh = clip(s, suf) >= 2; double m22 = zo ? F / w : (F + n) / w, m32 = zo ? -n * F / w : -2 * n * F / w; if (!lh) m22 = -m22;
      double e22 = (zo ? 1 : 2) * (n * eF + F * eN) / (w * w) * 1.1 + 8 * U * std::fabs(m22), e32 = (zo ? 1 : 2) * (n * n * eF + F * F * eN) / (w * w) * 1.1 + 8 * U * std::fabs(m32);
      FOR(j, 16) if (j == 10) s.nearAbs(R[j], m22, e22, "m22"); else if (j == 14) s.nearAbs(R[j], m32, e32, "m32"); else s.check(R[j] == p.P[j], "element %d changed from %g to %g", j, p.P[j], R[j]); });
  }
  regm("perspective, fovy and aspect of the unsuffixed helpers", {"persp_fovy", "persp_aspect", "perspective"}, [](S &s) { float n, f, fo = fov(s), a = asp(s); nf(s, n, f); FV P = s.call("perspective", {fo, a, n, f}).ov(4); s.nearAbs(s.call("persp_fovy", {P}).r.f, fo, 24 * U * fo + 1e-7, "fovy"); s.nearAbs(s.call("persp_aspect", {P}).r.f, a, 8 * U * a, "aspect"); });
}
// ------------------------------------------------------------------ C05
// a model-view-projection matrix
static FV mvp(S &s) {
  double P[16] = {0}, V[16] = {0}, M[16]; float n, f; n = s.logu(-4, 0); f = n * s.logu(2, 10); double t = std::tan(s.uni(0.3f, 2.2f) / 2), a = asp(s);
  if (s.bit()) { P[0] = 1 / (t * a); P[5] = 1 / t; P[10] = -(f + n) / (f - n); P[11] = -1; P[14] = -2.0 * f * n / (f - n); } else { P[0] = 1 / (a * 8); P[5] = 1 / 8.0; P[10] = -2 / (f - n); P[14] = -(f + n) / (f - n); P[15] = 1; P[12] = s.uni(-1, 1); }
  FV r = s.rot3(); FOR(c, 3) FOR(k, 3) V[c * 4 + k] = r[c * 3 + k]; V[15] = 1; FOR(k, 3) V[12 + k] = s.uni(-8, 8);
  FV m(16); FOR(c, 4) FOR(k, 4) { M[c * 4 + k] = 0; FOR(j, 4) M[c * 4 + k] += P[j * 4 + k] * V[c * 4 + j]; m[c * 4 + k] = (float)M[c * 4 + k]; }
  if (!s.below(6)) m = s.gen4();
  return m;
}
static FV viewport(S &s) { FV v{0, 0, 800, 600}; if (s.bit()) { FOR(k, 2) { v[k] = s.bit() ? (s.below(4) ? 0.0f : -0.0f) : s.uni(-500, 500); v[2 + k] = s.logu(-2, 11); } if (!s.below(4)) FOR(k, 4) v[k] = std::floor(v[k]) + (s.below(4) ? 0.0f : 0.5f); FOR(k, 2) { if (v[2 + k] == 0) v[2 + k] = 1; if (!s.below(6)) v[2 + k] = -v[2 + k]; } } return v; }
static void win(const E *m, const E *p, const E *vp, bool zo, E *o) { E v[4] = {p[0], p[1], p[2], E(1.0f)}, c[4]; mv(m, v, c, 4); FOR(k, 3) c[k] = c[k] / c[3]; FOR(k, 2) o[k] = (c[k] * E(0.5f) + E(0.5f)) * vp[2 + k] + vp[k]; o[2] = zo ? c[2] : c[2] * E(0.5f) + E(0.5f); }
static void unwin(const E *im, const E *w, const E *vp, bool zo, E *o) { E v[4], c[4]; FOR(k, 2) v[k] = E(2.0f) * (w[k] - vp[k]) / vp[2 + k] - E(1.0f); v[2] = zo ? w[2] : E(2.0f) * w[2] - E(1.0f); v[3] = E(1.0f); mv(im, v, c, 4); FOR(k, 3) o[k] = c[k] / c[3]; }
PROP(C05) {
  static const char *ZS[3] = {"", "_no", "_zo"};
  FOR(z, 3) {
    std::string suf = ZS[z]; auto zo = [=](S &s) { return z == 2 || (z == 0 && (s.sub->clip & 1)); };
    reg("project" + suf, [](S &s, C &c) { c.set(1, mvp(s)); c.set(2, viewport(s)); s.newRegime(s.below(6) ? 8 : 18); FOR(j, 3) c.in[0][j].f = s.bit() ? s.uni(-8, 8) : s.sc(); }, [=](C &c) { E m[16], p[3], vp[4], o[3]; c.ev(0, p); c.ev(1, m); c.ev(2, vp); win(m, p, vp, zo(*c.s), o); FOR(j, 3) c.o(3, j, o[j]); });
    reg("project_z" + suf, [](S &s, C &c) { c.set(1, mvp(s)); s.newRegime(s.below(6) ? 8 : 18); FOR(j, 3) c.in[0][j].f = s.bit() ? s.uni(-8, 8) : s.sc(); }, [=](C &c) { E m[16], p[3], vp[4] = {E(0.0f), E(0.0f), E(1.0f), E(1.0f)}, o[3]; c.ev(0, p); c.ev(1, m); win(m, p, vp, zo(*c.s), o); c.ret(o[2]); });
    regm("depth-only form is the full form's depth" + suf, {"project" + suf, "project_z" + suf}, [=](S &s) { FV m = mvp(s), vp = viewport(s), p{s.uni(-8, 8), s.uni(-8, 8), s.uni(-8, 8)}; E me[16], pe[3], ve[4], o[3]; FOR(j, 16) me[j] = E(m[j]); FOR(j, 3) pe[j] = E(p[j]); FOR(j, 4) ve[j] = E(vp[j]); win(me, pe, ve, zo(s), o); if (o[2].bad) s.skip(); float a = s.call(("project" + suf).c_str(), {p, m, vp}).g(3, 2), b = s.call(("project_z" + suf).c_str(), {p, m}).r.f; s.nearAbs(a, b, 2 * KTOL * o[2].e + 1e-37, "depth"); });
    reg("unprojecti" + suf, [](S &s, C &c) { c.set(1, mvp(s)); FV vp = viewport(s); c.set(2, vp); FOR(k, 2) c.in[0][k].f = vp[k] + vp[2 + k] * s.uni(-0.5f, 1.5f); c.in[0][2].f = s.uni(-0.2f, 1.2f); if (!s.below(8)) FOR(k, 3) c.in[0][k].f = 0; }, [=](C &c) { E m[16], p[3], vp[4], o[3]; c.ev(0, p); c.ev(1, m); c.ev(2, vp); unwin(m, p, vp, zo(*c.s), o); FOR(j, 3) c.o(3, j, o[j]); });
  }
  auto invE = [](const FV &m, E *im) { E d = detOf(m.v, 4); if (std::fabs(d.v) < 1e-25) return false; FOR(k, 4) FOR(r, 4) im[k * 4 + r] = cofOf(m.v, 4, k, r) / d; return true; };
  reg("unproject", [](S &s, C &c) { c.set(1, mvp(s)); FV vp = viewport(s); c.set(2, vp); FOR(k, 2) c.in[0][k].f = vp[k] + vp[2 + k] * s.uni(-0.5f, 1.5f); c.in[0][2].f = s.uni(-0.2f, 1.2f); }, [=](C &c) { E im[16], p[3], vp[4], o[3]; c.ev(0, p); c.ev(2, vp); if (!invE(c.fv(1), im)) { c.s->skipped++; return; } unwin(im, p, vp, c.s->sub->clip & 1, o); FOR(j, 3) c.o(3, j, o[j]); });
  regm("unproject undoes project", {"project", "unproject", "unprojecti", "mat4_inv"}, [=](S &s) {
    FV m = mvp(s), vp = viewport(s), p{s.uni(-8, 8), s.uni(-8, 8), s.uni(-8, 8)}; bool zo = s.sub->clip & 1;
    E im[16], me[16], ve[4], pe[3], we[3], o[3]; if (!invE(m, im)) s.skip(); FOR(j, 16) me[j] = E(m[j]); FOR(j, 3) pe[j] = E(p[j]); FOR(j, 4) ve[j] = E(vp[j]); win(me, pe, ve, zo, we); FOR(j, 3) if (we[j].bad || we[j].e > 0.01 * (j < 2 ? vp[2 + j] : 1)) s.skip();
    unwin(im, we, ve, zo, o); FV w = s.call("project", {p, m, vp}).ov(3); bool direct = s.bit(); FV q = direct ? s.call("unproject", {w, m, vp}).ov(3) : s.call("unprojecti", {w, s.call("mat4_inv", {m}).ov(1), vp}).ov(3);
    FOR(j, 3) { if (o[j].bad || o[j].e > 0.05) s.skip(); s.nearAbs(q[j], p[j], KTOL * o[j].e + 1e-6, "unprojected", j); } });
  reg("pickmatrix", [](S &s, C &c) { FV vp = viewport(s); c.set(2, vp); FOR(k, 2) { c.in[0][k].f = vp[k] + vp[2 + k] * s.uni(-0.2f, 1.2f); c.in[1][k].f = s.bit() ? (float)(1 + s.below(9)) : s.logu(-2, 9); } if (!s.below(4)) { int k = s.below(2); c.in[1][k].f = s.bit() ? 0.0f : -s.logu(-3, 5); } s.newRegime(20); s.fillArg(c, 3); }, [](C &c) {
    if (c.f(1, 0) <= 0 || c.f(1, 1) <= 0) { FOR(j, 16) if (c.api == 2 && c.fn->str) c.o(3, j, E(j % 5 ? 0.0f : 1.0f)); else c.sameEl(3, j); return; }
    E o[16]; identE(o, 4); FOR(k, 2) { o[k * 5] = c(2, 2 + k) / c(1, k); o[12 + k] = (c(2, 2 + k) - E(2.0f) * (c(0, k) - c(2, k))) / c(1, k); } FOR(j, 16) c.o(3, j, o[j]);
    // the picking window covers the whole clip square
    FOR(k, 2) FOR(e, 2) { double w = (double)c.f(0, k) + (e ? 0.5 : -0.5) * c.f(1, k), ndc = 2 * (w - c.f(2, k)) / c.f(2, 2 + k) - 1, x = c.g(3, k * 5) * ndc + c.g(3, 12 + k); c.s->nearAbs(x, e ? 1 : -1, 16 * U * (std::fabs(c.g(3, k * 5)) * (1 + std::fabs(ndc)) + (std::fabs(c.f(0, k)) + std::fabs(c.f(2, k))) / c.f(1, k) * 2 + 1), "window edge", k, e); } });
}
// ------------------------------------------------------------------ C06
PROP(C06) {
  auto cmp = [](S &s, C &a, C &b) {
    FOR(i, a.fn->nargs) if (a.fn->args[i].role != 'i') FOR(j, a.len(i)) { float x = a.g(i, j), y = b.g(i, j); if (std::isnan(x) && std::isnan(y)) continue; s.check(x == y || std::fabs((double)x - y) <= 4e-7 * std::fabs((double)y), "%s %s[%d] is %.9g but %s gives %.9g", a.fn->name, a.fn->args[i].name, j, x, b.fn->name, y); }
    if (a.fn->ret == 'F') s.check((std::isnan(a.r.f) && std::isnan(b.r.f)) || a.r.f == b.r.f || std::fabs((double)a.r.f - b.r.f) <= 4e-7 * std::fabs(b.r.f), "%s returns %.9g but %s %.9g", a.fn->name, a.r.f, b.fn->name, b.r.f); };
  auto pair = [=](const std::string &f, std::vector<std::string> alts, std::function<int(int)> pick, GenF g) {
    std::vector<std::string> fns = alts; fns.push_back(f);
    regm(f, fns, [=](S &s) { C &a = s.prep(f.c_str()); g(s, a); C &b = s.prep(alts[pick(s.sub->clip)].c_str()); FOR(i, a.fn->nargs) FOR(j, a.len(i)) b.in[i][j] = a.in[i][j]; a.run(); b.run(); cmp(s, a, b); }); };
  auto four = [=](const char *f, GenF g) { std::vector<std::string> al; FOR(k, 4) al.push_back(std::string(f) + SUF[k]); pair(f, al, [](int c) { return c; }, g); };
  auto generic = [](S &s, C &c) { s.newRegime(8); FOR(i, c.fn->nargs) { const vf_arg &a = c.fn->args[i]; if (a.role == 'o') continue; std::string n = a.name; if (n == "proj") c.set(i, mvp(s)); else if (n == "nearZ") c.set(i, s.logu(-6, 2)); else if (n == "farZ") c.set(i, s.logu(3, 9)); else if (n == "fovy") c.set(i, fov(s)); else if (n == "aspect") c.set(i, asp(s)); else s.fillArg(c, i); } };
  for (auto f : {"frustum", "ortho", "ortho_aabb", "ortho_aabb_p", "ortho_aabb_pz", "ortho_default", "ortho_default_s", "perspective", "perspective_default", "perspective_resize", "lookat", "look", "look_anyup", "persp_decomp", "persp_decompv", "persp_decomp_x", "persp_decomp_y", "persp_decomp_z", "persp_decomp_far", "persp_decomp_near", "persp_sizes"}) four(f, generic);
  for (auto f : {"persp_move_far"}) { four(f, [](S &s, C &c) { float n = s.logu(-6, 2), g = s.logu(3, 9); C &q = s.call((std::string("perspective") + SUF[s.sub->clip]).c_str(), {fov(s), asp(s), n, g}); c.set(0, q.ov(4)); c.set(1, s.uni(0, 100)); }); FOR(k, 4) also(std::string("perspective") + SUF[k]); }
  for (auto f : {"persp_decomp", "persp_decomp_x", "persp_decomp_y", "persp_decomp_z", "persp_decomp_far", "persp_decomp_near", "persp_sizes"}) { std::vector<std::string> al; FOR(k, 4) al.push_back(std::string(f) + SUF[k]); std::vector<std::string> fns = al; fns.push_back(f); fns.push_back("frustum");
    regm(std::string(f) + " of a frustum", fns, [=](S &s) { float l, r, b, t, n, g; rect(s, l, r); rect(s, b, t); nf(s, n, g); FV P = s.call("frustum", {l, r, b, t, n, g}).ov(6); C &x = s.prep(f); float fo = fov(s); x.set(0, P); if (x.fn->nargs == 3 && std::string(x.fn->args[1].name) == "fovy") x.set(1, fo); C &y = s.prep(al[s.sub->clip].c_str()); FOR(i, x.fn->nargs) FOR(j, x.len(i)) y.in[i][j] = x.in[i][j]; x.run(); y.run(); cmp(s, x, y); }); }
  for (auto f : {"lookat", "look", "look_anyup"}) { std::vector<std::string> al = {std::string(f) + "_rh", std::string(f) + "_lh"}; pair(f, al, [](int c) { return c >> 1; }, generic); FOR(k, 4) pair(std::string(f) + SUF[k], {al[k >> 1]}, [](int) { return 0; }, generic); }
  for (auto f : {"unprojecti", "project", "project_z"}) pair(f, {std::string(f) + "_no", std::string(f) + "_zo"}, [](int c) { return c & 1; }, [](S &s, C &c) { c.set(1, mvp(s)); FOR(j, 3) c.in[0][j].f = s.uni(-8, 8); if (c.fn->nargs > 2) c.set(2, viewport(s)); });
  for (auto o : {"xyz", "xzy", "yxz", "yzx", "zxy", "zyx"}) { std::string f = sfmt("euler_%s_quat", o); pair(f, {f + "_rh", f + "_lh"}, [](int c) { return c >> 1; }, [](S &s, C &c) { FOR(j, 3) c.in[0][j].f = s.angle(); }); }
}
