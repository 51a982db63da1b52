// G01-G06: frustum, boxes, spheres, rays, curves, easing, colour, noise
#include "prop.hpp"
#include "ref.hpp"
#define FOR(i, n) for (int i = 0; i < (int)(n); i++)
// ------------------------------------------------------------------ G01
struct View { FV m; double M[16]; double t, a, n, f; bool persp; double R[9], e[3]; };
// a view-projection matrix (depth -1..1) with the parameters it was made of
static View viewProj(S &s) {
  View q; double P[16] = {0}, V[16] = {0}; float n = s.logu(-3, 0); q.n = n; q.f = n * (1 + s.logu(-1, 8)); q.t = std::tan(s.uni(0.3f, 2.2f) / 2); q.a = s.uni(0.4f, 2.5f); q.persp = s.bit();
  double f = q.f;
  if (q.persp) { P[0] = 1 / (q.t * q.a); P[5] = 1 / q.t; P[10] = -(f + n) / (f - n); P[11] = -1; P[14] = -2.0 * f * n / (f - n); } else { P[0] = 1 / (q.a * 8); P[5] = 1 / 8.0; P[10] = -2 / (f - n); P[14] = -(f + n) / (f - n); P[15] = 1; }
  FV r = s.rot3(); FOR(c, 3) FOR(k, 3) { V[c * 4 + k] = r[c * 3 + k]; q.R[c * 3 + k] = r[c * 3 + k]; } V[15] = 1; FOR(k, 3) { V[12 + k] = s.uni(-8, 8); q.e[k] = V[12 + k]; }
  q.m = FV(16); FOR(c, 4) FOR(k, 4) { q.M[c * 4 + k] = 0; FOR(j, 4) q.M[c * 4 + k] += P[j * 4 + k] * V[c * 4 + j]; q.m[c * 4 + k] = (float)q.M[c * 4 + k]; }
  return q;
}
// corners in the documented order LBN LTN RTN RBN, LBF LTF RTF RBF
static const int CX[8] = {-1, -1, 1, 1, -1, -1, 1, 1}, CY[8] = {-1, 1, 1, -1, -1, 1, 1, -1}, CZ[8] = {-1, -1, -1, -1, 1, 1, 1, 1};
static void trueCorners(const View &q, double o[8][3]) {
  FOR(i, 8) { double z = CZ[i] < 0 ? q.n : q.f, x = q.persp ? CX[i] * z * q.t * q.a : CX[i] * 8 * q.a, y = q.persp ? CY[i] * z * q.t : CY[i] * 8, v[3] = {x - q.e[0], y - q.e[1], -z - q.e[2]}; FOR(k, 3) { o[i][k] = 0; FOR(j, 3) o[i][k] += q.R[k * 3 + j] * v[j]; } }
}
PROP(G01) {
  auto planeE = [](const E *m, int k, E *p) { int row = k / 2; FOR(c, 4) p[c] = k & 1 ? m[c * 4 + 3] - m[c * 4 + row] : m[c * 4 + 3] + m[c * 4 + row]; };
  reg("frustum_planes", [](S &s, C &c) { c.set(0, s.below(4) ? viewProj(s).m : s.gen4()); }, [=](C &c) {
    E m[16]; c.ev(0, m); FOR(k, 6) { E p[4]; planeE(m, k, p); E l = normE(p, 3); if (l.bad || l.v < 2e-7 || l.v > 1e18 || l.e > 0.01 * l.v) { c.s->skipped++; continue; } FOR(j, 4) c.o(1, k * 4 + j, p[j] / l); double n = 0; FOR(j, 3) n += (double)c.g(1, k * 4 + j) * c.g(1, k * 4 + j); c.s->nearAbs(std::sqrt(n), 1, 1e-6 + 8 * l.e / l.v, "normal length", k); } });
  // a point is inside all six planes exactly when it projects inside the clip volume
  regm("inside the planes means inside the clip volume", {"frustum_planes"}, [](S &s) {
    View q = viewProj(s); FV pl = s.call("frustum_planes", {q.m}).ov(1); double co[8][3]; trueCorners(q, co);
    FOR(rep, 4) { double w[8], tot = 0, p[3] = {0, 0, 0}; FOR(i, 8) { w[i] = s.uni(0, 1); if (!s.below(3)) w[i] = 0; tot += w[i]; } if (tot == 0) continue; bool out = s.bit(); double k = out ? 1.5 : 1; double cen[3] = {0, 0, 0}; FOR(i, 8) FOR(j, 3) { p[j] += w[i] / tot * co[i][j]; cen[j] += co[i][j] / 8; } FOR(j, 3) p[j] = (float)(cen[j] + k * (p[j] - cen[j]));
      double cl[4], mag[4]; FOR(r, 4) { cl[r] = q.m[12 + r]; mag[r] = std::fabs(q.m[12 + r]); FOR(j, 3) { cl[r] += (double)q.m[j * 4 + r] * p[j]; mag[r] += std::fabs(q.m[j * 4 + r] * p[j]); } }
      FOR(i, 6) { double side = cl[3] + (i & 1 ? -cl[i / 2] : cl[i / 2]), tol = 32 * U * (mag[3] + mag[i / 2]); if (std::fabs(side) <= tol) continue; double d = pl[i * 4 + 3]; FOR(j, 3) d += (double)pl[i * 4 + j] * p[j]; s.check((d > 0) == (side > 0), "plane %d: signed distance %.9g but the point (%.9g %.9g %.9g) is %s the clip volume", i, d, p[0], p[1], p[2], side > 0 ? "inside" : "outside"); } } });
  reg("frustum_corners", [](S &s, C &c) {
    if (!s.below(4)) { c.set(0, s.gen4()); return; } View q = viewProj(s); double co[8][3]; trueCorners(q, co); // the inverse, computed in double from its parts: columns solved numerically
    double A[4][8]; FOR(r, 4) FOR(k, 4) { A[r][k] = q.M[k * 4 + r]; A[r][4 + k] = r == k; } FOR(i, 4) { int p = i; for (int r = i + 1; r < 4; r++) if (std::fabs(A[r][i]) > std::fabs(A[p][i])) p = r; FOR(k, 8) std::swap(A[i][k], A[p][k]); double d = A[i][i]; if (d == 0) s.skip(); FOR(k, 8) A[i][k] /= d; FOR(r, 4) if (r != i) { double f = A[r][i]; FOR(k, 8) A[r][k] -= f * A[i][k]; } }
    FV im(16); FOR(r, 4) FOR(k, 4) im[k * 4 + r] = (float)A[r][4 + k]; c.set(0, im); }, [](C &c) {
    E m[16]; c.ev(0, m); FOR(i, 8) { E v[4] = {E((float)CX[i]), E((float)CY[i]), E((float)CZ[i]), E(1.0f)}, o[4]; mv(m, v, o, 4); FOR(k, 4) c.o(1, i * 4 + k, o[k] / o[3]); } });
  regm("corners of the inverted matrix are the visible volume's corners", {"mat4_inv", "frustum_corners"}, [](S &s) {
    View q = viewProj(s); if (q.f / q.n > 40) s.skip(); double co[8][3]; trueCorners(q, co); FV im = s.call("mat4_inv", {q.m}).ov(1), c = s.call("frustum_corners", {im}).ov(1); double sc = 0; FOR(i, 8) FOR(j, 3) sc = std::max(sc, std::fabs(co[i][j]));
    FOR(i, 8) { FOR(j, 3) s.nearAbs(c[i * 4 + j], co[i][j], 2e-3 * sc, "corner", i, j); s.nearAbs(c[i * 4 + 3], 1, 1e-4, "w", i); } });
  auto corners8 = [](S &s) { FV r(32); if (s.below(3)) { View q = viewProj(s); double co[8][3]; trueCorners(q, co); FOR(i, 8) { FOR(j, 3) r[i * 4 + j] = (float)co[i][j]; r[i * 4 + 3] = 1; } } else { s.newRegime(20); FOR(i, 8) { FV v = s.gvec(4); FOR(j, 4) r[i * 4 + j] = v[j]; if (s.bit()) r[i * 4 + 3] = 1; } } return r; };
  reg("frustum_center", [=](S &s, C &c) { c.set(0, corners8(s)); }, [](C &c) { FOR(j, 4) { E t = c(0, j); for (int i = 1; i < 8; i++) t += c(0, i * 4 + j); c.o(1, j, t * E(0.125f)); } });
  reg("frustum_box", [=](S &s, C &c) { c.set(0, corners8(s)); c.set(1, s.bit() ? s.rigid4() : s.gen4()); }, [](C &c) {
    E m[16], lo[3], hi[3]; c.ev(1, m); FOR(i, 8) { E v[4], o[4]; FOR(j, 4) v[j] = c(0, i * 4 + j); mv(m, v, o, 4); FOR(j, 3) { lo[j] = i ? Min(lo[j], o[j]) : o[j]; hi[j] = i ? Max(hi[j], o[j]) : o[j]; } } FOR(j, 3) { c.o(2, j, lo[j]); c.o(2, 3 + j, hi[j]); } });
  // a symmetric frustum: the split plane cuts every edge at the same fraction
  regm("corner split of a symmetric frustum", {"frustum_corners_at"}, [](S &s) {
    View q = viewProj(s); double co[8][3]; trueCorners(q, co); FV c(32); FOR(i, 8) { FOR(j, 3) c[i * 4 + j] = (float)co[i][j]; c[i * 4 + 3] = 1; } float fd = s.logu(-4, 8), sp = fd * (s.below(4) ? s.uni(0, 1) : s.bit() ? 1.0f : 0.0f);
    double sc = 0; FOR(i, 8) FOR(j, 3) sc = std::max(sc, std::fabs(co[i][j])); double el = 0; FOR(j, 3) el += std::pow(co[6][j] - co[2][j], 2); el = std::sqrt(el); if (el < 1e-3 * sc) s.skip();
    FV o = s.call("frustum_corners_at", {c, sp, fd}).ov(3); double f = (double)sp / fd; FOR(i, 4) { FOR(j, 3) s.nearAbs(o[i * 4 + j], c[i * 4 + j] + f * ((double)c[(i + 4) * 4 + j] - c[i * 4 + j]), 64 * U * sc * std::max(1.0, sc / el), "split corner", i, j); s.nearAbs(o[i * 4 + 3], 1, 1e-6, "w", i); } });
  // any frustum: the corners stay on their edges, right-top at the requested fraction
  regm("corner split stays on the edges", {"frustum_corners_at"}, [=](S &s) {
    FV c = corners8(s); FOR(i, 8) c[i * 4 + 3] = 1; float fd = s.logu(-4, 8), sp = fd * s.uni(0, 1); FV o = s.call("frustum_corners_at", {c, sp, fd}).ov(3); double f = (double)sp / fd;
    E l[3]; FOR(j, 3) l[j] = E(c[24 + j]) - E(c[8 + j]); E d = normE(l, 3); if (d.bad) s.skip();
    FOR(i, 4) { double e[3], n = 0, sc = 0; FOR(j, 3) { e[j] = (double)c[(i + 4) * 4 + j] - c[i * 4 + j]; n += e[j] * e[j]; sc = std::max(sc, (double)std::fabs(c[i * 4 + j])); } n = std::sqrt(n); if (!(n > 1e-4 * sc) || n < 1e-3 || n > 1e12 || d.e > 1e-3 * d.v) continue; FOR(j, 3) s.nearAbs(o[i * 4 + j], c[i * 4 + j] + f * d.v / n * e[j], 32 * (U * (sc + f * d.v) + f * d.e + U * f * d.v * sc / n) + 1e-30, "split corner", i, j); } });
}
// ------------------------------------------------------------------ boxes
static FV box(S &s, int d) { FV b(2 * d); FV p = s.gvec(d), q = s.gvec(d); if (!s.below(6)) q = p; FOR(j, d) { b[j] = std::min(p[j], q[j]); b[d + j] = std::max(p[j], q[j]); } return b; }
// a box related to another one: sharing faces, inside, touching
static FV box2(S &s, int d, const FV &a) {
  FV b = box(s, d); if (!s.below(3)) return b;
  FOR(j, d) { float lo = a[j], hi = a[d + j], w = hi - lo; switch (s.below(9)) {
    case 0: b[j] = lo; b[d + j] = hi; break; case 1: b[j] = hi; b[d + j] = hi + std::fabs(s.unit()) * (1 + w); break; case 2: b[d + j] = lo; b[j] = lo - std::fabs(s.unit()) * (1 + w); break;
    case 3: b[j] = lo + w * 0.25f; b[d + j] = lo + w * 0.75f; break; case 4: b[j] = nextafterf(hi, 1e30f); b[d + j] = std::max(b[j], hi + 1); break; case 5: b[d + j] = nextafterf(lo, -1e30f); b[j] = std::min(b[d + j], lo - 1); break;
    case 6: b[j] = lo; b[d + j] = nextafterf(hi, 1e30f); break; case 7: b[j] = nextafterf(lo, -1e30f); b[d + j] = hi; break; default: b[j] = lo - 1; b[d + j] = hi + 1; }
    if (b[j] > b[d + j]) std::swap(b[j], b[d + j]); }
  return b;
}
static float coordIn(S &s, float lo, float hi) { switch (s.below(8)) { case 0: return lo; case 1: return hi; case 2: return nextafterf(lo, -1e30f); case 3: return nextafterf(hi, 1e30f); case 4: return s.sc(); case 5: return lo - std::fabs(s.unit()) * (1 + hi - lo); case 6: return hi + std::fabs(s.unit()) * (1 + hi - lo); default: return lo + (hi - lo) * s.uni(0, 1); } }
static void boxLaws(const std::string &pre, int d) {
  auto gen1 = [=](S &s, C &c) { s.newRegime(18); c.set(0, box(s, d)); };
  auto gen2 = [=](S &s, C &c) { s.newRegime(18); FV a = box(s, d); c.set(0, a); c.set(1, box2(s, d, a)); };
  reg(pre + "merge", gen2, [=](C &c) { FOR(j, d) { c.o(2, j, Min(c(0, j), c(1, j))); c.o(2, d + j, Max(c(0, d + j), c(1, d + j))); } });
  reg(pre + "crop", gen2, [=](C &c) { FOR(j, d) { c.o(2, j, Max(c(0, j), c(1, j))); c.o(2, d + j, Min(c(0, d + j), c(1, d + j))); } });
  reg(pre + "crop_until", [=](S &s, C &c) { s.newRegime(18); FV a = box(s, d), b = box2(s, d, a); c.set(0, a); c.set(1, b); c.set(2, box2(s, d, s.bit() ? a : b)); }, [=](C &c) { FOR(j, d) { c.o(3, j, Min(c(2, j), Max(c(0, j), c(1, j)))); c.o(3, d + j, Max(c(2, d + j), Min(c(0, d + j), c(1, d + j)))); } });
  reg(pre + "transform", [=](S &s, C &c) { s.newRegime(10); c.set(0, box(s, d)); if (d == 3) c.set(1, s.below(3) ? s.affine4() : s.rigid4()); else c.set(1, s.affine3()); }, [=](C &c) {
    int n = d + 1; FOR(j, d) { E lo = c(1, d * n + j), hi = lo; FOR(k, d) { E x = c(1, k * n + j) * c(0, k), y = c(1, k * n + j) * c(0, d + k); lo += Min(x, y); hi += Max(x, y); } c.o(2, j, lo); c.o(2, d + j, hi); } });
  regm(pre + "transform encloses the transformed corners", {pre + "transform"}, [=](S &s) {
    s.newRegime(8); FV b = box(s, d), m = d == 3 ? s.affine4() : s.affine3(), o = s.call((pre + "transform").c_str(), {b, m}).ov(2); int n = d + 1;
    FOR(i, 1 << d) FOR(j, d) { double x = m[d * n + j], mg = std::fabs(x); FOR(k, d) { double v = (double)m[k * n + j] * (i >> k & 1 ? b[d + k] : b[k]); x += v; mg += std::fabs(v); } s.check(x >= o[j] - 8 * U * mg - 1e-37 && x <= o[d + j] + 8 * U * mg + 1e-37, "corner %d coordinate %d = %.9g is outside [%.9g, %.9g]", i, j, x, o[j], o[d + j]); } });
  reg(pre + "invalidate", DEF, [=](C &c) { FOR(j, d) { c.s->check(c.g(0, j) > 3e38f && c.g(0, d + j) < -3e38f, "invalidated box is [%g, %g] on axis %d", c.g(0, j), c.g(0, d + j), j); } });
  regm(pre + "invalid box", {pre + "invalidate", pre + "isvalid", pre + "merge"}, [=](S &s) {
    s.newRegime(18); FV x(2 * d), inv = s.call((pre + "invalidate").c_str(), {}).ov(0); s.check(!s.call((pre + "isvalid").c_str(), {inv}).r.i, "an invalidated box is reported valid"); FV b = box(s, d); C &c = s.bit() ? s.call((pre + "merge").c_str(), {inv, b}) : s.call((pre + "merge").c_str(), {b, inv}); FOR(j, 2 * d) s.check(c.g(2, j) == b[j], "merging with an invalid box changed element %d from %.9g to %.9g", j, b[j], c.g(2, j)); });
  reg(pre + "isvalid", [=](S &s, C &c) { s.newRegime(100); c.set(0, box(s, d)); }, [=](C &c) { c.retb(YES); });
  auto diag = [=](C &c) { E v[3]; FOR(j, d) v[j] = c(0, d + j) - c(0, j); return normE(v, d); };
  reg(pre + (d == 3 ? "size" : "diag"), gen1, [=](C &c) { c.ret(diag(c)); });
  if (d == 2) { reg(pre + "size", gen1, [=](C &c) { c.ret(diag(c)); }); reg(pre + "sizev", gen1, [=](C &c) { FOR(j, d) c.o(1, j, c(0, d + j) - c(0, j)); }); reg(pre + "zero", DEF, [=](C &c) { FOR(j, 4) c.o(0, j, E(0.0f)); }); reg(pre + "copy", gen1, [=](C &c) { FOR(j, 4) c.o(1, j, c(0, j)); }); }
  reg(pre + "radius", gen1, [=](C &c) { c.ret(diag(c) * E(0.5f)); });
  reg(pre + "center", gen1, [=](C &c) { FOR(j, d) c.o(1, j, (c(0, j) + c(0, d + j)) * E(0.5f)); });
  reg(pre + "aabb", gen2, [=](C &c) { bool r = true; FOR(j, d) r = r && c.f(0, j) <= c.f(1, d + j) && c.f(1, j) <= c.f(0, d + j); c.retb(tri(r)); });
  reg(pre + "contains", gen2, [=](C &c) { bool r = true; FOR(j, d) r = r && c.f(0, j) <= c.f(1, j) && c.f(1, d + j) <= c.f(0, d + j); c.retb(tri(r)); });
  reg(pre + "point", [=](S &s, C &c) { s.newRegime(18); FV a = box(s, d); c.set(0, a); FOR(j, d) c.in[1][j].f = coordIn(s, a[j], a[d + j]); if (s.bit()) FOR(j, d) if (s.below(4)) c.in[1][j].f = a[j] + (a[d + j] - a[j]) * s.uni(0, 1); }, [=](C &c) { bool r = true; FOR(j, d) r = r && c.f(1, j) >= c.f(0, j) && c.f(1, j) <= c.f(0, d + j); c.retb(tri(r)); });
  reg(pre + (d == 3 ? "sphere" : "circle"), [=](S &s, C &c) {
    s.newRegime(12); FV a = box(s, d); c.set(0, a); double d2 = 0; FOR(j, d) { float v = coordIn(s, a[j], a[d + j]); c.in[1][j].f = v; double e = v < a[j] ? a[j] - v : v > a[d + j] ? v - a[d + j] : 0; d2 += e * e; } float r = (float)std::sqrt(d2); switch (s.below(6)) { case 0: break; case 1: r = r * 1.01f; break; case 2: r *= 0.99f; break; case 3: r = 0; break; case 4: r += std::fabs(s.unit()); break; default: r = std::fabs(s.sc()); } c.in[1][d].f = r; }, [=](C &c) {
    E d2(0.0f); FOR(j, d) { E e(0.0f); if (c.f(1, j) < c.f(0, j)) e = c(0, j) - c(1, j); else if (c.f(1, j) > c.f(0, d + j)) e = c(1, j) - c(0, d + j); d2 += sq(e); } c.retb(le(d2, sq(c(1, d)))); });
}
PROP(G02) {
  boxLaws("aabb_", 3);
  auto planes = [](S &s) { FV p(24); if (s.bit()) { View q = viewProj(s); E m[16]; FOR(k, 6) { double l = 0, v[4]; FOR(c, 4) { v[c] = k & 1 ? q.M[c * 4 + 3] - q.M[c * 4 + k / 2] : q.M[c * 4 + 3] + q.M[c * 4 + k / 2]; if (c < 3) l += v[c] * v[c]; } l = std::sqrt(l); FOR(c, 4) p[k * 4 + c] = (float)(v[c] / l); } } else FOR(k, 6) { FV d = s.dir3(); FOR(j, 3) p[k * 4 + j] = d[j]; p[k * 4 + 3] = s.uni(-2, 12); } return p; };
  reg("aabb_frustum", [=](S &s, C &c) { FV p = planes(s); s.newRegime(5); FV b = box(s, 3); c.set(0, b); c.set(1, p);
    if (!s.below(3)) { int k = s.below(6); double dp = 0; FOR(j, 3) dp += std::max((double)p[k * 4 + j] * b[j], (double)p[k * 4 + j] * b[3 + j]); p[k * 4 + 3] = (float)-dp; if (s.bit()) p[k * 4 + 3] += (s.bit() ? 1 : -1) * std::ldexp(1.0f, -s.below(12)); c.set(1, p); } }, [](C &c) {
    Tri r = YES; FOR(k, 6) { E d(0.0f); FOR(j, 3) { E n = c(1, k * 4 + j); d += Max(n * c(0, j), n * c(0, 3 + j)); } r = r && ge(d, -c(1, k * 4 + 3)); } c.retb(r); });
  regm("frustum test keeps every box with a visible point", {"frustum_planes", "aabb_frustum"}, [](S &s) {
    View q = viewProj(s); double co[8][3]; trueCorners(q, co); double p[3] = {0, 0, 0}, w[8], tot = 0; FOR(i, 8) { w[i] = s.below(3) ? s.uni(0.01f, 1) : 0.01; tot += w[i]; } FOR(i, 8) FOR(j, 3) p[j] += w[i] / tot * co[i][j];
    double cl[4], mag[4]; FOR(j, 3) p[j] = (float)p[j]; FOR(r, 4) { cl[r] = q.m[12 + r]; mag[r] = std::fabs(q.m[12 + r]); FOR(j, 3) { cl[r] += (double)q.m[j * 4 + r] * p[j]; mag[r] += std::fabs(q.m[j * 4 + r] * p[j]); } } FOR(i, 3) if (cl[3] - std::fabs(cl[i]) < 64 * U * (mag[3] + mag[i])) s.skip();
    FV b(6); FOR(j, 3) { b[j] = (float)(p[j] - (s.below(3) ? s.logu(-8, 6) : 0)); b[3 + j] = (float)(p[j] + (s.below(3) ? s.logu(-8, 6) : 0)); if (b[j] > p[j]) b[j] = (float)p[j]; if (b[3 + j] < p[j]) b[3 + j] = (float)p[j]; }
    s.check(s.call("aabb_frustum", {b, s.call("frustum_planes", {q.m}).ov(1)}).r.i, "a box containing the visible point (%.9g %.9g %.9g) is rejected", p[0], p[1], p[2]); });
}
PROP(G03) { boxLaws("aabb2d_", 2); }
// ------------------------------------------------------------------ G04
PROP(G04) {
  auto sph = [](S &s) { FV v(4); s.vec(v.v, 3); v[3] = s.below(5) ? std::fabs(s.sc()) : 0; return v; };
  reg("sphere_radii", DEF, [](C &c) { c.ret(c(0, 3)); });
  reg("sphere_transform", [=](S &s, C &c) { c.set(1, s.bit() ? s.affine4() : s.gen4()); s.newRegime(12); c.set(0, sph(s)); }, [](C &c) { E m[16], v[4] = {c(0, 0), c(0, 1), c(0, 2), E(1.0f)}, o[4]; c.ev(1, m); mv(m, v, o, 4); FOR(j, 3) c.o(2, j, o[j]); c.o(2, 3, c(0, 3)); });
  auto two = [=](S &s, C &c) { s.newRegime(s.below(3) ? 12 : 22); FV a = sph(s), b = sph(s); if (!s.below(3)) { b = a; int k = s.below(3); float r = s.bit() ? a[3] : std::fabs(s.sc()); b[3] = r; b[k] += (s.bit() ? 1 : -1) * (a[3] + (s.bit() ? r : -r)); } c.set(0, a); c.set(1, b); };
  auto d2 = [](C &c, int i, int j) { E v[3]; FOR(k, 3) v[k] = c(i, k) - c(j, k); return dotE(v, v, 3); };
  reg("sphere_sphere", two, [=](C &c) { c.retb(le(d2(c, 0, 1), sq(c(0, 3) + c(1, 3)))); });
  reg("sphere_point", [=](S &s, C &c) { s.newRegime(12); FV a = sph(s); c.set(0, a); FV p = s.gvec(3); if (s.below(3)) { FV d = s.dir3(); float k = s.bit() ? 1.0f : s.uni(0, 2); FOR(j, 3) p[j] = a[j] + a[3] * k * d[j]; } c.set(1, p); }, [=](C &c) { c.retb(le(d2(c, 0, 1), sq(c(0, 3)))); });
  reg("sphere_merge", two, [=](C &c) {
    E D = Sqrt(d2(c, 0, 1)), R = D + c(0, 3) + c(1, 3); if (R.bad) { c.s->skipped++; return; } double r = c.g(2, 3), sc = R.v; FOR(j, 3) sc = std::max(sc, std::fabs(c(0, j).v) + std::fabs(c(1, j).v)); double tol = 16 * U * sc + 8 * R.e + 1e-37;
    FOR(i, 2) { double q = 0; FOR(k, 3) { double e = (double)c.g(2, k) - c.f(i, k); q += e * e; } c.s->check(std::sqrt(q) + c.f(i, 3) <= r + tol, "sphere %d sticks out of the merged sphere by %.9g", i, std::sqrt(q) + c.f(i, 3) - r); }
    c.s->check(r <= R.v + tol, "merged radius %.9g exceeds the distance plus both radii %.9g", r, R.v); FOR(k, 3) c.o(2, k, (c(0, k) + c(1, k)) * E(0.5f)); });
  reg("ray_at", DEF, [](C &c) { FOR(j, 3) c.o(3, j, c(0, j) + c(1, j) * c(2)); });
  // Moeller-Trumbore in exact-ish arithmetic
  auto rt = [](C &c) {
    E o[3], d[3], v0[3], e1[3], e2[3], p[3], t[3], q[3]; FOR(j, 3) { o[j] = c(0, j); d[j] = c(1, j); v0[j] = c(2, j); e1[j] = c(3, j) - v0[j]; e2[j] = c(4, j) - v0[j]; t[j] = o[j] - v0[j]; }
    cross3(d, e2, p); E det = dotE(e1, p, 3), eps(0.000001f); if (det.bad) { c.s->skipped++; return; }
    if (exact(det) && det.v == 0) { c.retb(NO); return; }
    if (!(std::fabs(det.v) > 1.05e-6 + KTOL * det.e)) { c.s->skipped++; return; }
    cross3(t, e1, q); E u = dotE(t, p, 3) / det, v = dotE(d, q, 3) / det, w = dotE(e2, q, 3) / det, one(1.0f), zero(0.0f);
    if (u.bad || v.bad || w.bad) { c.s->skipped++; return; }
    Tri in = ge(u, zero) && ge(v, zero) && le(u + v, one);
    // the ray starts at its origin: hits closer than an epsilon are left open
    Tri ahead = w.v > 1.1e-6 + KTOL * w.e ? YES : w.v < -KTOL * w.e && w.v < 0 ? NO : UNK;
    Tri hit = in && ahead; c.retb(hit); if (hit == YES && c.r.i) c.o(5, 0, w); };
  reg("ray_triangle", [](S &s, C &c) {
    s.newRegime(6); FV v[3]; FOR(i, 3) { v[i] = s.gvec(3); c.set(2 + i, v[i]); } if (!s.below(6)) { s.def(c); return; }
    float a, b; switch (s.below(4)) { case 0: a = s.uni(0, 1); b = s.uni(0, 1) * (1 - a); break; case 1: a = s.uni(-0.5f, 1.5f); b = s.uni(-0.5f, 1.5f); break; case 2: a = s.bit() ? s.uni(-0.02f, 0.02f) : s.uni(0, 1); b = s.bit() ? s.uni(-0.02f, 0.02f) : 1 - a + s.uni(-0.02f, 0.02f); break; default: a = s.uni(-2, 3); b = 1 - a; }
    FV d = s.bit() ? s.dir3() : s.nzvec(3, 0.01f); float k = s.below(6) ? (s.below(4) ? s.logu(-4, 5) : -s.logu(-4, 5)) : 0; FOR(j, 3) { double x = v[0][j] + a * ((double)v[1][j] - v[0][j]) + b * ((double)v[2][j] - v[0][j]); c.in[0][j].f = (float)(x - k * (double)d[j]); } c.set(1, d); c.set(5, 7.0f); }, rt);
  auto rs = [](C &c) {
    E dp[3], d[3], x[3]; FOR(j, 3) { dp[j] = c(2, j) - c(0, j); d[j] = c(1, j); } E b = dotE(d, dp, 3), dd = dotE(dp, dp, 3), r2 = sq(c(2, 3)); FOR(j, 3) x[j] = dp[j] - d[j] * b; E disc = r2 - dotE(x, x, 3); if (disc.bad || dd.bad) { c.s->skipped++; return; }
    // the direction is only unit up to rounding
    disc.e += 4 * U * (r2.m + dd.v * 2); double exactHit = exact(b) && b.v == 0 && exact(dd) && exact(r2) && dd.v == r2.v;
    if (exactHit) { c.retb(YES); FOR(i, 2) c.s->nearAbs(c.g(3 + i), 0, 0, "tangent at the origin"); return; }
    Tri has = ge(disc, E(0.0f)); if (has == NO) { c.retb(NO); return; } if (has == UNK) { c.s->skipped++; return; }
    E sq_ = Sqrt(disc), q = b.v >= 0 ? b + sq_ : b - sq_, o = (dd - r2) / q; if (o.bad || q.bad) { c.s->skipped++; return; }
    E t1 = b - sq_, t2 = b + sq_; (b.v >= 0 ? t1 : t2).e = std::max(o.e, std::fabs(o.v - (b.v >= 0 ? t1 : t2).v)) + 4 * U * (dd.v + r2.v) / std::fabs(q.v);
    if (b.v < KTOL * b.e && b.v > -KTOL * b.e) { double m = std::max(t1.e, t2.e); t1.e = t2.e = m; }
    Tri behind = lt(t2, E(0.0f)); if (behind == UNK) { c.s->skipped++; return; } c.retb(tnot(behind)); if (behind == YES) return;
    c.o(3, 0, t1); c.o(4, 0, t2); c.s->check(c.g(3) <= c.g(4), "t1 %.9g is not the nearer one (t2 %.9g)", c.g(3), c.g(4)); };
  reg("ray_sphere", [=](S &s, C &c) {
    s.newRegime(7); FV d = s.dir3(), b = sph(s); c.set(1, d); c.set(2, b); FV o(3); if (s.bit()) o = s.gvec(3); else { // aim at a point near the sphere
      FV e = s.dir3(); float k = s.below(3) ? s.uni(0, 1.5f) : 1.0f, t = (s.bit() ? 1 : -1) * (s.below(4) ? s.logu(-5, 7) : 0.0f); FOR(j, 3) o[j] = b[j] + b[3] * k * e[j] - t * d[j]; } c.set(0, o); c.set(3, 5.0f); c.set(4, 6.0f); }, rs);
  // axis-aligned exactly representable cases: touching and tangent rays are decided exactly
  reg("ray_sphere on a grid", "ray_sphere", [](S &s, C &c) { FV d(3), b(4), o(3); d[s.below(3)] = s.bit() ? 1 : -1; FOR(j, 3) { b[j] = (float)(s.below(9) - 4); o[j] = (float)(s.below(9) - 4); } b[3] = (float)s.below(5); c.set(0, o); c.set(1, d); c.set(2, b); c.set(3, 5.0f); c.set(4, 6.0f); }, [](C &c) {
    double dp[3], b = 0, dd = 0; FOR(j, 3) { dp[j] = (double)c.f(2, j) - c.f(0, j); b += dp[j] * c.f(1, j); dd += dp[j] * dp[j]; } double disc = (double)c.f(2, 3) * c.f(2, 3) - (dd - b * b); if (disc < 0) { c.retb(NO); return; } double t1 = b - std::sqrt(disc), t2 = b + std::sqrt(disc); if (t2 < -1e-4) { c.retb(NO); return; } if (std::fabs(t2) < 1e-4 && t2 != 0) { c.s->skipped++; return; } c.retb(YES); c.s->nearAbs(c.g(3), t1, 2e-6 * (std::fabs(b) + 1), "t1"); c.s->nearAbs(c.g(4), t2, 2e-6 * (std::fabs(b) + 1), "t2"); });
  regm("ray sphere hits lie on the sphere", {"ray_sphere", "ray_at"}, [=](S &s) { s.newRegime(4); FV d = s.dir3(), b = sph(s), o = s.gvec(3); b[3] = std::max(b[3], 0.25f); C &c = s.call("ray_sphere", {o, d, b, FV{0}, FV{0}}); if (!c.r.i) s.skip(); double sc = b[3]; FOR(j, 3) sc += std::fabs(b[j]) + std::fabs(o[j]); FOR(i, 2) { float t = c.g(3 + i); FV p = s.call("ray_at", {o, d, t}).ov(3); double r = 0; FOR(j, 3) r += ((double)p[j] - b[j]) * ((double)p[j] - b[j]); s.nearAbs(r, (double)b[3] * b[3], 4e-6 * sc * sc, "squared distance of the hit from the centre", i); } });
}
// ------------------------------------------------------------------ G05
static double bounceOut(double t) { if (t < 4.0 / 11) return 121 * t * t / 16; if (t < 8.0 / 11) return 363.0 / 40 * t * t - 99.0 / 10 * t + 17.0 / 5; if (t < 9.0 / 10) return 4356.0 / 361 * t * t - 35442.0 / 1805 * t + 16061.0 / 1805; return 54.0 / 5 * t * t - 513.0 / 25 * t + 268.0 / 25; }
static double easeIn(const std::string &k, double t) {
  if (k == "sine") return 1 - std::cos(t * M_PI / 2); if (k == "quad") return t * t; if (k == "cubic") return t * t * t; if (k == "quart") return t * t * t * t; if (k == "quint") return t * t * t * t * t;
  if (k == "exp") return t == 0 ? 0 : std::pow(2.0, 10 * (t - 1)); if (k == "circ") return 1 - std::sqrt(1 - t * t); if (k == "back") return t * t * (2.70158 * t - 1.70158); if (k == "elast") return std::sin(13 * M_PI / 2 * t) * std::pow(2.0, 10 * (t - 1)); return 1 - bounceOut(1 - t);
}
// in-out: the ease-in run at double speed over the first half, mirrored over the second
static double easeRef(const std::string &k, const std::string &dir, double t) {
  if (dir == "in") return easeIn(k, t);
  if (dir == "out") { if (k == "bounce") return bounceOut(t); if (k == "elast") return std::sin(-13 * M_PI / 2 * (t + 1)) * std::pow(2.0, -10 * t) + 1; return 1 - easeIn(k, 1 - t); }
  if (k == "back") { double q = 1.70158 * 1.525, n = 2 * t; if (n < 1) return 0.5 * n * n * ((q + 1) * n - q); n -= 2; return 0.5 * (n * n * ((q + 1) * n + q) + 2); }
  if (k == "elast") { if (t < 0.5) return 0.5 * std::sin(13 * M_PI / 2 * 2 * t) * std::pow(2.0, 10 * (2 * t - 1)); return 0.5 * (std::sin(-13 * M_PI / 2 * (2 * t)) * std::pow(2.0, -10 * (2 * t - 1)) + 2); }
  return t < 0.5 ? 0.5 * easeIn(k, 2 * t) : 1 - 0.5 * easeIn(k, 2 - 2 * t);
}
PROP(G05) {
  auto tgen = [](S &s) { switch (s.below(10)) { case 0: return 0.0f; case 1: return 1.0f; case 2: return 0.5f; case 3: return nextafterf(0.5f, s.bit() ? 0 : 1); case 4: return std::ldexp(1.0f, -s.below(30)); case 5: return 1 - std::ldexp(1.0f, -1 - s.below(23)); case 6: return (float)s.below(101) / 100; case 7: { static const float B[4] = {4 / 11.0f, 8 / 11.0f, 0.9f, 0.1f}; float b = B[s.below(4)]; return b + s.uni(-0.001f, 0.001f); } default: return s.uni(0, 1); } };
  for (auto k : {"sine", "quad", "cubic", "quart", "quint", "exp", "circ", "back", "elast", "bounce"}) for (auto d : {"in", "out", "inout"}) {
    std::string K = k, D = d, f = "ease_" + K + "_" + D;
    reg(f, [=](S &s, C &c) { c.set(0, tgen(s)); }, [=](C &c) {
      float t = c.f(0); double r = easeRef(K, D, t), tol = 4e-6;
      if (K == "circ") { double g = D == "in" ? 1 - (double)t : D == "out" ? (double)t : std::fabs(0.5 - (double)t); tol = 2e-6 + 1e-7 / std::sqrt(std::max(g, 1e-9)) * 0.5; }
      if (K == "bounce") { double u = D == "out" ? t : D == "in" ? 1 - (double)t : t < 0.5f ? 1 - 2 * (double)t : 2 * (double)t - 1; if (std::fabs(u - 0.9) < 1e-5) tol = 2e-4; tol += 4e-6; }
      if (K == "elast") tol = 1e-5;
      c.s->nearAbs(c.r.f, r, tol, f.c_str());
      if (t == 0) c.s->nearAbs(c.r.f, 0, 2e-6, "value at 0"); if (t == 1) c.s->nearAbs(c.r.f, 1, 2e-6, "value at 1"); });
  }
  // exact endpoints of the families that are exact, strictly small results of the flat ends
  for (auto k : {"quad", "cubic", "quart", "quint", "exp", "circ"}) reg(sfmt("ease_%s_in relative", k), sfmt("ease_%s_in", k), [=](S &s, C &c) { c.set(0, s.bit() ? s.uni(0.01f, 1) : tgen(s)); }, [=](C &c) { double t = c.f(0); if (std::string(k) == "circ" && t < 0.01) { c.s->skipped++; return; } double r = easeIn(k, t); c.s->nearAbs(c.r.f, r, (std::string(k) == "circ" ? 2e-6 * r + 2e-7 + 1e-7 / std::sqrt(std::max(1 - t, 1e-9)) : 2e-5 * r) + 1e-44, "value"); });
  reg("ease_linear", DEF, [](C &c) { c.ret(c(0)); });
  for (auto k : {"sine", "quad", "cubic", "quart", "quint", "exp", "circ", "back", "bounce"}) { std::string a = sfmt("ease_%s_in", k), b = sfmt("ease_%s_out", k), io = sfmt("ease_%s_inout", k); bool circ = std::string(k) == "circ", bo = std::string(k) == "bounce";
    regm(sfmt("ease %s mirror symmetry", k), {a, b, io}, [=](S &s) { float t = (float)s.below((1 << 12) + 1) / 4096; if (bo && std::fabs(t - 0.1f) < 1e-3) s.skip(); s.nearAbs(s.call(a.c_str(), {t}).r.f, 1 - (double)s.call(b.c_str(), {1 - t}).r.f, circ ? 1e-5 : 4e-6, "in(t) against 1-out(1-t)"); s.nearAbs(s.call(io.c_str(), {t}).r.f, 1 - (double)s.call(io.c_str(), {1 - t}).r.f, bo ? 3e-4 : circ ? 1e-5 : 4e-6, "inout(t) against 1-inout(1-t)"); }); }
  reg("luminance", DEF, [](C &c) { E w[3] = {E(0.212671f), E(0.715160f), E(0.072169f)}, v[3]; c.ev(0, v); c.ret(dotE(v, w, 3)); });
  reg("vec4_cubic", [=](S &s, C &c) { c.set(0, s.bit() ? tgen(s) : (s.newRegime(8), s.sc())); }, [](C &c) { E t = c(0); c.o(1, 0, t * t * t); c.o(1, 1, t * t); c.o(1, 2, t); c.o(1, 3, E(1.0f)); });
  reg("smc", [=](S &s, C &c) { s.newRegime(10); s.def(c); if (s.below(4)) c.set(0, tgen(s)); }, [](C &c) { E t = c(0), v[4] = {t * t * t, t * t, t, E(1.0f)}, m[16], p[4]; c.ev(1, m); c.ev(2, p); E r(0.0f); FOR(k, 4) { E q(0.0f); FOR(j, 4) q += m[k * 4 + j] * v[j]; r += q * p[k]; }
    // also the other association: m times p first
    double mg = 0; FOR(k, 4) FOR(j, 4) mg += std::fabs(m[k * 4 + j].v * v[j].v * p[k].v); r.e += 4 * U * mg; r.m += mg; r.fix(); c.ret(r); });
  auto bez = [](double s, double a, double b, double c, double d) { double x = 1 - s; return a * x * x * x + 3 * b * s * x * x + 3 * c * s * s * x + d * s * s * s; };
  auto her = [](double s, double p0, double t0, double t1, double p1) { return p0 * (2 * s * s * s - 3 * s * s + 1) + t0 * (s * s * s - 2 * s * s + s) + p1 * (3 * s * s - 2 * s * s * s) + t1 * (s * s * s - s * s); };
  auto curve = [=](S &s, C &c) { c.set(0, tgen(s)); s.newRegime(20); FOR(i, 4) c.set(1 + i, s.sc()); };
  auto ctol = [](C &c) { double m = 0; FOR(i, 4) m += std::fabs(c.f(1 + i)); return 12 * U * m + 1e-40; };
  reg("bezier", curve, [=](C &c) { c.s->nearAbs(c.r.f, bez(c.f(0), c.f(1), c.f(2), c.f(3), c.f(4)), ctol(c), "B(s)"); if (c.f(0) == 0) c.ret(c(1)); if (c.f(0) == 1) c.s->nearAbs(c.r.f, c.f(4), 4 * U * (std::fabs(c.f(1)) + std::fabs(c.f(2)) + std::fabs(c.f(3)) + std::fabs(c.f(4))), "end point"); });
  reg("hermite", curve, [=](C &c) { c.s->nearAbs(c.r.f, her(c.f(0), c.f(1), c.f(2), c.f(3), c.f(4)), ctol(c), "H(s)"); if (c.f(0) == 0) c.ret(c(1)); if (c.f(0) == 1) c.ret(c(4)); });
  regm("bezier matrix form", {"smc", "bezier", "hermite"}, [=](S &s) { static const float BM[16] = {-1, 3, -3, 1, 3, -6, 3, 0, -3, 3, 0, 0, 1, 0, 0, 0}, HM[16] = {2, -3, 0, 1, -2, 3, 0, 0, 1, -2, 1, 0, 1, -1, 0, 0}; float t = tgen(s); s.newRegime(12); FV p = s.gvec(4); double m = 0; FOR(i, 4) m += std::fabs(p[i]); s.nearAbs(s.call("smc", {t, BM, p}).r.f, s.call("bezier", {t, p[0], p[1], p[2], p[3]}).r.f, 64 * U * m + 1e-40, "bezier by matrix"); s.nearAbs(s.call("smc", {t, HM, FV{p[0], p[3], p[1], p[2]}}).r.f, s.call("hermite", {t, p[0], p[1], p[2], p[3]}).r.f, 64 * U * m + 1e-40, "hermite by matrix"); });
  reg("decasteljau", [=](S &s, C &c) { float p[4]; s.newRegime(10); FOR(i, 4) p[i] = s.below(3) ? s.uni(0, 1) : s.sc(); if (s.below(3)) { p[0] = 0; p[3] = 1; p[1] = s.uni(0, 1); p[2] = s.uni(0, 1); } std::sort(p, p + 4); if (!(p[3] > p[0])) { p[0] -= 1; p[3] += 1; } float q; switch (s.below(8)) { case 0: q = p[0]; break; case 1: q = p[3]; break; case 2: q = p[0] - std::fabs(s.sc()); break; case 3: q = p[3] + std::fabs(s.sc()); break; default: q = p[0] + (p[3] - p[0]) * s.uni(0, 1); } c.set(0, q); FOR(i, 4) c.set(1 + i, p[i]); }, [=](C &c) {
    double q = c.f(0), p0 = c.f(1), p1 = c.f(4); float u = c.r.f; c.s->check(u >= 0 && u <= 1, "parameter %.9g is outside [0,1]", u); if (q <= p0) { c.ret(E(0.0f)); return; } if (q >= p1) { c.ret(E(1.0f)); return; }
    double sc = std::max(std::fabs(p0), std::fabs(p1)); double r = bez(u, p0, c.f(2), c.f(3), p1); c.s->nearAbs(r, q, 1.5e-9 + 64 * U * sc, "curve value at the found parameter"); });
}
// ------------------------------------------------------------------ G06
static double m289(double x) { float y = (float)x * (1.0f / 289.0f); return x - std::floor((double)y) * 289; }
static double permute(double x) { return m289((x * 34 + 1) * x); }
static double frac1(double x) { return std::min(x - std::floor(x), 0.999999940395355224609375); }
struct Grad { double g[4]; bool open; double alt[4]; };
static void norm(double *g, int n) { double d = 0; FOR(i, n) d += g[i] * g[i]; d = 1.79284291400159 - 0.85373472095314 * d; FOR(i, n) g[i] *= d; }
// the gradient a hash value stands for; when the folding decision sits on its boundary both outcomes are allowed
static Grad grad(double h, int n) {
  Grad r; memset(&r, 0, sizeof r);
  if (n == 2) { double x = 2 * frac1((double)((float)h / 41.0f)) - 1, y = std::fabs(x) - 0.5, t = std::floor(x + 0.5); r.open = std::fabs(x + 0.5 - std::round(x + 0.5)) < 1e-6; r.g[0] = x - t; r.g[1] = y; if (r.open) { double t2 = std::round(x + 0.5); r.g[0] = x - t2; r.alt[0] = x - t2 + 1; r.alt[1] = y; } }
  else if (n == 3) { float q = (float)h * (1.0f / 7.0f); double x = q, y = frac1((double)(std::floor(q) * (1.0f / 7.0f))) - 0.5; x = frac1(x); double z = 0.5 - std::fabs(x) - std::fabs(y); bool lo = z < 0; r.open = std::fabs(z) < 1e-6; FOR(k, 2) { double s = (k ? !lo : lo) ? 1 : 0, X = x - s * 0.5, Y = y - s * (y >= 0 ? 0.5 : -0.5); double *o = k ? r.alt : r.g; o[0] = X; o[1] = Y; o[2] = z; } }
  else { float a = (float)h / 7.0f, b = std::floor(a) / 7.0f, d = std::floor(b) / 6.0f; double x = frac1(a) - 0.5, y = frac1(b) - 0.5, z = frac1(d) - 0.5, w = 0.75 - std::fabs(x) - std::fabs(y) - std::fabs(z); bool lo = w < 0; r.open = std::fabs(w) < 1e-6; FOR(k, 2) { double s = (k ? !lo : lo) ? 1 : 0; double *o = k ? r.alt : r.g; o[0] = x - s * (x >= 0 ? 0.5 : -0.5); o[1] = y - s * (y >= 0 ? 0.5 : -0.5); o[2] = z; o[3] = w; } }
  norm(r.g, n); norm(r.alt, n); return r;
}
static void noiseRef(const float *p, int n, double &lo, double &hi) {
  double i0[4], f[4], fd[4]; FOR(k, n) { i0[k] = std::floor((double)p[k]); f[k] = std::min((double)p[k] - i0[k], 0.999999940395355224609375); double t = f[k]; fd[k] = t * t * t * (t * (t * 6 - 15) + 10); }
  lo = hi = 0; FOR(c, 1 << n) {
    double idx[4], h = 0, w = 1; FOR(k, n) { idx[k] = std::fmod(i0[k] + (c >> k & 1), 289.0); w *= c >> k & 1 ? fd[k] : 1 - fd[k]; }
    h = permute(idx[0]); for (int k = 1; k < n; k++) h = permute(h + idx[k]);
    Grad g = grad(h, n); double a = 0, b = 0; FOR(k, n) { double d = f[k] - (c >> k & 1); a += g.g[k] * d; b += g.alt[k] * d; } if (!g.open) b = a;
    lo += w * std::min(a, b); hi += w * std::max(a, b); }
  double s = n == 2 ? 2.3 : 2.2; lo *= s; hi *= s;
}
PROP(G06) {
  for (int n = 2; n <= 4; n++) {
    std::string f = sfmt("perlin_vec%d", n);
    auto point = [=](S &s, float *p) { float big = std::ldexp(1.0f, s.below(16)); FOR(k, n) switch (s.below(6)) { case 0: p[k] = (float)(s.below(601) - 300) + s.uni(0, 1); if (s.below(5) == 4) p[k] = s.unit() * std::ldexp(1.0f, -s.below(24)); break; case 1: p[k] = (float)(s.below(21) - 10); break; case 2: p[k] = (float)(s.below(81) - 40) / 8; break; case 3: p[k] = s.unit() * big; break; default: p[k] = s.uni(-20, 20); } };
    reg(f, [=](S &s, C &c) { float p[4]; point(s, p); c.set(0, p, n); }, [=](C &c) { float p[4]; FOR(k, n) p[k] = c.f(0, k); double lo, hi; noiseRef(p, n, lo, hi); c.s->compared++; c.s->check(c.r.f >= lo - 1e-5 && c.r.f <= hi + 1e-5, "noise is %.9g, expected %.9g .. %.9g", c.r.f, lo, hi); c.s->check(std::fabs(c.r.f) <= 1.5, "noise %.9g leaves [-1.5, 1.5]", c.r.f); });
    reg(f + " vanishes on the lattice", f, [=](S &s, C &c) { FOR(k, n) c.in[0][k].f = (float)(s.below(4001) - 2000); }, [=](C &c) { c.s->nearAbs(c.r.f, 0, 1e-6, "noise at a lattice point"); });
    regm(f + " is continuous", {f}, [=](S &s) { FV p(n), q(n); point(s, p.v); float d = std::ldexp(1.0f, -4 - s.below(12)); double dist = 0; FOR(k, n) { if (s.bit()) p[k] = std::floor(p[k]) - d * s.uni(0, 1); q[k] = p[k] + d * s.unit(); dist += std::fabs((double)q[k] - p[k]); } float a = s.call(f.c_str(), {p}).r.f, b = s.call(f.c_str(), {q}).r.f; s.check(std::fabs((double)a - b) <= 12 * dist + 1e-5, "noise jumps from %.9g to %.9g over a distance of %.3g", a, b, dist); });
  }
}
