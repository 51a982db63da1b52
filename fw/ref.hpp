// Small linear algebra over the error-tracking numbers, column-major.
#pragma once
#include "engine.hpp"
static inline void mm(const E *A, const E *B, E *O, int n) { for (int c = 0; c < n; c++) for (int r = 0; r < n; r++) { E s = A[r] * B[c * n]; for (int k = 1; k < n; k++) s += A[k * n + r] * B[c * n + k]; O[c * n + r] = s; } }
static inline void mv(const E *A, const E *v, E *o, int n) { for (int r = 0; r < n; r++) { E s = A[r] * v[0]; for (int k = 1; k < n; k++) s += A[k * n + r] * v[k]; o[r] = s; } }
static inline void identE(E *m, int n) { for (int i = 0; i < n * n; i++) m[i] = E(i % (n + 1) == 0 ? 1.0f : 0.0f); }
static inline void cross3(const E *a, const E *b, E *o) { for (int j = 0; j < 3; j++) { int k = (j + 1) % 3, l = (j + 2) % 3; o[j] = a[k] * b[l] - a[l] * b[k]; } }
// rotation matrix (n=3 or 4) about a unit axis k
static inline void rotE(const E &cs, const E &sn, const E *k, E *m, int n) {
  identE(m, n); E t = E(1.0f) - cs;
  for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) {
    E x = k[c] * k[r] * t;
    if (c == r) x += cs; else { int o = 3 - c - r; x = ((r - c + 3) % 3 == 1) ? x + k[o] * sn : x - k[o] * sn; }
    m[c * n + r] = x;
  }
}
static inline bool normalizeE(E *v, int n) { E l = normE(v, n); if (l.bad || !(l.v > 0)) return false; for (int i = 0; i < n; i++) v[i] = v[i] / l; return true; }
// rotation matrix from an axis argument that need not be normalized
static inline bool axisRot(const E &an, const E *ax, E *m, int n) { E k[3] = {ax[0], ax[1], ax[2]}; if (!normalizeE(k, 3)) return false; rotE(Cos(an), Sin(an), k, m, n); return true; }
static inline void elemRot(int axis, const E &an, E *m, int n) { identE(m, n); E c = Cos(an), s = Sin(an); int a = (axis + 1) % 3, b = (axis + 2) % 3; m[a * n + a] = c; m[a * n + b] = s; m[b * n + a] = -s; m[b * n + b] = c; }
static inline void transE(const E *v, E *m, int n) { identE(m, n); for (int i = 0; i < n - 1; i++) m[(n - 1) * n + i] = v[i]; }
static inline void scaleE(const E *v, E *m, int n) { identE(m, n); for (int i = 0; i < n - 1; i++) m[i * n + i] = v[i]; }
// determinant of the minor given by row/col lists, with an error bound valid for any expansion
static inline void detPerm(const float *a, int n, const int *rows, const int *cols, int k, double &d, double &p) {
  if (k == 0) { d = p = 1; return; }
  if (k == 1) { d = a[cols[0] * n + rows[0]]; p = std::fabs(d); return; }
  d = p = 0; int sub[4];
  for (int j = 0; j < k; j++) { int q = 0; for (int t = 0; t < k; t++) if (t != j) sub[q++] = cols[t]; double dd, pp; detPerm(a, n, rows + 1, sub, k - 1, dd, pp); double x = a[cols[j] * n + rows[0]]; d += (j & 1 ? -1 : 1) * x * dd; p += std::fabs(x) * pp; }
}
// products that underflow half way lose an absolute amount that later factors magnify
static inline double ufl(const float *a, int n) { double m = 1; for (int i = 0; i < n * n; i++) m = std::max(m, (double)std::fabs(a[i])); return 64 * TINY * std::pow(m, n - 2); }
static inline E detOf(const float *a, int n) { int r[4] = {0, 1, 2, 3}; double d, p; detPerm(a, n, r, r, n, d, p); E e = E::mk(d, n * U * p + ufl(a, n), p, false); if (p > 1e36) e.bad = true; return e; }
static inline E cofOf(const float *a, int n, int r, int c) { // cofactor of element (row r, col c)
  int rr[4], cc[4], k = 0; for (int i = 0; i < n; i++) if (i != r) rr[k++] = i; k = 0; for (int i = 0; i < n; i++) if (i != c) cc[k++] = i;
  double d, p; detPerm(a, n, rr, cc, n - 1, d, p); if ((r + c) & 1) d = -d; E e = E::mk(d, n * U * p + ufl(a, n), p, false); if (p > 1e36) e.bad = true; return e; }
// Hamilton product (x,y,z,w)
static inline void qmulE(const E *p, const E *q, E *o) {
  o[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1]; o[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
  o[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3]; o[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
}
// rotation matrix of a (unit) quaternion
static inline void quatMatE(const E *q0, E *m, int n, bool norm = true) {
  E q[4] = {q0[0], q0[1], q0[2], q0[3]}; if (norm) normalizeE(q, 4);
  identE(m, n); E two(2.0f); E x = q[0], y = q[1], z = q[2], w = q[3];
  m[0] = E(1.0f) - two * (y * y + z * z); m[1] = two * (x * y + w * z); m[2] = two * (x * z - w * y);
  m[n] = two * (x * y - w * z); m[n + 1] = E(1.0f) - two * (x * x + z * z); m[n + 2] = two * (y * z + w * x);
  m[2 * n] = two * (x * z + w * y); m[2 * n + 1] = two * (y * z - w * x); m[2 * n + 2] = E(1.0f) - two * (x * x + y * y);
}
