// X05: printing. The text each function writes is captured, parsed, and every token compared with the value that
// belongs at that place.
#include "prop.hpp"
#define FOR(i, n) for (int i = 0; i < (int)(n); i++)
static std::string textOf(C &c) { int n = c.r.i; if (n < 0) n = 0; if (n > 4 * TEXTLEN) n = 4 * TEXTLEN; return std::string((const char *)c.out[1], (size_t)n); }
struct IoCfg { int prec; float maxs; bool color, off; };
static IoCfg ioCfg(S &s) { IoCfg r = {5, 1e5f, true, false}; if (s.sub->cfg == "print3") r = {3, 1e3f, false, false}; if (s.sub->cfg == "noprint") r.off = s.api != 1; return r; }
static std::string esc(const std::string &s) { std::string o; for (char c : s) if (c == '\n') o += "\\n"; else if (c == '\033') o += "\\e"; else o += c; return o; }
// a value may be shown with fixed decimals below the limit and in compact form from it on (negative values beyond the
// limit may use either: both show the value)
static bool tokenOk(const std::string &t, float v, const IoCfg &k) {
  char a[96], b[96]; snprintf(a, sizeof a, "%.*f", k.prec, (double)v); snprintf(b, sizeof b, "%g", (double)v);
  if (v != v) return t == "nan" || t == "-nan";
  if (std::isinf(v)) return t == a;
  if (std::fabs(v) < k.maxs) return t == a;
  if (v < 0) return t == a || t == b;
  return t == b;
}
static std::vector<std::string> split(const std::string &s) { std::vector<std::string> r; size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == ' ') i++; size_t j = i; while (j < s.size() && s[j] != ' ') j++; if (j > i) r.push_back(s.substr(i, j - i)); i = j; } return r; }
// checks "header: COLOR\n", the rows, and the trailing reset; returns the rows' tokens
static std::vector<std::vector<std::string>> parse(S &s, C &c, const std::string &head, int rows, const char *open, const char *close, bool aligned, const IoCfg &k) {
  std::string t = textOf(c), full = esc(t);
  std::string h = head + (k.color ? "\033[36m" : "") + "\n"; s.check(t.compare(0, h.size(), h) == 0, "%s does not start with the header \"%s\": \"%s\"", c.fn->name, esc(h).c_str(), full.c_str());
  t = t.substr(h.size()); std::vector<std::vector<std::string>> r; std::vector<size_t> ends; size_t width = 0;
  FOR(i, rows) {
    size_t a = t.find(open); size_t lead = t.find_first_not_of(" "); s.check(a != std::string::npos && a == lead, "%s: row %d does not start with '%s': \"%s\"", c.fn->name, i, open, full.c_str());
    size_t b = t.find(close, a + 1); s.check(b != std::string::npos && b < t.find('\n'), "%s: row %d does not end with '%s': \"%s\"", c.fn->name, i, close, full.c_str());
    std::string in = t.substr(a + 1, b - a - 1); r.push_back(split(in));
    // where each token ends: right-aligned columns end at the same place in every row
    std::vector<size_t> e; for (size_t p = 0; p < in.size(); p++) if (in[p] != ' ' && (p + 1 == in.size() || in[p + 1] == ' ')) e.push_back(p);
    if (aligned && i) s.check(e == ends && in.size() == width, "%s: columns of row %d are not aligned with the row above: \"%s\"", c.fn->name, i, full.c_str());
    if (!i) { ends = e; width = in.size(); } t = t.substr(b + 1);
    size_t nl = t.find('\n'); bool last = i + 1 == rows; if (!last) { s.check(nl == 0, "%s: row %d is not followed by a new line: \"%s\"", c.fn->name, i, full.c_str()); t = t.substr(1); }
  }
  std::string rest; for (char ch : t) if (ch != '\n') rest += ch; s.check(rest == (k.color ? "\033[0m" : ""), "%s: the text ends with \"%s\": \"%s\"", c.fn->name, esc(t).c_str(), full.c_str());
  s.check(!t.empty() && t.find('\n') != std::string::npos, "%s: no new line at the end: \"%s\"", c.fn->name, full.c_str());
  return r;
}
static float ioVal(S &s, const IoCfg &k) {
  switch (s.t.u(12)) {
  case 0: return (float)s.below(10); case 1: return -(float)s.below(10); case 2: return s.unit();
  case 3: return s.unit() * 100; case 4: return s.unit() * k.maxs; case 5: { float m[] = {k.maxs, -k.maxs, std::nextafterf(k.maxs, 0), -std::nextafterf(k.maxs, 0), std::nextafterf(k.maxs, 1e30f)}; return m[s.below(5)]; }
  case 6: return s.unit() * 1e7f; case 7: return s.unit() * 1e-5f; case 8: return (s.bit() ? -1.0f : 1.0f) * 1e5f * (float)(1 + s.below(2000)); case 9: { float m[] = {-0.0f, 1e20f, -1e20f, FLT_MAX, -FLT_MAX, 1e-40f, NAN, INFINITY, -INFINITY, 0.5e-5f, 99999.995f, -99999.995f}; return m[s.below(12)]; }
  default: return s.sc(); }
}
static const GenF GIO = [](S &s, C &c) { s.newRegime(8); IoCfg k = ioCfg(s); bool big = s.chance(8); FOR(j, c.len(0)) { float v = ioVal(s, k); if (c.len(0) == 16 && std::fabs(v) > 1e12f && !big) v = 1e12f; c.in[0][j].f = v; } };
static const GenF GII = [](S &s, C &c) { FOR(j, c.len(0)) c.in[0][j].i = s.ival(); };
static void fmat(const char *fn, int n) {
  reg(fn, GIO, [n](C &c) {
    S &s = *c.s; IoCfg k = ioCfg(s); if (k.off) { s.check(c.r.i == 0, "%s wrote %d characters with printing disabled", c.fn->name, c.r.i); return; }
    auto r = parse(s, c, sfmt("Matrix (float%dx%d): ", n, n), n, "|", "|", true, k);
    FOR(i, n) { s.check((int)r[i].size() == n, "%s: row %d has %d elements: \"%s\"", c.fn->name, i, (int)r[i].size(), esc(textOf(c)).c_str());
      FOR(j, n) s.check(tokenOk(r[i][j], c.f(0, j * n + i), k), "%s: row %d column %d shows %s, the element is %.9g: \"%s\"", c.fn->name, i, j, r[i][j].c_str(), c.f(0, j * n + i), esc(textOf(c)).c_str()); } });
}
static void fvec(const char *fn, int n, const char *head) {
  reg(fn, GIO, [n, head](C &c) {
    S &s = *c.s; IoCfg k = ioCfg(s); if (k.off) { s.check(c.r.i == 0, "%s wrote %d characters with printing disabled", c.fn->name, c.r.i); return; }
    auto r = parse(s, c, sfmt("%s (float%d): ", head, n), 1, "(", ")", false, k);
    s.check((int)r[0].size() == n, "%s shows %d elements: \"%s\"", c.fn->name, (int)r[0].size(), esc(textOf(c)).c_str());
    FOR(j, n) s.check(tokenOk(r[0][j], c.f(0, j), k), "%s: element %d shown as %s is %.9g: \"%s\"", c.fn->name, j, r[0][j].c_str(), c.f(0, j), esc(textOf(c)).c_str()); });
}
static void ivec(const char *fn, int n) {
  reg(fn, GII, [n](C &c) {
    S &s = *c.s; IoCfg k = ioCfg(s); if (k.off) { s.check(c.r.i == 0, "%s wrote %d characters with printing disabled", c.fn->name, c.r.i); return; }
    auto r = parse(s, c, sfmt("Vector (int%d): ", n), 1, "(", ")", false, k);
    s.check((int)r[0].size() == n, "%s shows %d elements: \"%s\"", c.fn->name, (int)r[0].size(), esc(textOf(c)).c_str());
    FOR(j, n) s.check(r[0][j] == sfmt("%d", c.I(0, j)), "%s: element %d shown as %s is %d: \"%s\"", c.fn->name, j, r[0][j].c_str(), c.I(0, j), esc(textOf(c)).c_str()); });
}
PROP(X05) {
  fmat("mat4_print", 4); fmat("mat3_print", 3); fmat("mat2_print", 2);
  fvec("vec4_print", 4, "Vector"); fvec("vec3_print", 3, "Vector"); fvec("vec2_print", 2, "Vector"); fvec("versor_print", 4, "Quaternion");
  ivec("ivec4_print", 4); ivec("ivec3_print", 3); ivec("ivec2_print", 2);
  reg("aabb_print", [](S &s, C &c) { GIO(s, c); c.seti(2, s.below(5)); }, [](C &c) {
    S &s = *c.s; IoCfg k = ioCfg(s); if (k.off) { s.check(c.r.i == 0, "%s wrote %d characters with printing disabled", c.fn->name, c.r.i); return; }
    static const char *T[] = {"float", "", "box", "a % tag", "100%d"};
    auto r = parse(s, c, sfmt("AABB (%s): ", T[(unsigned)c.I(2) % 5]), 2, "(", ")", false, k);
    FOR(i, 2) { s.check((int)r[i].size() == 3, "aabb_print: row %d has %d elements: \"%s\"", i, (int)r[i].size(), esc(textOf(c)).c_str());
      FOR(j, 3) s.check(tokenOk(r[i][j], c.f(0, i * 3 + j), k), "aabb_print: row %d element %d shown as %s is %.9g: \"%s\"", i, j, r[i][j].c_str(), c.f(0, i * 3 + j), esc(textOf(c)).c_str()); } });
  for (const char *fn : {"arch_print", "arch_print_name"}) reg(fn, [](S &s, C &c) { c.seti(0, s.below(1000)); }, [](C &c) {
    S &s = *c.s; IoCfg k = ioCfg(s); if (k.off) { s.check(c.r.i == 0, "%s wrote %d characters with printing disabled", c.fn->name, c.r.i); return; }
    std::string t = textOf(c); size_t p = t.find("arch: "); bool simd = t.find("SSE") != std::string::npos, avx = t.find("AVX") != std::string::npos, wasm = t.find("wasm") != std::string::npos, arm = t.find("arm") != std::string::npos, unc = t.find("uncommon") != std::string::npos;
    const std::string &g = s.sub->cfg; bool eW = g == "wasm", eA = g == "neon64" || g == "neon", eS = g == "scalar", eV = g == "avx2fma";
    s.check(p != std::string::npos && wasm == eW && arm == eA && unc == eS && simd == (!eW && !eA && !eS) && avx == eV, "%s names another code path than %s: \"%s\"", c.fn->name, g.c_str(), esc(t).c_str()); });
}
