// Runner: executes the registered tests of one property over generated cases on the subject
// libraries, shrinks failures, writes JSON lines for the driver.
#include "engine.hpp"
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static sigjmp_buf g_jb; static volatile sig_atomic_t g_armed; static volatile int g_sig;
static void onsig(int n) { if (!g_armed) { signal(n, SIG_DFL); raise(n); return; } g_sig = n; g_armed = 0; siglongjmp(g_jb, 1); }
static void install() {
  static char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT, SIGVTALRM}; for (int x : sigs) sigaction(x, &sa, 0);
}
static void watchdog(int sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &it, 0); }

// the runtime's report text: keep the first line that names the error
static void asanReport(const char *t) { if (g_asan[0]) return; const char *e = strstr(t, "AddressSanitizer: "); if (!e) e = t; size_t n = 0; const char *a = strstr(e, " on address"); const char *w = strstr(e, "WRITE of size"), *r = strstr(e, "READ of size"); if (!w || (r && r < w)) w = r;
  while (n < 90 && e[n] && e[n] != '\n' && e + n != a) { g_asan[n] = e[n]; n++; } g_asan[n] = 0; if (w) { g_asan[n++] = ' '; while (n < 140 && *w && *w != '\n' && strncmp(w, " at 0x", 6)) g_asan[n++] = *w++; g_asan[n] = 0; } }
static void asanInit() {
  typedef void (*rep)(void (*)(const char *)); rep f = (rep)dlsym(RTLD_DEFAULT, "__asan_set_error_report_callback"); if (!f) return;
  f(asanReport); *(void **)&g_poison = dlsym(RTLD_DEFAULT, "__asan_poison_memory_region"); *(void **)&g_unpoison = dlsym(RTLD_DEFAULT, "__asan_unpoison_memory_region");
}
struct Combo { Subject *sub; int api; };
static std::vector<Combo> combos(const Test &t) {
  std::vector<Combo> r;
  for (auto *s : g_subj) {
    bool have = true, call = false, str = false; int inl = 0;
    for (auto &f : t.fns) { auto it = s->fns.find(f); if (it == s->fns.end()) { have = false; break; } if (it->second->inl) inl++; if (it->second->call) call = true; if (it->second->str) str = true; }
    if (!have) continue;
    if (inl == (int)t.fns.size()) r.push_back({s, 0});
    if (t.inlOnly && s->cfg.compare(0, 4, "asan")) continue;
    if (call) r.push_back({s, 1});
    if (str) r.push_back({s, 2});
  }
  return r;
}
enum Res { OK, TRIV, FAIL };
static Res execute(S &s, const Test &t, Subject *sub, int api) {
  s.reset(); s.sub = sub; s.api = api; s.test = &t;
  Res res = OK;
  if (sigsetjmp(g_jb, 1) == 0) {
    g_armed = 1;
    try {
      if (t.multi) t.multi(s);
      else { C &c = s.prep(t.fn.c_str()); t.gen(s, c); c.run(); t.body(c); }
      res = (s.trivial || s.compared == 0) ? TRIV : OK;
      if (s.wantDump) for (size_t i = 0; i < s.npool; i++) s.dumpText += (i ? "; " : "") + s.pool[i]->dump(true);
    } catch (Failed &) { res = FAIL; } catch (Skip &) { res = TRIV; }
    g_armed = 0;
  } else { res = FAIL; s.msg = g_sig == SIGVTALRM ? "call did not return (hang)" : sfmt("crashed with signal %d (%s)", (int)g_sig, strsignal(g_sig)); if (g_sig == SIGVTALRM) watchdog(20); }
  if (res == FAIL) { s.dumpText.clear(); for (size_t i = 0; i < s.npool; i++) s.dumpText += (i ? "; " : "") + s.pool[i]->dump(i + 1 < s.npool || s.msg.find("signal") == std::string::npos); }
  return res;
}
static bool failsWith(S &s, const Test &t, Subject *sub, int api, const std::vector<u32> &tape) { s.t.startReplay(tape); return execute(s, t, sub, api) == FAIL; }
static std::vector<u32> shrink(S &s, const Test &t, Subject *sub, int api, std::vector<u32> tape) {
  int budget = 4000; watchdog(60);
  if (!failsWith(s, t, sub, api, tape)) return tape;
  tape = s.t.rec;
  bool prog = true;
  auto attempt = [&](std::vector<u32> c) { if (budget-- <= 0) return false; if (failsWith(s, t, sub, api, c)) { std::vector<u32> r = s.t.rec; if (r.size() < tape.size() || (r.size() == tape.size() && r < tape)) { tape = r; return true; } } return false; };
  while (prog && budget > 0) {
    prog = false;
    for (size_t k = 16; k >= 1; k /= 2) for (size_t i = 0; i + k <= tape.size() && budget > 0; i++) {
      bool zero = true; for (size_t j = i; j < i + k; j++) if (tape[j]) zero = false; if (zero) continue;
      std::vector<u32> c = tape; for (size_t j = i; j < i + k; j++) c[j] = 0; if (attempt(c)) prog = true;
    }
    for (size_t k = 8; k >= 1; k /= 2) for (size_t i = 0; i + k <= tape.size() && budget > 0; i++) { std::vector<u32> c = tape; c.erase(c.begin() + (long)i, c.begin() + (long)(i + k)); if (attempt(c)) prog = true; }
    for (size_t i = 0; i < tape.size() && budget > 0; i++) if (tape[i]) {
      u32 lo = 0, hi = tape[i];
      while (lo < hi && budget > 0) { u32 mid = lo + (hi - lo) / 2; std::vector<u32> c = tape; c[i] = mid; if (attempt(c)) { prog = true; if (i >= tape.size()) break; hi = tape[i]; } else { if (lo == mid) break; lo = mid + 1; } }
      if (i < tape.size() && tape[i] > 0) { std::vector<u32> c = tape; c[i]--; if (attempt(c)) prog = true; }
    }
  }
  return tape;
}
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) o += sfmt("\\u%04x", c); else o += (char)c; } return o + "\""; }

static bool loadSubject(const std::string &path) {
  void *dl = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!dl) { fprintf(stderr, "dlopen %s: %s\n", path.c_str(), dlerror()); return false; }
  auto *s = new Subject; s->dl = dl; s->cfg = *(const char **)dlsym(dl, "vf_cfg"); s->clip = *(int *)dlsym(dl, "vf_clip");
  const vf_fn *t = (const vf_fn *)dlsym(dl, "vf_table"); int n = *(int *)dlsym(dl, "vf_count");
  for (int i = 0; i < n; i++) s->fns[t[i].name] = &t[i];
  for (auto *x : g_subj) if (x->cfg == s->cfg) { x->twin = s; return true; }
  g_subj.push_back(s); return true;
}
static void loadDict(const std::string &p) { std::ifstream f(p); std::string k; double v; while (f >> k >> v) { if (k == "f") g_dict.push_back((float)v); else g_idict.push_back((int)v); } }

struct Shared { volatile int nfail; volatile int dead[4096]; };
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

#ifdef FUZZER
static S *fs; static std::vector<std::pair<const Test *, Combo>> fz; static std::string fout;
extern "C" int LLVMFuzzerInitialize(int *argc, char ***argv) {
  const char *prop = getenv("VF_PROP"), *so = getenv("VF_SO"), *dict = getenv("VF_DICT"); fout = getenv("VF_OUT");
  if (dict) loadDict(dict);
  std::stringstream ss(so); std::string x; while (std::getline(ss, x, ':')) loadSubject(x);
  register_tests(prop); for (auto &t : g_tests) for (auto &c : combos(t)) fz.push_back({&t, c});
  fs = new S(); if (getenv("VF_GUARD")) fs->mode = MODE_GUARD; install(); (void)argc; (void)argv; return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  if (n < 2 || fz.empty()) return 0;
  u32 k = (u32)(d[0] | d[1] << 8) % fz.size(); std::vector<u32> tape((n - 2) / 4); if (!tape.empty()) memcpy(tape.data(), d + 2, tape.size() * 4);
  watchdog(20); const Test &t = *fz[k].first; Combo c = fz[k].second;
  if (failsWith(*fs, t, c.sub, c.api, tape)) {
    std::vector<u32> r = shrink(*fs, t, c.sub, c.api, tape); failsWith(*fs, t, c.sub, c.api, r);
    std::ofstream o(fout, std::ios::app); o << "{\"t\":\"fail\",\"test\":" << jstr(t.name) << ",\"cfg\":" << jstr(c.sub->cfg) << ",\"api\":" << c.api << ",\"mode\":" << fs->mode << ",\"msg\":" << jstr(fs->msg) << ",\"dump\":" << jstr(fs->dumpText) << ",\"tape\":[";
    for (size_t i = 0; i < r.size(); i++) o << (i ? "," : "") << r[i]; o << "]}\n"; o.close(); _exit(0);
  }
  return 0;
}
#else
int main(int argc, char **argv) {
  std::string mode = argv[1], prop, out, dict, test, cfg, tapef, only; u64 seed = 1; long long budget = 1000000; int jobs = 8, api = 0, smode = 0; double tlim = 1e9; std::vector<std::string> sos;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--budget") budget = atoll(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--out") out = nx(); else if (a == "--dict") dict = nx(); else if (a == "--test") test = nx(); else if (a == "--cfg") cfg = nx(); else if (a == "--api") api = atoi(nx().c_str());
    else if (a == "--mode") smode = atoi(nx().c_str()); else if (a == "--tape") tapef = nx(); else if (a == "--tlim") tlim = atof(nx().c_str()); else if (a == "--only") only = nx(); else sos.push_back(a); }
  if (mode.compare(0, 4, "list") && mode != "tests") for (auto &p : sos) if (!loadSubject(p)) return 3;
  register_tests(prop.c_str());
  if (mode == "list") { std::set<std::string> f; for (auto &t : g_tests) for (auto &x : t.fns) f.insert(x); for (auto &x : f) puts(x.c_str()); return 0; }
  if (mode == "listt") { for (auto &t : g_tests) { std::string n = t.name; for (char &c : n) if (c == ' ') c = '_'; printf("%s", n.c_str()); for (auto &x : t.fns) printf(" %s", x.c_str()); puts(""); } return 0; }
  if (mode == "tests") { for (auto &t : g_tests) puts(t.name.c_str()); return 0; }
  if (!dict.empty()) loadDict(dict);
  install(); asanInit();
  if (mode == "replay") { g_replaying = true;
    std::vector<u32> tape; std::ifstream f(tapef); u32 x; while (f >> x) tape.push_back(x);
    S s; s.mode = smode; watchdog(30);
    for (auto &t : g_tests) if (t.name == test) for (auto *sub : g_subj) if (sub->cfg == cfg) {
      bool bad = failsWith(s, t, sub, api, tape); printf("%s %s\n%s\n", bad ? "FAIL" : "PASS", s.msg.c_str(), s.dumpText.c_str()); return bad ? 1 : 0; }
    printf("NOTFOUND\n"); return 3;
  }
  std::vector<Test *> T; for (auto &t : g_tests) if (only.empty() || t.name.find(only) != std::string::npos) T.push_back(&t);
  long long W = 0; for (auto *t : T) W += t->weight;
  Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const u64 BITS = 1ull << 30; unsigned char *bm = (unsigned char *)mmap(0, BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  double t0 = now(); std::vector<pid_t> pids;
  const long long BLK = 128;
  for (int w = 0; w < jobs; w++) {
    pid_t pid = fork();
    if (pid) { pids.push_back(pid); continue; }
    install();
    FILE *fo = fopen((out + "." + std::to_string(w)).c_str(), "w");
    S s; s.mode = smode; long long unitbase = 0, wsum = 0;
    for (size_t ti = 0; ti < T.size(); ti++) {
      const Test &t = *T[ti]; wsum += t.weight; const double till = tlim * wsum / W; // each test has its share of the time
      auto cs = combos(t); if (cs.empty()) { if (w == 0) fprintf(fo, "{\"t\":\"nocombo\",\"test\":%s}\n", jstr(t.name).c_str()); continue; }
      long long n = budget * t.weight / W; if (n < BLK) n = BLK;
      long long ev = 0, nt = 0, dist = 0, cmp = 0, skp = 0; int samples = 0; u64 th = hashs(t.name.c_str());
      long long nblk = (n + BLK - 1) / BLK, base = unitbase; unitbase += nblk;
      for (long long b = 0; b < nblk; b++) {
        if ((base + b) % jobs != w) continue;
        if (sh->dead[ti] || sh->nfail >= 8) break;
        if (now() - t0 > till && b >= jobs) break;
        watchdog(20);
        for (long long k = b * BLK; k < (b + 1) * BLK && k < n; k++) {
          Combo c = cs[(size_t)(mix64(seed * 1000003 + th + (u64)k * 2) % cs.size())];
          s.t.start(mix64(mix64(seed + 77) ^ th ^ mix64((u64)k * 0x9e37 + 5)));
          s.wantDump = samples < 1 && b < jobs;
          Res r = execute(s, t, c.sub, c.api); ev++; cmp += s.compared; skp += s.skipped;
          if (r == OK) { nt++; u64 h = mix64(s.h ^ th) % BITS; unsigned char m = (unsigned char)(1u << (h & 7)); if (!(__atomic_fetch_or(&bm[h >> 3], m, __ATOMIC_RELAXED) & m)) dist++;
            if (s.wantDump) { samples++; fprintf(fo, "{\"t\":\"sample\",\"test\":%s,\"cfg\":%s,\"api\":%d,\"text\":%s}\n", jstr(t.name).c_str(), jstr(c.sub->cfg).c_str(), c.api, jstr(s.dumpText).c_str()); } }
          if (r == FAIL) {
            if (__sync_fetch_and_add(&sh->dead[ti], 1)) break;
            __sync_fetch_and_add(&sh->nfail, 1);
            std::vector<u32> orig = s.t.rec, tp = shrink(s, t, c.sub, c.api, orig);
            if (!failsWith(s, t, c.sub, c.api, tp)) { tp = orig; failsWith(s, t, c.sub, c.api, tp); }
            fprintf(fo, "{\"t\":\"fail\",\"test\":%s,\"cfg\":%s,\"api\":%d,\"mode\":%d,\"msg\":%s,\"dump\":%s,\"tape\":[", jstr(t.name).c_str(), jstr(c.sub->cfg).c_str(), c.api, smode, jstr(s.msg).c_str(), jstr(s.dumpText).c_str());
            for (size_t i = 0; i < tp.size(); i++) fprintf(fo, "%s%u", i ? "," : "", tp[i]); fprintf(fo, "]}\n"); fflush(fo); break;
          }
        }
      }
      fprintf(fo, "{\"t\":\"stat\",\"test\":%s,\"ev\":%lld,\"nt\":%lld,\"dist\":%lld,\"cmp\":%lld,\"skp\":%lld,\"combos\":%zu}\n", jstr(t.name).c_str(), ev, nt, dist, cmp, skp, cs.size());
    }
    fclose(fo); _exit(0);
  }
  int bad = 0; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; fprintf(stderr, "worker died: status %x\n", st); } }
  printf("elapsed %.2f\n", now() - t0); return bad ? 4 : 0;
}
#endif
