#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_set>

namespace pbt {
void (*process_init)() = nullptr;

uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t s = a ^ (b * 0xd6e8feb86659fd93ull + 0x632be59bd9b4e019ull);
  splitmix(s);
  return splitmix(s);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

Src::Src(uint64_t seed, uint64_t index, Rec *r, uint64_t cp)
    : replay(false), ch(nullptr), idx_rem(index), rec(r), cap(cp) {
  uint64_t s = mix(seed, index);
  for (auto &x : st) x = splitmix(s);
  if (rec) rec->n = 0;
}
Src::Src(const std::vector<uint64_t> &c, Rec *r, uint64_t cp)
    : replay(true), ch(&c), idx_rem(0), rec(r), cap(cp) {
  for (auto &x : st) x = 0;
  if (rec) rec->n = 0;
}
void Src::push(uint64_t v) {
  h = (h ^ v) * 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  if (!rec) return;
  if (rec->n < cap) { rec->v[rec->n] = v; rec->n++; } else over = true;
}
uint64_t Src::draw(uint64_t n) {
  uint64_t v;
  if (replay) {
    v = pos < ch->size() ? (*ch)[pos] : 0;
    pos++;
    if (n && v >= n) v %= n;
  } else {
    uint64_t r = rotl(st[1] * 5, 7) * 9, t = st[1] << 17;
    st[2] ^= st[0]; st[3] ^= st[1]; st[1] ^= st[2]; st[0] ^= st[3]; st[2] ^= t; st[3] = rotl(st[3], 45);
    v = n ? (uint64_t)(((unsigned __int128)r * n) >> 64) : r;
  }
  push(v);
  return v;
}
uint64_t Src::enumerate(uint64_t n) {
  if (replay) return draw(n);
  uint64_t v = idx_rem % n;
  idx_rem /= n;
  push(v);
  return v;
}
void Src::bytes(uint8_t *p, size_t n) {
  while (n >= 8) { uint64_t v = u64(); memcpy(p, &v, 8); p += 8; n -= 8; }
  if (n) { uint64_t v = below(1ull << (8 * n)); memcpy(p, &v, n); }
}
void Src::bulk(uint8_t *p, size_t n) {
  uint64_t k = u64();
  if (!k) { memset(p, 0, n); return; }
  uint64_t s = k;
  while (n >= 8) { uint64_t v = splitmix(s); memcpy(p, &v, 8); p += 8; n -= 8; }
  if (n) { uint64_t v = splitmix(s); memcpy(p, &v, n); }
}

std::string tohex(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string s;
  size_t m = n > 4096 ? 64 : n;
  for (size_t i = 0; i < m; i++) { uint8_t b = ((const uint8_t *)p)[i]; s += d[b >> 4]; s += d[b & 15]; }
  if (m < n) s += "...(" + std::to_string(n) + " bytes)";
  return s;
}
static std::string vfmt(const char *fmt, va_list ap) {
  char buf[8192];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}
void Ctx::note(const char *fmt, ...) {
  if (!verbose) return;
  va_list ap; va_start(ap, fmt); notes.push_back(vfmt(fmt, ap)); va_end(ap);
}
void Ctx::hex(const char *name, const void *p, size_t n) {
  if (!verbose) return;
  notes.push_back(std::string(name) + "=" + tohex(p, n));
}
void Ctx::fail(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
  throw Failure{m};
}
void Ctx::eq(const char *what, const void *got, const void *exp, size_t n) {
  if (n && memcmp(got, exp, n)) throw Failure{std::string(what) + ": got " + tohex(got, n) + " expected " + tohex(exp, n)};
}
void Ctx::eqi(const char *what, long long got, long long exp) {
  if (got != exp) fail("%s: got %lld expected %lld", what, got, exp);
}

static std::vector<Sub> &subs() { static std::vector<Sub> v; return v; }
Registrar::Registrar(const Sub &s) { subs().push_back(s); }

// ------------------------------------------------------------------ runner
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static const uint64_t CAP = 1 << 17;   // recorded choices per case
struct Shared {                        // one per child
  volatile int sub; volatile uint64_t idx; volatile double t0; volatile int state; // 0 running 1 failed 2 done
  volatile int busy;
  char msg[4096];
  char notes[32768];
  Rec rec; uint64_t recbuf[CAP];
};
static Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared *)p;
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}
struct Opts {
  std::string prop = "P00", tier = "quick", out, replay, replay_dir = "/tmp", only, tag;
  uint64_t seed = 1; double scale = 1; int workers = 8; bool list = false;
} O;

static uint64_t sub_seed(const Sub &s) {
  uint64_t h = O.seed;
  for (const char *p = O.prop.c_str(); *p; p++) h = mix(h, *p);
  for (const char *p = s.name; *p; p++) h = mix(h, *p);
  return h;
}

struct Outcome { int kind = 0; /*0 ok 1 fail 2 crash 3 hang 4 discard*/ std::string msg, notes; std::vector<uint64_t> rec; };

static void quiet_child() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r);
  if (process_init) process_init();
}
static void body(const Sub &sb, Src &s, Ctx &c, Shared *sh) {
  try { sb.fn(s, c); sh->state = 2; }
  catch (Failure &f) { snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); sh->state = 1; }
  catch (Discard &) { sh->state = 3; }
}
static Outcome wait_child(pid_t pid, Shared *sh, unsigned timeout) {
  Outcome o;
  double t0 = now();
  int st = 0;
  for (int spin = 0;; spin++) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > timeout) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.kind = 3; o.msg = "no result after " + std::to_string(timeout) + " s"; goto rec; }
    usleep(spin < 200 ? 50 : 1000);
  }
  if (WIFSIGNALED(st)) { o.kind = 2; o.msg = std::string("terminated by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"; }
  else if (sh->state == 1) { o.kind = 1; o.msg = sh->msg; }
  else if (sh->state == 3) { o.kind = 4; }
  else if (sh->state != 2) { o.kind = 2; o.msg = "process exited with status " + std::to_string(WEXITSTATUS(st)) + " before finishing the case"; }
rec:
  o.notes = sh->notes;
  if (sh->rec.n < CAP) o.rec.assign(sh->rec.v, sh->rec.v + sh->rec.n);
  return o;
}
// run one case (choices given) in a child
static Outcome run_choices(const Sub &sb, const std::vector<uint64_t> *choices, uint64_t idx, unsigned timeout, bool quiet = true) {
  Shared *sh = new_shared();
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (quiet) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); } }
    quiet_child();
    Ctx c; c.verbose = true; c.thorough = O.tier == "thorough";
    struct Flush { Ctx &c; Shared *sh; };
    if (choices) { Src s(*choices, &sh->rec, CAP); body(sb, s, c, sh); }
    else { Src s(sub_seed(sb), idx, &sh->rec, CAP); body(sb, s, c, sh); }
    std::string n;
    for (auto &x : c.notes) n += x + "\n";
    snprintf(sh->notes, sizeof sh->notes, "%s", n.c_str());
    _exit(0);
  }
  Outcome o = wait_child(pid, sh, timeout);
  munmap(sh, sizeof(Shared));
  return o;
}
static bool bad(const Outcome &o) { return o.kind >= 1 && o.kind <= 3; }

static bool lex_less(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}
static std::vector<uint64_t> shrink(const Sub &sb, std::vector<uint64_t> best, Outcome &bo) {
  double t0 = now(); int tries = 0;
  unsigned to = std::min(sb.timeout, 10u);
  auto attempt = [&](const std::vector<uint64_t> &cand) {
    if (now() - t0 > 25 || tries > 3000) return false;
    tries++;
    Outcome o = run_choices(sb, &cand, 0, to);
    if (!bad(o) || o.kind == 3) return false;
    std::vector<uint64_t> r = o.rec.empty() ? cand : o.rec;
    if (!lex_less(r, best)) return false;
    best = r; bo = o;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < 25) {
    progress = false;
    for (size_t chunk : {64u, 16u, 8u, 4u, 2u, 1u})
      for (size_t i = best.size(); i-- > 0;) {
        if (i >= best.size() || i + chunk > best.size()) continue;
        auto cand = best; cand.erase(cand.begin() + i, cand.begin() + i + chunk);
        if (attempt(cand)) progress = true;
        if (now() - t0 > 25) break;
      }
    for (size_t chunk : {16u, 4u, 1u})
      for (size_t i = 0; i + chunk <= best.size(); i += chunk) {
        auto cand = best; bool any = false;
        for (size_t k = 0; k < chunk; k++) { any |= cand[i + k] != 0; cand[i + k] = 0; }
        if (any && attempt(cand)) progress = true;
      }
    for (size_t i = 0; i < best.size(); i++) {
      uint64_t v = best[i];
      for (int sh = 32; sh >= 1 && i < best.size(); sh >>= 1)
        while (i < best.size() && best[i] >> sh) { auto cand = best; cand[i] >>= sh; if (!attempt(cand)) break; progress = true; }
      if (i < best.size() && best[i] > 0 && best[i] < 1000) { auto cand = best; cand[i]--; if (attempt(cand)) progress = true; }
      (void)v;
    }
  }
  return best;
}

struct SubStat { uint64_t n = 0, disc = 0, nontriv = 0; std::map<std::string, uint64_t> labels; std::vector<std::pair<uint64_t, std::string>> samples; };

static std::string g_violation;   // JSON of the violation

static void report_violation(const Sub &sb, const std::string &mode, const std::vector<uint64_t> &ch, uint64_t idx, int stride, const Outcome &o) {
  std::string path = O.replay_dir + "/" + O.prop + (O.tag.empty() ? "" : "-" + O.tag) + "-" + sb.name + ".replay";
  FILE *f = fopen(path.c_str(), "w");
  if (f) {
    fprintf(f, "property %s\nsub %s\ntag %s\nseed %llu\ntier %s\nmode %s\nindex %llu\nstride %d\nchoices %zu", O.prop.c_str(), sb.name, O.tag.c_str(),
            (unsigned long long)O.seed, O.tier.c_str(), mode.c_str(), (unsigned long long)idx, stride, ch.size());
    for (auto v : ch) fprintf(f, " %llu", (unsigned long long)v);
    fprintf(f, "\n# %s\n", o.msg.c_str());
    std::string n = o.notes, line;
    for (char ch2 : n) { if (ch2 == '\n') { fprintf(f, "# %s\n", line.c_str()); line.clear(); } else line += ch2; }
    fclose(f);
  }
  printf("failure in %s/%s%s: %s\n", O.prop.c_str(), sb.name, O.tag.empty() ? "" : (" [" + O.tag + "]").c_str(), o.msg.substr(0, 1500).c_str());
  if (!o.notes.empty()) printf("%s", o.notes.substr(0, 3000).c_str());
  printf("VIOLATION property=%s replay=%s\n", O.prop.c_str(), path.c_str());
  fflush(stdout);
  g_violation = "{\"sub\":" + jstr(sb.name) + ",\"message\":" + jstr(o.msg) + ",\"replay\":" + jstr(path) + "}";
}

// sequence mode: run all cases first..idx with the stride in one child
static Outcome run_sequence(const Sub &sb, uint64_t idx, int stride) {
  Shared *sh = new_shared();
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2);
    quiet_child();
    for (uint64_t i = idx % stride; i <= idx; i += stride) {
      Ctx c; c.verbose = (i == idx); c.thorough = O.tier == "thorough";
      sh->state = 0;
      Src s(sub_seed(sb), i, &sh->rec, CAP);
      body(sb, s, c, sh);
      if (sh->state == 1) _exit(0);
    }
    _exit(0);
  }
  Outcome o = wait_child(pid, sh, 600);
  munmap(sh, sizeof(Shared));
  return o;
}

static int confirm_and_report(const Sub &sb, uint64_t idx, int stride, const std::string &firstmsg) {
  int need = sb.repeat ? (int)sb.repeat : 3, hits = 0;
  Outcome last;
  for (int i = 0; i < need; i++) {
    Outcome o = run_choices(sb, nullptr, idx, sb.timeout);
    if (bad(o)) { hits++; last = o; if (sb.repeat) break; }
  }
  if ((sb.repeat && hits) || hits == 3) {
    std::vector<uint64_t> ch = last.rec;
    if (!sb.repeat && last.kind != 3 && !ch.empty()) ch = shrink(sb, ch, last);
    report_violation(sb, "choices", ch, idx, stride, last);
    return 1;
  }
  // not reproducible in isolation: does it depend on the history of the process?
  int sh = 0;
  for (int i = 0; i < 3; i++) { Outcome o = run_sequence(sb, idx, stride); if (bad(o)) { sh++; last = o; } }
  if (sh) { last.msg = "(history-dependent) " + last.msg; report_violation(sb, "sequence", {}, idx, stride, last); return 1; }
  if (hits) { last.msg = "(intermittent) " + last.msg; report_violation(sb, "choices", last.rec, idx, stride, last); return 1; }
  printf("note: a failure in %s (case %llu: %s) did not reproduce in 6 reruns; not reported\n", sb.name, (unsigned long long)idx, firstmsg.c_str());
  return 0;
}

static int do_replay() {
  FILE *f = fopen(O.replay.c_str(), "r");
  if (!f) { fprintf(stderr, "cannot open %s\n", O.replay.c_str()); return 3; }
  char key[64], val[4096]; std::string sub, mode; uint64_t idx = 0; int stride = 8; std::vector<uint64_t> ch;
  while (fscanf(f, "%63s", key) == 1 && key[0] != '#') {
    if (!strcmp(key, "tag")) { int ch2 = fgetc(f); std::string t; while ((ch2 = fgetc(f)) != '\n' && ch2 != EOF) t += (char)ch2; continue; }
    if (!strcmp(key, "choices")) { size_t n; if (fscanf(f, "%zu", &n) != 1) break; for (size_t i = 0; i < n; i++) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) break; ch.push_back(v); } continue; }
    if (fscanf(f, "%4095s", val) != 1) break;
    if (!strcmp(key, "sub")) sub = val;
    else if (!strcmp(key, "property")) O.prop = val;
    else if (!strcmp(key, "seed")) O.seed = strtoull(val, 0, 10);
    else if (!strcmp(key, "tier")) O.tier = val;
    else if (!strcmp(key, "mode")) mode = val;
    else if (!strcmp(key, "index")) idx = strtoull(val, 0, 10);
    else if (!strcmp(key, "stride")) stride = atoi(val);
  }
  fclose(f);
  for (auto &sb : subs()) if (sub == sb.name) {
    int rep = sb.repeat ? (int)sb.repeat : 1;
    for (int i = 0; i < rep; i++) {
      Outcome o = mode == "sequence" ? run_sequence(sb, idx, stride) : run_choices(sb, &ch, 0, sb.timeout, false);
      if (bad(o)) {
        printf("%s\n%sVIOLATION property=%s replay=%s\n", o.msg.c_str(), o.notes.c_str(), O.prop.c_str(), O.replay.c_str());
        return 1;
      }
      if (i == rep - 1) printf("%sno violation on replay\n", o.notes.c_str());
    }
    return 0;
  }
  fprintf(stderr, "unknown sub-check %s\n", sub.c_str());
  return 3;
}

int main_impl(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") O.prop = nx();
    else if (a == "--tier") O.tier = nx();
    else if (a == "--seed") O.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--out") O.out = nx();
    else if (a == "--replay") O.replay = nx();
    else if (a == "--replay-dir") O.replay_dir = nx();
    else if (a == "--only") O.only = nx();
    else if (a == "--tag") O.tag = nx();
    else if (a == "--scale") O.scale = atof(nx().c_str());
    else if (a == "--workers") O.workers = atoi(nx().c_str());
    else if (a == "--list") O.list = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  if (O.list) { for (auto &s : subs()) printf("%s %llu %llu\n", s.name, (unsigned long long)s.quick, (unsigned long long)s.thorough); return 0; }
  if (!O.replay.empty()) return do_replay();
  double T0 = now();
  bool thorough = O.tier == "thorough";
  std::vector<const Sub *> run;
  for (auto &s : subs()) {
    if (!O.only.empty()) { std::string l = "," + O.only + ","; if (l.find(std::string(",") + s.name + ",") == std::string::npos) continue; }
    run.push_back(&s);
  }
  int violations = 0;
  char tmpl[] = "/tmp/pbtXXXXXX";
  std::string dir = mkdtemp(tmpl) ? tmpl : "/tmp";
  std::string json = "{\"property\":" + jstr(O.prop) + ",\"tier\":" + jstr(O.tier) + ",\"tag\":" + jstr(O.tag) + ",\"seed\":" + std::to_string(O.seed) + ",\"subs\":[";
  bool first = true;
  for (auto *sbp : run) {
    const Sub &sb = *sbp;
    uint64_t base = thorough ? sb.thorough : sb.quick;
    if (!base) continue;
    uint64_t N = std::max<uint64_t>(1, (uint64_t)(base * O.scale));
    int W = O.workers; if (sb.max_workers && (int)sb.max_workers < W) W = sb.max_workers;
    if ((uint64_t)W > N) W = (int)N;
    double t1 = now();
    std::vector<Shared *> sh(W); std::vector<pid_t> pid(W);
    for (int w = 0; w < W; w++) {
      sh[w] = new_shared(); sh[w]->t0 = now();
      fflush(stdout); fflush(stderr);
      pid[w] = fork();
      if (pid[w] == 0) {
        std::string ef = dir + "/err" + std::to_string(w);
        int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) dup2(fd, 2);
        quiet_child();
        SubStat st; std::unordered_set<uint64_t> seen;
        uint64_t sd = sub_seed(sb);
        for (uint64_t i = w; i < N; i += W) {
          sh[w]->idx = i; sh[w]->t0 = now(); sh[w]->state = 0; sh[w]->busy = 1;
          Ctx c; c.thorough = thorough; c.verbose = st.samples.size() < 2 && (i / W) % 7 == 3;
          Src s(sd, i, &sh[w]->rec, CAP);
          body(sb, s, c, sh[w]);
          if (sh[w]->state == 1) _exit(0);
          if (sh[w]->state == 3) { st.disc++; continue; }
          st.n++;
          for (auto &l : c.case_labels) st.labels[l]++;
          if (c.nontriv) {
            st.nontriv++;
            if (seen.size() < 4000000) seen.insert(s.hash());
            if (c.verbose && !c.notes.empty()) { std::string t; for (auto &x : c.notes) { if (t.size() > 600) break; t += (t.empty() ? "" : "; ") + x; } st.samples.push_back({i, t}); }
          }
        }
        sh[w]->busy = 0;
        std::string fn = dir + "/w" + std::to_string(w);
        FILE *f = fopen(fn.c_str(), "w");
        if (f) {
          fprintf(f, "%llu %llu %llu %zu %zu %zu\n", (unsigned long long)st.n, (unsigned long long)st.disc, (unsigned long long)st.nontriv, st.labels.size(), st.samples.size(), seen.size());
          for (auto &l : st.labels) fprintf(f, "%llu\t%s\n", (unsigned long long)l.second, l.first.c_str());
          for (auto &l : st.samples) { std::string t = l.second; for (auto &ch : t) if (ch == '\n') ch = ' '; fprintf(f, "%llu\t%s\n", (unsigned long long)l.first, t.c_str()); }
          for (auto &x : seen) fwrite(&x, 8, 1, f);
          fclose(f);
        }
        sh[w]->state = 9;
        _exit(0);
      }
    }
    // supervise
    int alive = W; bool failed = false; uint64_t fidx = 0; std::string fmsg;
    std::vector<char> gone(W, 0);
    while (alive && !failed) {
      for (int w = 0; w < W; w++) {
        if (gone[w]) continue;
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          gone[w] = 1; alive--;
          if (sh[w]->state != 9) {
            failed = true; fidx = sh[w]->idx;
            if (sh[w]->state == 1) fmsg = sh[w]->msg;
            else if (WIFSIGNALED(st)) fmsg = "signal " + std::to_string(WTERMSIG(st));
            else fmsg = "exit status " + std::to_string(WEXITSTATUS(st));
            break;
          }
        } else if (sh[w]->busy && now() - sh[w]->t0 > sb.timeout) {
          failed = true; fidx = sh[w]->idx; fmsg = "hang"; break;
        }
      }
      if (!failed && alive) usleep(2000);
    }
    if (failed) {
      for (int w = 0; w < W; w++) if (!gone[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }
      violations += confirm_and_report(sb, fidx, W, fmsg);
    }
    SubStat tot; std::unordered_set<uint64_t> all;
    for (int w = 0; w < W; w++) {
      std::string fn = dir + "/w" + std::to_string(w);
      FILE *f = fopen(fn.c_str(), "r");
      if (f) {
        unsigned long long a, b, d; size_t nl, ns, nh;
        if (fscanf(f, "%llu %llu %llu %zu %zu %zu\n", &a, &b, &d, &nl, &ns, &nh) == 6) {
          tot.n += a; tot.disc += b; tot.nontriv += d;
          char *line = nullptr; size_t cap2 = 0;
          for (size_t k = 0; k < nl; k++) { if (getline(&line, &cap2, f) < 0) break; char *e; uint64_t v = strtoull(line, &e, 10); std::string l = e + 1; if (!l.empty() && l.back() == '\n') l.pop_back(); tot.labels[l] += v; }
          for (size_t k = 0; k < ns; k++) { if (getline(&line, &cap2, f) < 0) break; char *e; uint64_t v = strtoull(line, &e, 10); std::string l = e + 1; if (!l.empty() && l.back() == '\n') l.pop_back(); tot.samples.push_back({v, l}); }
          for (size_t k = 0; k < nh; k++) { uint64_t x; if (fread(&x, 8, 1, f) != 1) break; all.insert(x); }
          free(line);
        }
        fclose(f); unlink(fn.c_str());
      }
      unlink((dir + "/err" + std::to_string(w)).c_str());
      munmap(sh[w], sizeof(Shared));
    }
    std::sort(tot.samples.begin(), tot.samples.end());
    if (tot.samples.size() > 6) tot.samples.resize(6);
    if (!first) json += ",";
    first = false;
    json += "{\"name\":" + jstr(sb.name) + ",\"evaluations\":" + std::to_string(tot.n) + ",\"discarded\":" + std::to_string(tot.disc) +
            ",\"nontrivial\":" + std::to_string(tot.nontriv) + ",\"distinct_nontrivial\":" + std::to_string(all.size()) + ",\"rule\":" + jstr(sb.rule) +
            ",\"wall_s\":" + std::to_string(now() - t1) + ",\"labels\":{";
    bool fl = true;
    for (auto &l : tot.labels) { json += (fl ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second); fl = false; }
    json += "},\"samples\":[";
    fl = true;
    for (auto &l : tot.samples) { json += (fl ? "" : ",") + jstr("#" + std::to_string(l.first) + " " + l.second); fl = false; }
    json += "]}";
    printf("  %-28s %9llu cases, %9zu distinct non-trivial, %.2fs%s\n", sb.name, (unsigned long long)tot.n, all.size(), now() - t1, failed ? "  FAILED" : "");
    fflush(stdout);
    if (violations) break;
  }
  rmdir(dir.c_str());
  json += "],\"violation\":" + (g_violation.empty() ? std::string("null") : g_violation) + ",\"violations\":" + std::to_string(violations) + ",\"wall_s\":" + std::to_string(now() - T0) + "}\n";
  if (!O.out.empty()) { FILE *f = fopen(O.out.c_str(), "w"); if (f) { fputs(json.c_str(), f); fclose(f); } }
  return violations ? 1 : 0;
}
}  // namespace pbt
#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::main_impl(argc, argv); }
#endif
