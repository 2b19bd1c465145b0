// Driver: forks one pristine process per simulated run, gates, minimises,
// writes and replays failures, and reports what was explored.
#include "plan.hpp"
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using std::string;
using std::vector;
using rt::shm;
void set_ref_view(const RefMap& m);

static double now_s() { timespec ts; syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static string sf(const char* f, ...) { char b[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static string jstr(const string& s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) o += sf("\\u%04x", c); else o += (char)c; } return o + "\""; }

// ------------------------------------------------------------- forked runs
struct Out {
  int status = 0; // 1 clean, 2 violation, 4 stopped by something that concerns another property
  string cls, detail; uint64_t hash = 0, sched_hash = 0, opsteps_max = 0; uint64_t props = 0;
  uint64_t opdig[512] = {0};
  vector<rt::SchedEnt> sched; bool overflow = false; uint64_t stat[rt::S_N] = {0};
};
static int g_cpu = 60;
static RefMap g_refs; static size_t g_ref_bytes = 0;

static int wait_child(pid_t pid, double wall, bool& timeout) {
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
  double end = now_s() + wall; int st = 0; timeout = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    if (r < 0 && errno != EINTR) return -1;
    double left = end - now_s();
    if (left <= 0) { kill(pid, SIGKILL); waitpid(pid, &st, 0); timeout = true; return st; }
    timespec ts{(time_t)left, (long)((left - (time_t)left) * 1e9)}; if (ts.tv_sec > 5) ts.tv_sec = 5;
    sigtimedwait(&ss, nullptr, &ts);
  }
}
static void limits(int cpu) { rlimit r{(rlim_t)cpu, (rlim_t)cpu + 2}; setrlimit(RLIMIT_CPU, &r); r = {0, 0}; setrlimit(RLIMIT_CORE, &r); }

static void need_refs(const Plan& p) {
  if (g_ref_bytes > 200u << 20) { g_refs.clear(); g_ref_bytes = 0; }
  set_ref_view(g_refs);
  for (int round = 0; round < 4; round++) {
    vector<string> miss; refs_needed(p, miss);
    if (miss.empty()) break;
    for (auto& k : miss) {
      shm->status = 0; shm->reflen = 0;
      pid_t pid = fork();
      if (pid == 0) { limits(20); signal(SIGCHLD, SIG_DFL); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); run_reference(k); _exit(0); }
      bool to; int st = wait_child(pid, 60, to);
      Ref r;
      if (to || !WIFEXITED(st) || WEXITSTATUS(st) != 0 || shm->status == 0) r.status = 3;
      else {
        r.status = shm->status; r.n = shm->reflen; memcpy(&r.hash, shm->ref, 8);
        size_t n = std::min<size_t>(r.n, (sizeof(shm->ref) - 8) / 8);
        if (n == r.n) { r.bits.resize(n); memcpy(r.bits.data(), shm->ref + 8, n * 8); }
      }
      g_ref_bytes += r.bits.size() * 8 + 200;
      g_refs[k] = std::move(r);
    }
  }
}
static uint64_t g_runs = 0;
static Out run_once(const Plan& p) {
  need_refs(p);
  g_runs++;
  memset(shm, 0, offsetof(rt::Shm, sched));
  shm->nsched = 0; shm->opsteps_max = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) { limits(g_cpu); signal(SIGCHLD, SIG_DFL); execute(p, g_refs); _exit(0); }
  bool to; int st = wait_child(pid, 3.0 * g_cpu + 30, to);
  Out o; o.hash = shm->hash; o.sched_hash = shm->sched_hash; o.opsteps_max = shm->opsteps_max; o.props = shm->props;
  memcpy(o.stat, (const void*)shm->stat, sizeof o.stat);
  memcpy(o.opdig, (const void*)shm->opdig, sizeof o.opdig);
  o.sched.assign(shm->sched, shm->sched + shm->nsched); o.overflow = shm->sched_overflow;
  o.status = shm->status; o.cls = shm->cls; o.detail = shm->detail;
  int code = -1, idx = -1; for (int i = 0; i < rt::MAXT; i++) if (shm->cur_op[i] >= 0) { idx = (int)shm->cur_op[i]; code = shm->cur_code[i]; }
  if (o.status == 1 || o.status == 4) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { o.status = 2; o.cls = "crash:at-exit"; o.detail = sf("wait status %#x", st); } return o; }
  if (o.status == 2) return o;
  o.status = 2; o.hash = 0; o.props = ~0ull;
  string at = sf("during op %d (%s)", idx, code >= 0 && code < O_NCODES ? code_name[code] : "?");
  if (to || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) { o.cls = "hang"; o.detail = "processor time used up " + at; }
  else if (WIFSIGNALED(st)) { o.cls = sf("crash:SIG%s", sigabbrev_np(WTERMSIG(st))); o.detail = sf("killed by signal %d ", WTERMSIG(st)) + at; }
  else { o.cls = "crash:exit"; o.detail = sf("process ended itself with status %#x ", st) + at; }
  return o;
}
static uint64_t g_twins = 0;
static Out run_plan(const Plan& p) {
  Out o = run_once(p);
  if (p.twin <= 0 || p.twin > 5 || o.status != 1) return o;
  Plan q = p; rt::Env& e = q.env;
  switch (p.twin) {
    case 1: e.fill = e.fill == rt::FILL_NAN ? rt::FILL_ONES : rt::FILL_NAN; e.reuse = (e.reuse + 1) % rt::REUSE_N; e.layout_seed += 1000003; break;
    case 2: e.clock = e.clock == rt::CLK_FROZEN ? rt::CLK_FORWARD : rt::CLK_FROZEN; e.clock_seed += 17; break;
    case 3: e.strat = rt::ST_NONE; e.race = false; q.sched.clear(); break;
    case 4: e.skip |= 1; break;
    case 5: e.sur = (e.sur + 1) * 0x9E3779B97F4A7C15ull | 1; e.layout_seed += 7919; break;
  }
  Out t = run_once(q); g_twins++;
  o.hash = o.hash * 0x9E3779B97F4A7C15ull + t.hash;
  if (t.status == 2) { t.hash = o.hash; t.sched = o.sched; t.detail += sf(" [in the %s twin run]", twin_names[p.twin]); return t; }
  if (t.status != 1) return o;
  for (int i = 0; i < 512; i++) if (t.opdig[i] != o.opdig[i]) {
    if (p.twin == 4 && (size_t)i < p.ops.size() && p.ops[i].code == O_LOCALE) continue;
    o.status = 2; o.cls = sf("depends-on-%s", p.twin == 3 ? "interleaving" : twin_names[p.twin]);
    o.detail = sf("op %d (%s): its results differ between two runs of the same history %s", i, (size_t)i < p.ops.size() ? code_name[p.ops[i].code] : "?",
                  p.twin == 1 ? "on memory with other contents and addresses" : p.twin == 2 ? "under another clock" : p.twin == 3 ? "concurrently and one task after the other" : p.twin == 4 ? "with and without locale changes" : "in other surroundings (environment variables, files, machine, process, entropy)");
    break;
  }
  return o;
}

// ------------------------------------------------------------ text of a plan
static string hexs(const string& s) { string o; for (unsigned char c : s) o += sf("%02x", c); return o.empty() ? "-" : o; }
static string unhex(const string& s) { string o; if (s == "-") return o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }
static string op_text(const Op& o) {
  string s = sf("op %s task=%d dst=%d src=%d src2=%d a=", code_name[o.code], o.task, o.dst, o.src, o.src2);
  for (int i = 0; i < 6; i++) s += sf("%s%" PRId64, i ? "," : "", o.a[i]);
  s += " d="; for (int i = 0; i < 4; i++) s += sf("%s%a", i ? "," : "", o.d[i]);
  s += " s=" + hexs(o.s) + " v="; for (size_t i = 0; i < o.v.size(); i++) s += sf("%s%" PRId64, i ? "," : "", o.v[i]);
  if (o.v.empty()) s += "-";
  s += sf(" fault=%d:%" PRIu64 ":%" PRIu64 " sweep=%d rep=%d", o.f.kind, o.f.a, o.f.seed, o.sweep, o.rep);
  return s;
}
static string plan_text(const Plan& p, const Out* o) {
  const rt::Env& e = p.env;
  string s = "integratorxx-sim-replay 1\n";
  s += sf("prop C%02d\nvariant %s\nseed %" PRIu64 "\ntwin %d\n", p.prop, p.variant.c_str(), p.seed, p.twin);
  if (const char* k = getenv("SIM_STARTUP")) s += string("startup ") + k + "\n";
  if (o) s += "class " + o->cls + "\ndetail " + o->detail + sf("\nhash %016" PRIx64 "\n", o->hash);
  s += sf("env fill=%d reuse=%d derived=%d layout=%" PRIu64 " clock=%d clockseed=%" PRIu64 " race=%d strat=%d schedseed=%" PRIu64 " gap=%a pctd=%d pctlen=%" PRIu64 " fpu=%d rounds=%d skip=%d sur=%" PRIu64 "\n",
          e.fill, e.reuse, e.derived_exc, e.layout_seed, e.clock, e.clock_seed, (int)e.race, e.strat, e.sched_seed, e.gap, e.pct_d, e.pct_len, e.fpu, e.rounds, e.skip, e.sur);
  for (auto& op : p.ops) s += op_text(op) + "\n";
  for (auto& c : p.sched) s += sf("sched %d %d %" PRIu64 "\n", c.from, c.to, c.step);
  return s;
}
static bool parse_plan(const string& text, Plan& p, string& cls, uint64_t& hash) {
  std::istringstream in(text); string line; if (!std::getline(in, line) || line != "integratorxx-sim-replay 1") return false;
  auto kv = [](const string& tok, const char* k) -> const char* { size_t n = strlen(k); return tok.compare(0, n, k) == 0 && tok[n] == '=' ? tok.c_str() + n + 1 : nullptr; };
  while (std::getline(in, line)) {
    std::istringstream ls(line); string w; ls >> w;
    if (w == "prop") { string x; ls >> x; p.prop = atoi(x.c_str() + 1); }
    else if (w == "variant") ls >> p.variant;
    else if (w == "seed") ls >> p.seed;
    else if (w == "twin") ls >> p.twin;
    else if (w == "class") cls = line.substr(6);
    else if (w == "hash") { string x; ls >> x; hash = strtoull(x.c_str(), nullptr, 16); }
    else if (w == "env") {
      string t; rt::Env& e = p.env;
      while (ls >> t) { const char* v;
        if ((v = kv(t, "fill"))) e.fill = atoi(v); else if ((v = kv(t, "reuse"))) e.reuse = atoi(v); else if ((v = kv(t, "derived"))) e.derived_exc = atoi(v);
        else if ((v = kv(t, "layout"))) e.layout_seed = strtoull(v, 0, 10); else if ((v = kv(t, "clock"))) e.clock = atoi(v); else if ((v = kv(t, "clockseed"))) e.clock_seed = strtoull(v, 0, 10);
        else if ((v = kv(t, "race"))) e.race = atoi(v); else if ((v = kv(t, "strat"))) e.strat = atoi(v); else if ((v = kv(t, "schedseed"))) e.sched_seed = strtoull(v, 0, 10);
        else if ((v = kv(t, "gap"))) e.gap = strtod(v, 0); else if ((v = kv(t, "pctd"))) e.pct_d = atoi(v); else if ((v = kv(t, "pctlen"))) e.pct_len = strtoull(v, 0, 10); else if ((v = kv(t, "fpu"))) e.fpu = atoi(v); else if ((v = kv(t, "rounds"))) e.rounds = atoi(v); else if ((v = kv(t, "sur"))) e.sur = strtoull(v, 0, 10); else if ((v = kv(t, "skip"))) e.skip = atoi(v); }
    } else if (w == "op") {
      Op o; string t; ls >> t; o.code = -1; for (int i = 0; i < O_NCODES; i++) if (t == code_name[i]) o.code = i;
      if (o.code < 0) return false;
      while (ls >> t) { const char* v;
        if ((v = kv(t, "task"))) o.task = atoi(v); else if ((v = kv(t, "dst"))) o.dst = atoi(v); else if ((v = kv(t, "src"))) o.src = atoi(v); else if ((v = kv(t, "src2"))) o.src2 = atoi(v);
        else if ((v = kv(t, "a"))) { std::stringstream q(v); string x; for (int i = 0; i < 6 && std::getline(q, x, ','); i++) o.a[i] = atoll(x.c_str()); }
        else if ((v = kv(t, "d"))) { std::stringstream q(v); string x; for (int i = 0; i < 4 && std::getline(q, x, ','); i++) o.d[i] = strtod(x.c_str(), 0); }
        else if ((v = kv(t, "s"))) o.s = unhex(v);
        else if ((v = kv(t, "v"))) { if (strcmp(v, "-")) { std::stringstream q(v); string x; while (std::getline(q, x, ',')) o.v.push_back(atoll(x.c_str())); } }
        else if ((v = kv(t, "fault"))) { unsigned long long a, b; sscanf(v, "%d:%llu:%llu", &o.f.kind, &a, &b); o.f.a = a; o.f.seed = b; }
        else if ((v = kv(t, "sweep"))) o.sweep = atoi(v); else if ((v = kv(t, "rep"))) o.rep = atoi(v); }
      p.ops.push_back(o);
    } else if (w == "sched") { rt::SchedEnt e; long long st; ls >> e.from >> e.to >> st; e.step = (uint64_t)st; p.sched.push_back(e); }
  }
  return true;
}

// -------------------------------------------------------------- minimisation
static bool multi(const Plan& p) { if (p.env.rounds > 0 && !p.env.race && p.env.strat == rt::ST_NONE) return false; for (auto& o : p.ops) if (o.task >= 0 && o.task < 8) return true; return false; }
struct Mini {
  string cls; Plan best; Out out; double end; uint64_t tries = 0;
  bool same(const Out& o) { return o.status == 2 && o.cls == cls; }
  void keep(const Plan& p, const Out& o) { best = p; out = o; if (multi(p) && !o.overflow) { best.env.strat = rt::ST_REPLAY; best.sched = o.sched; } }
  bool attempt(Plan p, int reseeds) {
    if (now_s() > end) return false;
    tries++; Out o = run_plan(p);
    if (same(o)) { keep(p, o); return true; }
    if (!multi(p)) return false;
    for (int k = 0; k < reseeds && now_s() < end; k++) { // other interleavings of the reduced workload
      Plan q = p; q.sched.clear(); q.env.sched_seed = k * 7919 + 13; q.env.strat = k % 3 == 0 ? rt::ST_RACE : k % 3 == 1 ? rt::ST_GAP : rt::ST_PCT;
      if (q.env.strat == rt::ST_GAP) { static const double g[] = {5, 30, 200, 1500}; q.env.gap = g[k / 3 % 4]; }
      tries++; o = run_plan(q);
      if (same(o)) { keep(q, o); return true; }
    }
    return false;
  }
  void go() {
    bool again = true;
    while (again && now_s() < end) {
      again = false;
      for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2); chunk >= 1 && now_s() < end; chunk /= 2) { // drop operations
        for (size_t i = best.ops.size(); i > 0 && now_s() < end;) {
          size_t lo = i > chunk ? i - chunk : 0; Plan p = best; p.ops.erase(p.ops.begin() + lo, p.ops.begin() + i);
          if (attempt(p, 4)) again = true;
          i = std::min(lo, best.ops.size());
        }
        if (chunk == 1) break;
      }
      for (size_t i = 0; i < best.ops.size() && now_s() < end; i++) { // simplify operations
        auto tryop = [&](auto f) { Plan p = best; Op before = p.ops[i]; f(p.ops[i]); if (op_text(before) == op_text(p.ops[i])) return; if (attempt(p, 1)) again = true; };
        tryop([](Op& o) { o.f = rt::Fault{}; o.sweep = 0; o.rep = 0; });
        tryop([](Op& o) { o.rep = 0; });
        if (best.ops[i].sweep) tryop([](Op& o) { o.f.kind = rt::F_NTH; });
        tryop([](Op& o) { if (o.f.kind == rt::F_PROB || o.f.kind == rt::F_SIZE || o.f.kind == rt::F_BUDGET) { o.f.kind = rt::F_NTH; o.f.a = 1; } });
        tryop([](Op& o) { if (o.a[1] > 1 && o.code != O_RGPADD) o.a[1] /= 2; });
        tryop([](Op& o) { if (o.code == O_RAD || o.code == O_UGRID || o.code == O_USPEC || (o.code == O_PRIM && o.a[0] < 11)) { if (o.a[1] > 1) o.a[1]--; } });
        tryop([](Op& o) { static const int64_t m[4] = {72, 14, 6, 3}; if (o.code == O_ANG || o.code == O_UGRID || o.code == O_USPEC) o.a[3] = m[o.a[2] & 3]; });
        tryop([](Op& o) { static const int64_t m[4] = {72, 14, 6, 3}; if (o.code == O_PRIM && o.a[0] >= 11) o.a[1] = m[(o.a[0] - 11) & 3]; });
        tryop([](Op& o) { if (o.code == O_UGRID || o.code == O_USPEC || o.code == O_ANG) { o.a[2] = 2; o.a[3] = 6; } });
        tryop([](Op& o) { if (o.code != O_RECENTER && o.code != O_TGRID && o.code != O_TPGRID && o.code != O_EDITP) { o.d[0] = 1; } });
        tryop([](Op& o) { if (o.code == O_RECENTER || o.code == O_TGRID || o.code == O_TPGRID) { o.d[0] = 1; o.d[1] = o.d[2] = 0; } });
        tryop([](Op& o) { if (o.code == O_PGRID || o.code == O_PSPECV) if (o.v.size() > 4) { int64_t en = o.v[o.v.size() - 3]; o.v.resize(o.v.size() - 4); o.v[o.v.size() - 3] = en; } });
        tryop([](Op& o) { if (o.task >= 1 && o.task < 8) o.task--; });
      }
      auto tryenv = [&](auto f) { Plan p = best; string b = plan_text(p, nullptr); f(p.env); if (b == plan_text(p, nullptr)) return; if (attempt(p, 0)) again = true; };
      tryenv([](rt::Env& e) { e.clock = 0; }); tryenv([](rt::Env& e) { e.reuse = 0; }); tryenv([](rt::Env& e) { e.fill = rt::FILL_ZERO; }); tryenv([](rt::Env& e) { e.derived_exc = 0; }); tryenv([](rt::Env& e) { e.fpu = 0; });
      for (int k = 0; k < 8; k++) tryenv([](rt::Env& e) { if (e.rounds > 8) e.rounds = std::max(8, e.rounds / 2); });
    }
    if (multi(best) && best.env.strat == rt::ST_REPLAY) // drop context switches
      for (size_t chunk = std::max<size_t>(1, best.sched.size() / 2); chunk >= 1 && now_s() < end; chunk /= 2) {
        for (size_t i = best.sched.size(); i > 0 && now_s() < end;) {
          size_t lo = i > chunk ? i - chunk : 0; Plan p = best; p.sched.erase(p.sched.begin() + lo, p.sched.begin() + i);
          tries++; Out o = run_plan(p); if (same(o)) { best = p; out = o; if (best.sched.size() > o.sched.size()) best.sched = o.sched; }
          i = std::min(lo, best.sched.size());
        }
        if (chunk == 1) break;
      }
  }
};

static const char* stat_names[] = {"steps", "ops", "ops_ok", "ops_failed", "ops_skipped", "allocations", "oom_nth", "oom_from", "oom_size", "oom_prob", "switches", "preemptions", "clock_reads", "clock_jumps", "log_bytes", "log_faults", "locale_changes", "bad_requests", "recycled_blocks", "race_checks", "shared_accesses", "sync_ops", "threads", "checks", "sim_ns", "fpu_ops", "surroundings_read", "client_exceptions", "oom_budget"};

static int cmd_replay(const string& file) {
  std::ifstream f(file); std::stringstream ss; ss << f.rdbuf(); Plan p; string cls; uint64_t h = 0;
  if (!f || !parse_plan(ss.str(), p, cls, h)) { fprintf(stderr, "cannot read replay file %s\n", file.c_str()); return 2; }
  Out o = run_plan(p);
  printf("expected class: %s\n", cls.c_str());
  if (o.status == 2) printf("observed class: %s\nproperty C%02d\n%s\nhash %016" PRIx64 " (recorded %016" PRIx64 ")\n", o.cls.c_str(), p.prop, o.detail.c_str(), o.hash, h);
  else printf("observed class: none (status %d %s)\n", o.status, o.cls.c_str());
  if (o.status == 2 && o.cls == cls && o.hash == h) { printf("REPRODUCED\n"); return 1; }
  if (o.status == 2) { printf("DIFFERENT\n"); return 3; }
  printf("NOT REPRODUCED\n"); return 0;
}

static int cmd_digest(const string& file) { // results of every operation, for comparing builds
  std::ifstream f(file); std::stringstream ss; ss << f.rdbuf(); Plan p; string cls; uint64_t h = 0;
  if (!f || !parse_plan(ss.str(), p, cls, h)) return 2;
  p.twin = 0; Out o = run_plan(p); printf("status %d\n", o.status);
  for (size_t i = 0; i < p.ops.size() && i < 512; i++) printf("%zu %s %016" PRIx64 "\n", i, code_name[p.ops[i].code], o.opdig[i]);
  return 0;
}

static int sim_main(int argc, char** argv);
static int g_argc = 0; static char** g_argv = nullptr;
__attribute__((constructor(101))) static void grab(int argc, char** argv, char**) { g_argc = argc; g_argv = argv; }
void sim_early_hook() { // before main(), before the library's static objects
  for (int i = 1; i < g_argc; i++) if (!strcmp(g_argv[i], "--early")) { sim_early = true; sim_variant = "early"; exit(sim_main(g_argc, g_argv)); }
}
int main(int argc, char** argv) { return sim_main(argc, argv); }
static int sim_main(int argc, char** argv) {
  rt::startup_ends();
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  unsetenv("SIM_NO_REEXEC");
  std::map<string, string> a;
  for (int i = 1; i < argc; i++) { string s = argv[i]; if (s.rfind("--", 0) == 0) { size_t e = s.find('='); if (e == string::npos) a[s.substr(2)] = "1"; else a[s.substr(2, e - 2)] = s.substr(e + 1); } }
  rt::init_process();
  signal(SIGPIPE, SIG_IGN);
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr); signal(SIGCHLD, [](int) {});
  if (a.count("cpu")) g_cpu = atoi(a["cpu"].c_str());
  if (a.count("digest")) return cmd_digest(a["digest"]);
  if (a.count("replay")) return cmd_replay(a["replay"]);
  int prop = atoi(a["prop"].c_str()); uint64_t start = strtoull(a["start"].c_str(), 0, 10), stride = a.count("stride") ? strtoull(a["stride"].c_str(), 0, 10) : 1, count = a.count("count") ? strtoull(a["count"].c_str(), 0, 10) : ~0ull;
  double tlim = a.count("time") ? atof(a["time"].c_str()) : 1e9;
  string variant = sim_variant, outdir = a.count("out") ? a["out"] : ".";
  if (a.count("plan")) { Plan p = generate(prop, start, variant); printf("%s", plan_text(p, nullptr).c_str()); return 0; }
  if (a.count("show")) { Plan p = generate(prop, start, variant); Out o = run_plan(p); p.sched = o.sched; printf("%s", plan_text(p, &o).c_str()); printf("status %d %s | %s\n", o.status, o.cls.c_str(), o.detail.c_str()); for (int i = 0; i < rt::S_P0; i++) printf("%s=%" PRIu64 " ", stat_names[i], o.stat[i]); printf("\n"); return 0; }
  double t0 = now_s(); uint64_t tot[rt::S_N] = {0}; uint64_t seeds = 0, foreign = 0, nontriv = 0, maxsteps = 0; std::map<string, uint64_t> fcls;
  std::unordered_set<uint64_t> hashes, scheds; FILE* hf = a.count("hashes") ? fopen(a["hashes"].c_str(), "w") : nullptr;
  std::map<string, uint64_t> codes; string samples; int nsamples = 0; uint64_t slowest = 0; double slow_t = 0;
  string viol; int rc = 0;
  bool survey = a.count("survey");
  for (uint64_t k = 0; k < count && now_s() - t0 < tlim; k++) {
    uint64_t seed = start + k * stride;
    double t1 = now_s();
    Plan p = generate(prop, seed, variant);
    Out o = run_plan(p);
    double dt = now_s() - t1; if (dt > slow_t) { slow_t = dt; slowest = seed; }
    seeds++;
    for (int i = 0; i < rt::S_N; i++) tot[i] += o.stat[i];
    for (auto& q : p.ops) codes[code_name[q.code]]++;
    maxsteps = std::max(maxsteps, o.opsteps_max);
    bool nt = o.stat[rt::S_OPS_OK] >= 2 && o.stat[rt::S_CHECKS] > 0; // at least two completed operations and one oracle evaluated
    bool fresh = hashes.insert(o.hash).second; if (o.stat[rt::S_SWITCH]) scheds.insert(o.sched_hash);
    if (nt && fresh) nontriv++;
    if (hf) { uint64_t dg = 1; bool fl = false; for (int i = 0; i < 512; i++) dg = (dg ^ o.opdig[i]) * 0x9E3779B97F4A7C15ull; for (auto& q : p.ops) fl |= q.f.kind != rt::F_NONE || q.sweep || (q.code == O_LOG && q.a[0] % 4 >= 2);
      fprintf(hf, "%" PRIu64 " %016" PRIx64 " %016" PRIx64 " %d %d %016" PRIx64 " %d\n", seed, o.hash, o.sched_hash, o.status, (int)nt, dg, (int)fl); }
    if (nt && o.status == 1 && nsamples < 1) { nsamples++; samples = plan_text(p, nullptr); if (samples.size() > 3000) { samples.resize(3000); samples += " ..."; } }
    if (o.status == 4) { foreign++; fcls[o.cls]++; if (survey) printf("foreign seed %" PRIu64 " %s\n", seed, o.cls.c_str()); }
    if (o.status == 2) {
      if (survey) { printf("seed %" PRIu64 " %s | %s\n", seed, o.cls.c_str(), o.detail.c_str()); fcls["V:" + o.cls]++; continue; }
      Out g = run_plan(p); // determinism gate
      if (g.status != 2 || g.cls != o.cls || g.hash != o.hash) {
        viol = sf("{\"unreproducible\":true,\"seed\":%" PRIu64 ",\"class\":%s,\"second\":%s,\"detail\":%s}", seed, jstr(o.cls).c_str(), jstr(g.status == 2 ? g.cls : "none").c_str(), jstr(o.detail).c_str()); rc = 2; break;
      }
      Mini m; m.cls = o.cls; m.best = p; m.out = o; m.end = now_s() + (a.count("mintime") ? atof(a["mintime"].c_str()) : 25);
      int cpu0 = g_cpu; if (o.cls == "hang") g_cpu = 15;
      if (multi(p) && !o.overflow) { Plan q = p; q.env.strat = rt::ST_REPLAY; q.sched = o.sched; Out z = run_plan(q); if (m.same(z)) { m.best = q; m.out = z; } }
      m.go(); g_cpu = cpu0;
      Out fin = run_plan(m.best); if (fin.status == 2 && fin.cls == o.cls) m.out = fin; else { m.best = p; m.out = o; }
      string file = outdir + sf("/C%02d-%s%s%s-%" PRIu64 ".replay", prop, variant.c_str(), getenv("SIM_STARTUP") ? "-s" : "", getenv("SIM_STARTUP") ? getenv("SIM_STARTUP") : "", seed);
      std::ofstream(file) << plan_text(m.best, &m.out);
      // a fresh process must reproduce it
      fflush(stdout); pid_t pid = fork(); int st = 0;
      if (pid == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); string rp = "--replay=" + file; execl("/proc/self/exe", "sim", rp.c_str(), sim_early ? "--early" : (char*)nullptr, (char*)nullptr); _exit(98); }
      waitpid(pid, &st, 0);
      bool rep = WIFEXITED(st) && WEXITSTATUS(st) == 1;
      viol = sf("{\"seed\":%" PRIu64 ",\"class\":%s,\"detail\":%s,\"replay\":%s,\"reproduced\":%s,\"ops\":%zu,\"ops_original\":%zu,\"switches\":%zu,\"tries\":%" PRIu64 "}", seed, jstr(m.out.cls).c_str(), jstr(m.out.detail).c_str(), jstr(file).c_str(), rep ? "true" : "false", m.best.ops.size(), p.ops.size(), m.best.sched.size(), m.tries);
      rc = rep ? 1 : 2;
      break;
    }
  }
  if (hf) fclose(hf);
  string js = sf("{\"prop\":%d,\"variant\":%s,\"seeds\":%" PRIu64 ",\"executions\":%" PRIu64 ",\"foreign\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"distinct_traces\":%zu,\"distinct_schedules\":%zu,\"max_op_steps\":%" PRIu64 ",\"wall\":%.3f,\"slowest_seed\":%" PRIu64 ",\"slowest_s\":%.3f,\"twin_runs\":%" PRIu64 ",\"stats\":{", prop, jstr(variant).c_str(), seeds, g_runs, foreign, nontriv, hashes.size(), scheds.size(), maxsteps, now_s() - t0, slowest, slow_t, g_twins);
  for (int i = 0; i < rt::S_P0; i++) js += sf("%s\"%s\":%" PRIu64, i ? "," : "", stat_names[i], tot[i]);
  js += ",\"probes\":["; for (int i = rt::S_P0; i < rt::S_PEND; i++) js += sf("%s%" PRIu64, i > rt::S_P0 ? "," : "", tot[i]);
  js += "]},\"ops\":{"; bool f1 = true; for (auto& c : codes) { js += sf("%s\"%s\":%" PRIu64, f1 ? "" : ",", c.first.c_str(), c.second); f1 = false; }
  js += "},\"foreign_classes\":{"; f1 = true; for (auto& c : fcls) { js += sf("%s%s:%" PRIu64, f1 ? "" : ",", jstr(c.first).c_str(), c.second); f1 = false; }
  js += "},\"sample\":" + jstr(samples) + ",\"violation\":" + (viol.empty() ? "null" : viol) + "}\n";
  if (a.count("json")) std::ofstream(a["json"]) << js; else printf("%s", js.c_str());
  return rc;
}
