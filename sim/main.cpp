// Driver: seeded search over simulated runs, minimisation, replay, statistics.
//   sim search --prop C01 --seed S --runs N --wall SECONDS --workers W --out RESULT.json --replay-dir DIR
//   sim replay FILE
//   sim determinism --prop C01 --seed S --runs N
#include "gen.h"
#include "model.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + t.tv_nsec / 1e9; }
static const int WALL_PER_RUN = 120;

static std::string clean(const char* s) { std::string o; for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == 10) o += "\\n"; else o += c < 32 || c > 126 ? '?' : char(c); } return o; }
struct Result { std::string cls, detail; uint64_t hash = 0; bool skipped = false, filtered = false; uint32_t uid = 0; };

struct Engine {
  RunLog* log; std::map<std::string, Expected> memo; uint64_t alone_runs = 0, model_checks = 0, model_opinions = 0;
  Engine() { log = (RunLog*)mmap(nullptr, sizeof(RunLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (log == MAP_FAILED) { perror("mmap"); exit(2); } }

  template <class F> int child(F f) {          // returns wait status
    log->reset(); fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(WALL_PER_RUN); if (!getenv("SIM_VERBOSE") && !freopen("/dev/null", "w", stderr)) {} f(); _exit(0); }
    int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(2); }
    return st;
  }
  static std::string key(const CallDesc& d) { char b[128]; snprintf(b, sizeof b, "%d/%d,%d/%u,%u/%d,%d,%d/%d/%d", d.op, d.kind[0], d.kind[1], d.vseed[0], d.vseed[1], d.p[0], d.p[1], d.p[2], d.round, d.cat); return b; }
  static std::string death(int st) { if (WIFSIGNALED(st)) return std::string("killed by signal ") + strsignal(WTERMSIG(st)); return "ended unexpectedly with status " + std::to_string(WEXITSTATUS(st)); }
  const Expected& alone(const CallDesc& d0) {
    std::string k = key(d0); auto it = memo.find(k); if (it != memo.end()) return it->second;
    if (memo.size() > 200000) memo.clear();
    CallDesc d = d0; d.salt = 0x5a17; d.uid = 1; Expected& e = memo[k]; alone_runs++;
    int st = child([&] { exec_alone(d, nullptr, log); });
    if (log->violated) { e.ok = false; e.why = std::string(log->cls) + "|" + clean(log->detail); return e; }
    if (!log->finished) {
      if (WIFEXITED(st) && WEXITSTATUS(st) >= 77 && WEXITSTATUS(st) <= 79) { fprintf(stderr, "simulator error %d\n", WEXITSTATUS(st)); exit(2); }
      e.ok = false; e.sig = st; e.why = (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ? "hang|the call does not end" : "process-terminated|the process was " + death(st); return e; }
    e.ok = true; e.st = Outcome(log->st); e.bytes.assign((char*)log->bytes, log->len); e.steps = log->a_steps; e.elem = log->a_elem; e.allocs = log->a_allocs; e.dev = log->a_dev; e.outstanding = log->a_out;
    for (uint32_t i = 0; i < log->nhot && i < 64; i++) e.hot.push_back(log->hotsteps[i]);
    for (uint32_t i = 0; i < log->ndev; i++) e.text += log->dev[i].c;
    return e;
  }
  std::map<std::string, std::string> mmemo;
  const std::string& model(const std::string& prop, const CallDesc& d, const Expected& e) {
    std::string k = key(d) + prop; auto it = mmemo.find(k); if (it != mmemo.end()) return it->second;
    if (mmemo.size() > 200000) mmemo.clear();
    bool had; model_checks++; std::string& s = mmemo[k]; s = model_check(g_ops[d.op], d, e, prop == "C07", &had); if (had) model_opinions++; return s;
  }
  Result run(const Plan& p) {
    Result R; std::map<uint32_t, Expected> ex; bool deadcall = false; uint64_t text = 0;
    auto prep = [&](const CallDesc& d) {
      if (d.role != R_CALL || !R.cls.empty()) return;
      const Expected& e = alone(d); const OpInfo& o = g_ops[d.op];
      if (!e.ok) {
        std::string cls = e.why.substr(0, e.why.find('|')), why = e.why.substr(e.why.find('|') + 1);
        // "same outcome as alone", "operand unchanged" and "this exception passes through" say nothing about a call that cannot even be made alone
        if (p.prop == "C02" || p.prop == "C03" || (p.prop == "C04" && cls != "element-lifetime") || p.prop == "C11" || p.prop == "C12" || !judged(p.prop, cls.c_str())) { deadcall = true; return; }
        R.cls = cls; R.detail = desc_str(d) + " as the only call of a process: " + why; R.uid = d.uid; return;
      }
      if (p.prop == "C01" || p.prop == "C06" || p.prop == "C07") { const std::string& m = model(p.prop, d, e); if (!m.empty()) { R.cls = "model"; R.detail = desc_str(d) + " as the only call of a process: " + m; R.uid = d.uid; return; } }
      Expected& x = ex[d.uid]; x.ok = true; x.st = e.st; x.bytes = e.bytes;
      x.text = (o.flags & F_PRINT) ? (p.prop == "C08" ? format_matrix(o, d, p) : e.text) : ""; text += uint64_t(x.text.size()) * (d.rep ? d.rep : 1);
    };
    for (auto& t : p.tasks) for (auto& d : t) prep(d);
    for (auto& d : p.aux) prep(d);
    if (!R.cls.empty()) { log->reset(); for (char c : R.detail) R.hash = mix(R.hash, uint8_t(c)); return R; }
    if (deadcall || p.tasks.empty() || text > DEVCAP / 2)   // the device would not hold the text
    { log->reset(); R.skipped = true; return R; }
    int st = child([&] { exec_plan(p, ex, log); });
    R.hash = log->hash; R.filtered = log->filtered;
    if (log->violated) { R.cls = log->cls; R.detail = clean(log->detail); R.uid = log->v_uid; }
    else if (!log->finished) {
      if (WIFEXITED(st) && WEXITSTATUS(st) >= 77 && WEXITSTATUS(st) <= 79) { fprintf(stderr, "simulator error %d\n", WEXITSTATUS(st)); exit(2); }
      bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM; const char* cls = hang ? "hang" : "process-terminated";
      bool fault_fired = log->fired[FK_THROW] || log->fired[FK_ALLOC] || log->fired[FK_ALLOC_FROM] || log->fired[FK_ALLOC_RATE];
      if (!judged(p.prop, cls) || (fault_fired && (p.prop == "C02" || p.prop == "C10" || p.prop == "C11" || p.prop == "C12"))) R.filtered = true;
      else { R.cls = cls; R.detail = "the process was " + death(st) + " while task " + std::to_string(log->cur_task) + " ran call " + std::to_string(log->cur_uid); R.uid = log->cur_uid; for (auto& t : p.tasks) for (auto& d : t) if (d.uid == R.uid) R.detail += ": " + desc_str(d); for (auto& d : p.aux) if (d.uid == R.uid) R.detail += ": " + desc_str(d); }
    }
    return R;
  }
};

// ---------------------------------------------------------------- replay files
static void write_plan(const Plan& p, const Result& r, const std::string& file) {
  std::ofstream o(file);
  o << "# MatrixLibs simulation replay. Replay: python3 tools/check.py --replay <this file>\n";
  o << "property " << p.prop << "\nseed " << p.seed << "\n# violation " << r.cls << ": " << r.detail << "\n";
  o << "class " << r.cls << "\nhash " << r.hash << "\n";
  o << "flags " << p.race << p.opwrite << p.balance << p.noheap << p.footprint << p.bycols << p.fpenv << p.bound << p.sharedbufs << "\n";
  o << "stream " << p.prec << " " << p.fmt << " " << p.mask << " " << p.fillc << "\n";
  o << "sched " << int(p.sched.policy) << " " << p.sched.cold << " " << p.sched.elem << " " << p.sched.hot << " " << p.sched.changes << " " << p.sched.span << " " << p.sched.replay << "\n";
  for (auto& e : p.pool) o << "pool " << type_name[e.type] << " " << e.sh.r << " " << e.sh.c << " " << kind_name[e.kind] << " " << e.vseed << " " << e.mut << "\n";
  auto call = [&](const char* w, int t, const CallDesc& d) { o << w << " " << t << " " << d.uid << " " << g_ops[d.op].name << " " << int(d.role) << " " << int(d.ctx) << " " << kind_name[d.kind[0]] << " " << kind_name[d.kind[1]] << " " << d.vseed[0] << " " << d.vseed[1] << " " << d.p[0] << " " << d.p[1] << " " << d.p[2] << " " << d.place[0] << " " << d.place[1] << " " << d.salt << " " << d.rep << " " << int(d.round) << " " << int(d.cat) << "\n"; };
  o << "tasks " << p.tasks.size() << "\n";
  for (size_t t = 0; t < p.tasks.size(); t++) for (auto& d : p.tasks[t]) call("call", int(t), d);
  for (auto& d : p.aux) call("aux", 0, d);
  for (auto& f : p.faults) o << "fault " << f.uid << " " << fault_name[f.kind] << " " << f.k << " " << f.arg << "\n";
  if (p.sched.replay) for (auto& s : p.switches) o << "switch " << int(s.task) << " " << s.uid << " " << s.step << " " << int(s.to) << " " << int(s.forced) << "\n";
}
static bool read_plan(const std::string& file, Plan& p, std::string& cls, uint64_t& hash) {
  std::ifstream in(file); if (!in) { fprintf(stderr, "cannot read %s\n", file.c_str()); return false; }
  std::string line; auto idx = [](const std::string& s, const char* const* tab, int n) { for (int i = 0; i < n; i++) if (s == tab[i]) return i; return -1; };
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream s(line); std::string w; s >> w;
    if (w == "property") s >> p.prop; else if (w == "seed") s >> p.seed; else if (w == "class") s >> cls; else if (w == "hash") s >> hash;
    else if (w == "flags") { std::string f; s >> f; bool* b[] = {&p.race, &p.opwrite, &p.balance, &p.noheap, &p.footprint, &p.bycols, &p.fpenv, &p.bound, &p.sharedbufs}; for (size_t i = 0; i < 9 && i < f.size(); i++) *b[i] = f[i] == '1'; }
    else if (w == "stream") s >> p.prec >> p.fmt >> p.mask >> p.fillc;
    else if (w == "sched") { int pol; s >> pol >> p.sched.cold >> p.sched.elem >> p.sched.hot >> p.sched.changes >> p.sched.span >> p.sched.replay; p.sched.policy = uint8_t(pol); }
    else if (w == "pool") { std::string t, k; PoolEnt e; int r, c; s >> t >> r >> c >> k >> e.vseed >> e.mut; e.sh = Shape{uint16_t(r), uint16_t(c)}; e.type = Type(idx(t, type_name, T_NTYPES)); e.kind = uint8_t(idx(k, kind_name, K_NKINDS)); p.pool.push_back(e); }
    else if (w == "tasks") { size_t n; s >> n; p.tasks.resize(n); }
    else if (w == "call" || w == "aux") {
      CallDesc d; int t, role, ctx, round = 0, cat = 0; std::string name, k0, k1; s >> t >> d.uid >> name >> role >> ctx >> k0 >> k1 >> d.vseed[0] >> d.vseed[1] >> d.p[0] >> d.p[1] >> d.p[2] >> d.place[0] >> d.place[1] >> d.salt >> d.rep >> round >> cat; d.round = uint8_t(round); d.cat = uint8_t(cat);
      d.role = Role(role); d.ctx = Ctx(ctx); d.kind[0] = uint8_t(idx(k0, kind_name, K_NKINDS)); d.kind[1] = uint8_t(idx(k1, kind_name, K_NKINDS));
      for (size_t i = 0; i < g_ops.size(); i++) if (name == g_ops[i].name) d.op = int(i);
      if (d.op < 0) { fprintf(stderr, "unknown operation %s\n", name.c_str()); return false; }
      if (w == "aux") p.aux.push_back(d); else p.tasks.at(t).push_back(d);
    }
    else if (w == "fault") { Fault f; std::string k; s >> f.uid >> k >> f.k >> f.arg; f.kind = FaultKind(idx(k, fault_name, FK_N)); p.faults.push_back(f); }
    else if (w == "switch") { Switch x; int a, b, c; s >> a >> x.uid >> x.step >> b >> c; x.task = uint8_t(a); x.to = uint8_t(b); x.forced = uint8_t(c); p.switches.push_back(x); }
  }
  return true;
}

// ---------------------------------------------------------------- minimisation
static void prune(Plan& p) {   // faults and nested calls whose call is gone
  bool again = true;
  while (again) {
    again = false; std::set<uint32_t> live; for (auto& t : p.tasks) for (auto& d : t) live.insert(d.uid);
    std::set<uint32_t> used; for (auto& f : p.faults) if (f.kind == FK_NEST || f.kind == FK_HOLD) used.insert(f.arg);
    size_t n = p.aux.size(); p.aux.erase(std::remove_if(p.aux.begin(), p.aux.end(), [&](const CallDesc& d) { return !used.count(d.uid); }), p.aux.end()); if (p.aux.size() != n) again = true;
    for (auto& d : p.aux) live.insert(d.uid);
    n = p.faults.size(); p.faults.erase(std::remove_if(p.faults.begin(), p.faults.end(), [&](const Fault& f) { return !live.count(f.uid); }), p.faults.end()); if (p.faults.size() != n) again = true;
  }
}
static Plan minimise(Engine& E, Plan p, const std::string& cls, double budget, int& tried) {
  double t0 = now_s(); tried = 0;
  auto fails = [&](const Plan& q) { if (tried >= 600 || now_s() - t0 > budget) return false; tried++; return E.run(q).cls == cls; };
  auto fewer = [&](auto& vec_of, Plan& cur) {   // ddmin over a vector inside the plan
    for (size_t chunk = std::max<size_t>(1, vec_of(cur).size() / 2);; chunk /= 2) {
      for (size_t i = 0; i < vec_of(cur).size();) {
        Plan q = cur; auto& v = vec_of(q); v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + chunk)); prune(q);
        if (fails(q)) cur = q; else i += chunk;
      }
      if (chunk <= 1) break;
    }
  };
  Plan q = p; bool changed = true; int rounds = 0;
  while (changed && rounds++ < 3) {
    size_t before = q.faults.size() + q.switches.size(); for (auto& t : q.tasks) before += t.size();
    for (size_t t = 0; t < q.tasks.size(); t++) if (!q.tasks[t].empty()) { Plan x = q; x.tasks[t].clear(); prune(x); if (fails(x)) q = x; }
    for (size_t t = 0; t < q.tasks.size(); t++) { auto get = [t](Plan& x) -> std::vector<CallDesc>& { return x.tasks[t]; }; fewer(get, q); }
    { auto get = [](Plan& x) -> std::vector<Fault>& { return x.faults; }; fewer(get, q); }
    { auto get = [](Plan& x) -> std::vector<Switch>& { return x.switches; }; if (q.sched.replay) fewer(get, q); }
    for (size_t t = 0; t < q.tasks.size(); t++) for (size_t i = 0; i < q.tasks[t].size(); i++) {
      for (int s = 0; s < 2; s++) if (q.tasks[t][i].vseed[s] > 1 && q.tasks[t][i].place[s] < 0) { Plan x = q; x.tasks[t][i].vseed[s] = 1; if (fails(x)) q = x; }
      while (q.tasks[t][i].rep > 1) { Plan x = q; x.tasks[t][i].rep /= 2; if (fails(x)) q = x; else break; }
      if (q.tasks[t][i].cat) { Plan x = q; x.tasks[t][i].cat = 0; if (fails(x)) q = x; }
      if (q.tasks[t][i].round) { Plan x = q; x.tasks[t][i].round = 0; if (fails(x)) q = x; }
      if (q.tasks[t][i].ctx) { Plan x = q; x.tasks[t][i].ctx = CTX_PLAIN; if (fails(x)) q = x; }
    }
    size_t after = q.faults.size() + q.switches.size(); for (auto& t : q.tasks) after += t.size(); changed = after < before;
  }
  while (q.tasks.size() > 1 && q.tasks.back().empty()) { Plan x = q; x.tasks.pop_back(); if (fails(x)) q = x; else break; }
  return q;
}

// ---------------------------------------------------------------- search
struct Shared {                      // between the workers
  volatile uint64_t next, stop_at, done;
};
struct Stats {
  uint64_t runs = 0, nontrivial = 0, skipped = 0, filtered = 0, steps = 0, switches = 0, preempt = 0, calls = 0, calls_ok = 0, calls_err = 0, elem = 0, allocs = 0, dev = 0, hot = 0, sync = 0, fired[FK_N] = {0}, overlap2 = 0, overlap3 = 0, alone = 0, model_checks = 0, model_opinions = 0, rechecks = 0, nondet = 0, tasks = 0, crashes = 0, maxdepth = 0, stalled = 0;
  void add(const Stats& o) { uint64_t* a = (uint64_t*)this; const uint64_t* b = (const uint64_t*)&o; for (size_t i = 0; i < sizeof(*this) / 8; i++) if (&a[i] != &maxdepth) a[i] += b[i]; maxdepth = std::max(maxdepth, o.maxdepth); }
};
static uint64_t run_seed(uint64_t seed, const std::string& prop, uint64_t i) { uint64_t h = seed; for (char c : prop) h = mix(h, uint8_t(c)); return mix(h, i); }
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string plan_brief(const Plan& p) {
  std::ostringstream o; o << "seed " << p.seed << ": " << p.tasks.size() << " caller thread(s), policy " << int(p.sched.policy);
  int n = 0; for (size_t t = 0; t < p.tasks.size(); t++) for (auto& d : p.tasks[t]) if (n++ < 4) o << "; t" << t << " " << (d.role == R_POKE ? "overwrite line" : g_ops[d.op].name) << "(" << kind_name[d.kind[0]] << "#" << d.vseed[0] << ")";
  if (n > 4) o << "; ... " << n << " calls in all";
  n = 0; for (auto& f : p.faults) if (n++ < 3) o << "; fault " << fault_name[f.kind] << " at " << f.k << " of call " << f.uid;
  if (n > 3) o << "; ... " << n << " faults in all";
  return o.str();
}

struct Args { std::string cmd, prop, out, dir = ".", file; uint64_t seed = 1, runs = 1000; double wall = 60; int workers = 8; bool verbose = false; };

static int search(const Args& A, const char* self) {
  double t0 = now_s();
  Shared* S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); S->next = 0; S->stop_at = ~0ull;
  std::vector<int> fds; std::vector<pid_t> pids;
  for (int w = 0; w < A.workers; w++) {
    int pp[2]; if (pipe(pp)) { perror("pipe"); return 2; }
    fflush(nullptr); pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (!pid) {
      close(pp[0]); prctl(PR_SET_PDEATHSIG, SIGKILL);
      cpu_set_t cs; CPU_ZERO(&cs); cpu_set_t have; if (!sched_getaffinity(0, sizeof have, &have)) { int n = CPU_COUNT(&have), want = w % n, k = 0; for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &have) && k++ == want) CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); }
      Engine E; Stats T; std::set<uint64_t> inter, states; std::vector<std::string> samples; std::string bad; FILE* out = fdopen(pp[1], "w");
      for (;;) {
        uint64_t i = __sync_fetch_and_add(&S->next, 1);
        if (i >= A.runs || i > S->stop_at || now_s() - t0 > A.wall) break;
        Plan p = make_plan(A.prop, run_seed(A.seed, A.prop, i), i, [&](const CallDesc& d) -> const Expected& { return E.alone(d); });
        Result r = E.run(p); RunLog* L = E.log;
        T.runs++; T.skipped += r.skipped; T.filtered += r.filtered; T.steps += L->steps; T.switches += L->nswitch; T.preempt += L->preempt; T.calls += L->calls; T.calls_ok += L->calls_ok; T.calls_err += L->calls_err; T.elem += L->elem_ops; T.allocs += L->allocs; T.dev += L->dev_events; T.hot += L->hot; T.sync += L->sync_ops; T.tasks += p.tasks.size(); T.crashes += L->crashed; T.maxdepth = std::max(T.maxdepth, L->maxdepth); T.stalled += L->stalled;
        bool faulted = false; for (int k = 0; k < FK_N; k++) { T.fired[k] += L->fired[k]; faulted |= L->fired[k] > 0; }
        T.overlap2 += L->probes[0] > 0; T.overlap3 += L->probes[1] > 0;
        bool nontrivial = !r.skipped && (L->preempt > 0 || faulted || L->calls > 1);
        if (nontrivial) { if (states.insert(r.hash).second) T.nontrivial++; if (L->nswitch) inter.insert(L->sched_hash); }
        if (samples.size() < 2 && nontrivial && (faulted || L->preempt)) samples.push_back(plan_brief(p) + " -> " + std::to_string(L->nswitch) + " switches, " + std::to_string(L->steps) + " steps, held");
        if (!r.cls.empty()) {
          uint64_t s; while (i < (s = S->stop_at) && !__sync_bool_compare_and_swap(&S->stop_at, s, i)) {}
          bad = std::to_string(i) + "\t" + r.cls + "\t" + r.detail; fprintf(out, "BAD\t%s\n", bad.c_str()); break;
        }
        if (i % 64 == 3 && !r.skipped) { T.rechecks++; Result r2 = E.run(p); if (r2.hash != r.hash || r2.cls != r.cls) { T.nondet++; fprintf(out, "NONDET\t%llu\n", (unsigned long long)i); } }
      }
      T.alone = E.alone_runs; T.model_checks = E.model_checks; T.model_opinions = E.model_opinions;
      fprintf(out, "STATS"); for (size_t k = 0; k < sizeof(T) / 8; k++) fprintf(out, "\t%llu", (unsigned long long)((uint64_t*)&T)[k]); fprintf(out, "\n");
      fprintf(out, "INTER"); for (auto h : inter) fprintf(out, "\t%llx", (unsigned long long)h); fprintf(out, "\n");
      for (auto& s : samples) fprintf(out, "SAMPLE\t%s\n", s.c_str());
      fprintf(out, "END\n"); fclose(out); _exit(0);
    }
    close(pp[1]); fds.push_back(pp[0]); pids.push_back(pid);
  }
  Stats T; std::set<std::string> inter; std::vector<std::string> samples; std::map<uint64_t, std::pair<std::string, std::string>> bad; bool lost = false;
  for (size_t w = 0; w < fds.size(); w++) {
    FILE* f = fdopen(fds[w], "r"); char* line = nullptr; size_t cap = 0; ssize_t n; bool end = false;
    while ((n = getline(&line, &cap, f)) > 0) {
      std::string s(line, n); if (s.back() == '\n') s.pop_back();
      std::vector<std::string> v; size_t a = 0; for (;;) { size_t b = s.find('\t', a); v.push_back(s.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
      if (v[0] == "STATS") { Stats x; for (size_t k = 0; k < sizeof(x) / 8 && k + 1 < v.size(); k++) ((uint64_t*)&x)[k] = strtoull(v[k + 1].c_str(), nullptr, 10); T.add(x); }
      else if (v[0] == "INTER") inter.insert(v.begin() + 1, v.end());
      else if (v[0] == "SAMPLE") { if (samples.size() < 6) samples.push_back(v[1]); }
      else if (v[0] == "BAD") bad[strtoull(v[1].c_str(), nullptr, 10)] = {v[2], v.size() > 3 ? v[3] : ""};
      else if (v[0] == "NONDET") fprintf(stderr, "run %s is not deterministic\n", v[1].c_str());
      else if (v[0] == "END") end = true;
    }
    free(line); fclose(f); int st; waitpid(pids[w], &st, 0); if (!end) lost = true;
  }
  double searched = now_s() - t0;
  int rc = 0; std::string vline, vcls, vdetail; int tried = 0;
  if (lost) { fprintf(stderr, "a worker died\n"); rc = 2; }
  if (bad.empty() && T.nondet) { fprintf(stderr, "%llu runs were not deterministic\n", (unsigned long long)T.nondet); rc = 2; }
  if (!bad.empty()) {
    rc = 2; Engine E;
    for (auto& b : bad) {
      Plan p = make_plan(A.prop, run_seed(A.seed, A.prop, b.first), b.first, [&](const CallDesc& d) -> const Expected& { return E.alone(d); });
      Result r0 = E.run(p); if (r0.cls.empty()) { fprintf(stderr, "run %llu failed in a worker (%s: %s) but not again\n", (unsigned long long)b.first, b.second.first.c_str(), b.second.second.c_str()); continue; }
      Plan rec = p; rec.sched.replay = true; rec.switches.assign(E.log->sw, E.log->sw + E.log->nsw);
      std::vector<Plan> cand;
      if (E.run(rec).cls == r0.cls) cand.push_back(minimise(E, rec, r0.cls, 25, tried));
      cand.push_back(p);
      for (Plan& c : cand) {
        Result a = E.run(c), a2 = E.run(c); if (a.cls.empty() || a.cls != a2.cls || a.hash != a2.hash) { fprintf(stderr, "candidate not repeatable: %s/%s %llx/%llx\n", a.cls.c_str(), a2.cls.c_str(), (unsigned long long)a.hash, (unsigned long long)a2.hash); continue; }
        std::string file = A.dir + "/" + A.prop + "-" + std::to_string(A.seed) + "-" + std::to_string(b.first) + ".replay"; write_plan(c, a, file);
        fflush(nullptr); pid_t pid = fork(); if (!pid) { if (!freopen("/dev/null", "w", stdout)) {} execl(self, self, "replay", file.c_str(), (char*)nullptr); _exit(99); }
        int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "fresh-process replay of %s does not reproduce (status %x)\n", file.c_str(), st); continue; }
        vline = "VIOLATION property=" + A.prop + " replay=" + file; vcls = a.cls; vdetail = a.detail; rc = 1;
        size_t nc = c.aux.size(); for (auto& t : c.tasks) nc += t.size();
        printf("violation: %s: %s\n  found in run %llu (seed %llu), minimised to %zu call(s), %zu fault(s), %zu switch(es) with %d executions\n", a.cls.c_str(), a.detail.c_str(), (unsigned long long)b.first, (unsigned long long)p.seed, nc, c.faults.size(), c.sched.replay ? c.switches.size() : size_t(0), tried);
        break;
      }
      if (rc == 1) break;
      if (vline.empty()) {   // seen twice, but what happens depends on more than the seed (addresses, say): still a violation
        std::string file = A.dir + "/" + A.prop + "-" + std::to_string(A.seed) + "-" + std::to_string(b.first) + ".replay"; write_plan(p, r0, file);
        vline = "VIOLATION property=" + A.prop + " replay=" + file; vcls = r0.cls; vdetail = r0.detail;
      }
    }
    if (rc == 2 && !vline.empty()) { rc = 1; printf("violation: %s: %s\n  seen repeatedly, but it does not come out the same in every process: the code under test depends on addresses or other values that no seed decides\n", vcls.c_str(), vdetail.c_str()); }
  }
  FILE* o = A.out.empty() ? nullptr : fopen(A.out.c_str(), "w");
  if (o) {
    fprintf(o, "{\"runs\":%llu,\"requested\":%llu,\"nontrivial\":%llu,\"skipped\":%llu,\"filtered\":%llu,\"search_s\":%.2f,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"calls\":%llu,\"calls_returned\":%llu,\"calls_threw\":%llu,\"element_ops\":%llu,\"allocations\":%llu,\"device_events\":%llu,\"static_heap_tls_accesses\":%llu,\"sync_ops\":%llu,\"interleavings\":%zu,\"runs_with_2_calls_in_flight\":%llu,\"runs_with_3_calls_in_flight\":%llu,\"alone_runs\":%llu,\"model_checks\":%llu,\"model_opinions\":%llu,\"rechecked\":%llu,\"nondeterministic\":%llu,\"threads\":%llu,\"crashes\":%llu,\"max_nesting\":%llu,\"stalled\":%llu,\"minimise_runs\":%d,",
      (unsigned long long)T.runs, (unsigned long long)A.runs, (unsigned long long)T.nontrivial, (unsigned long long)T.skipped, (unsigned long long)T.filtered, searched, (unsigned long long)T.steps, (unsigned long long)T.switches, (unsigned long long)T.preempt, (unsigned long long)T.calls, (unsigned long long)T.calls_ok, (unsigned long long)T.calls_err, (unsigned long long)T.elem, (unsigned long long)T.allocs, (unsigned long long)T.dev, (unsigned long long)T.hot, (unsigned long long)T.sync, inter.size(), (unsigned long long)T.overlap2, (unsigned long long)T.overlap3, (unsigned long long)T.alone, (unsigned long long)T.model_checks, (unsigned long long)T.model_opinions, (unsigned long long)T.rechecks, (unsigned long long)T.nondet, (unsigned long long)T.tasks, (unsigned long long)T.crashes, (unsigned long long)T.maxdepth, (unsigned long long)T.stalled, tried);
    fprintf(o, "\"faults\":{"); for (int k = 0; k < FK_N; k++) fprintf(o, "%s\"%s\":%llu", k ? "," : "", fault_name[k], (unsigned long long)T.fired[k]); fprintf(o, "},");
    fprintf(o, "\"operations\":%zu,\"types\":[", g_ops.size()); bool first = true; for (int t = 0; t < T_NTYPES; t++) if (type_present[t]) { fprintf(o, "%s\"%s\"", first ? "" : ",", type_name[t]); first = false; }
    fprintf(o, "],\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    fprintf(o, "],\"violation\":\"%s\",\"detail\":\"%s\"}\n", jesc(vcls).c_str(), jesc(vdetail).c_str()); fclose(o);
  }
  if (!vline.empty()) printf("%s\n", vline.c_str());
  return rc;
}

int main(int argc, char** argv) {
  if (!getenv("SIM_ASLR_OFF")) { int pers = personality(0xffffffff); setenv("SIM_ASLR_OFF", "1", 1); if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  Args A; if (argc < 2) return 2;
  A.cmd = argv[1];
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--prop") A.prop = nx(); else if (a == "--seed") A.seed = strtoull(nx().c_str(), nullptr, 10); else if (a == "--runs") A.runs = strtoull(nx().c_str(), nullptr, 10); else if (a == "--wall") A.wall = atof(nx().c_str()); else if (a == "--workers") A.workers = atoi(nx().c_str()); else if (a == "--out") A.out = nx(); else if (a == "--replay-dir") A.dir = nx(); else if (a == "-v") A.verbose = true; else A.file = a; }
  char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n < 0) return 2; self[n] = 0;
  rt_init_zygote();
  if (A.cmd == "search") return search(A, self);
  if (A.cmd == "list") { for (auto& o : g_ops) printf("%s\n", o.name); return 0; }
  if (A.cmd == "replay") {
    Plan p; std::string cls; uint64_t hash = 0; if (!read_plan(A.file, p, cls, hash)) return 2;
    Engine E; Result r = E.run(p);
    if (r.cls.empty()) { printf("held: the recorded run shows no violation on this tree\n"); return 0; }
    printf("violation: %s: %s\n", r.cls.c_str(), r.detail.c_str());
    if (r.cls == cls && r.hash == hash) printf("reproduced exactly (hash %llu)\n", (unsigned long long)hash); else printf("differs from the recording: recorded %s hash %llu, now hash %llu\n", cls.c_str(), (unsigned long long)hash, (unsigned long long)r.hash);
    printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), A.file.c_str());
    return r.cls == cls && r.hash == hash ? 1 : 3;
  }
  if (A.cmd == "trace") {   // one line per run: index, hash -- for determinism comparisons between processes
    Engine E; for (uint64_t i = 0; i < A.runs; i++) { Plan p = make_plan(A.prop, run_seed(A.seed, A.prop, i), i, [&](const CallDesc& d) -> const Expected& { return E.alone(d); }); Result r = E.run(p); printf("%llu %llx %llx %s\n", (unsigned long long)i, (unsigned long long)r.hash, (unsigned long long)E.log->sched_hash, r.cls.c_str()); }
    return 0;
  }
  if (A.cmd == "ops") {     // steps of every operation alone, against its bound
    Engine E; for (size_t i = 0; i < g_ops.size(); i++) { CallDesc d; d.uid = 1; d.op = int(i); d.kind[0] = (g_ops[i].flags & F_CHOL) ? K_SPD : K_DOM; d.p[0] = 4; d.vseed[0] = d.vseed[1] = 1; d.place[0] = -1; d.place[1] = -2; if (g_ops[i].flags & F_EXP) d.p[1] = 5; const Expected& e = E.alone(d); bool had = false; std::string m = e.ok ? model_check(g_ops[i], d, e, false, &had) : e.why;
      printf("%-40s steps %8llu bound %10.0f elem %7llu allocs %3llu dev %4llu hot %3zu %s %s\n", g_ops[i].name, (unsigned long long)e.steps, step_bound(g_ops[i], d), (unsigned long long)e.elem, (unsigned long long)e.allocs, (unsigned long long)e.dev, e.hot.size(), had ? "model" : "-", m.c_str()); }
    return 0;
  }
  return 2;
}
