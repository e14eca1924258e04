// Simulator runtime: scheduler, seams, fault injection, in-run oracles.
// Compiled WITHOUT instrumentation. The instrumented code calls the __tsan_*
// and __sanitizer_cov_* entry points defined here.
#include "sim.h"
#include "rat.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cfenv>
#include <immintrin.h>
#include <locale>
#include <climits>
#include <dlfcn.h>
#include <unordered_map>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <iostream>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>

const char* const type_name[T_NTYPES] = {"f", "d", "i", "u", "c", "r", "x", "l", "s", "b"};
const char* const kind_name[K_NKINDS] = {"small", "frac", "zrow", "zcol", "duprow", "ident", "spd", "dom", "special", "zero", "sparse", "few", "sym", "onesv", "lminor", "tiny", "huge", "domtiny", "domhuge", "infs", "big", "diag", "perm", "sorted", "sign", "magic", "rough"};
const char* const outcome_name[ST_N] = {"returned", "InjectedFault", "std::bad_alloc", "std::overflow_error", "caller's own unrelated exception", "std::ios_base::failure", "other std::exception", "unknown exception"};
const char* const fault_name[FK_N] = {"element_op_throws", "alloc_fails_once", "alloc_fails_from", "alloc_fails_rate", "caller_stalls_forever", "nested_call", "device_write_error", "device_short_write", "device_flush_error", "device_throws", "process_crash", "result_kept"};
TypeOps type_ops[T_NTYPES];
bool type_present[T_NTYPES];

static std::vector<OpInfo>& ops_ref() { static std::vector<OpInfo> v; return v; }
std::vector<OpInfo> g_ops;
void rt_register(const OpInfo& o) { ops_ref().push_back(o); }

// ======================================================= rationals
static __int128 gcd128(__int128 a, __int128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { __int128 t = a % b; a = b; b = t; } return a; }
Q q_make(__int128 n, __int128 d) {
  if (d == 0) return Q{0, 0};
  if (d < 0) { n = -n; d = -d; }
  __int128 g = gcd128(n, d); if (g > 1) { n /= g; d /= g; }
  if (n > INT64_MAX || n < -INT64_MAX || d > INT64_MAX) return Q{0, 0};
  return Q{int64_t(n), int64_t(d)};
}
Q q_add(Q a, Q b) { if (!a.d || !b.d) return Q{0, 0};
  __int128 x, y, s; if (__builtin_mul_overflow((__int128)a.n, (__int128)b.d, &x) || __builtin_mul_overflow((__int128)b.n, (__int128)a.d, &y) || __builtin_add_overflow(x, y, &s)) return Q{0, 0};
  return q_make(s, (__int128)a.d * b.d); }
Q q_neg(Q a) { return Q{-a.n, a.d}; }
Q q_sub(Q a, Q b) { return q_add(a, q_neg(b)); }
Q q_mul(Q a, Q b) { if (!a.d || !b.d) return Q{0, 0}; return q_make((__int128)a.n * b.n, (__int128)a.d * b.d); }
Q q_div(Q a, Q b) { if (!a.d || !b.d || !b.n) return Q{0, 0}; return q_make((__int128)a.n * b.d, (__int128)a.d * b.n); }
int q_cmp(Q a, Q b) {
  if (!a.d || !b.d) return (a.d ? 1 : 0) - (b.d ? 1 : 0);
  __int128 x = (__int128)a.n * b.d, y = (__int128)b.n * a.d; return x < y ? -1 : x > y;
}
double q_to_double(Q a) { return a.d ? double(a.n) / double(a.d) : 0; }
Q q_from_double(double v) {
  if (!(v == v) || std::isinf(v)) return Q{0, 0};
  int e; double m = frexp(v, &e); int64_t n = int64_t(ldexp(m, 53)); e -= 53;
  while (n && !(n & 1)) { n /= 2; e++; }
  if (!n) return Q{0, 1};
  if (e >= 0) { if (e > 62) return Q{0, 0}; return q_make((__int128)n << e, 1); }
  if (e < -62) return Q{0, 0};
  return q_make(n, (__int128)1 << -e);
}
static int64_t isqrt_exact(int64_t v) { if (v < 0) return -1; int64_t r = int64_t(sqrt(double(v))); while (r > 0 && (__int128)r * r > v) r--; while ((__int128)(r + 1) * (r + 1) <= v) r++; return (__int128)r * r == v ? r : -1; }
Q q_sqrt(Q a) { if (!a.d || a.n < 0) return Q{0, 0}; int64_t n = isqrt_exact(a.n), d = isqrt_exact(a.d); return n < 0 || d < 0 ? Q{0, 0} : Q{n, d}; }
std::ostream& elem::operator<<(std::ostream& o, const Rat& r) { rt_elem_op("print"); long long n = r.q.n, d = r.q.d; o << n; rt_elem_op("print"); return o << "/" << d; }

// ======================================================= state
enum State { RUNNABLE, BLOCKED, STALLED, DONE };
struct CallState {
  const CallDesc* d; const OpInfo* op; uint64_t step, elem, alloc, dev; double limit;
  uint32_t throw_type; uint64_t throw_at, alloc_at, alloc_from, stall_at; uint32_t alloc_rate; Rng frng;
  uint64_t nest_at[8]; const CallDesc* nest[8]; int nnest, inest; const CallDesc* hold[8]; int nhold; uint32_t hold_flags; bool operands_gone; int slots[2];
  uint64_t dev_at; FaultKind dev_kind; bool dev_stays;
  bool fired_throw, fired_alloc; uint64_t fault_id; long outstanding; long nalloc_total;
  int depth; bool printing, degraded; uint32_t dev_from; CallState* up;
  uint8_t* tgt; size_t tgt_len; // footprint target
  CallState() : frng(0) {}
};
struct Task {
  int id; pthread_t th; std::atomic<int> go; State st; const void* wait; CallState* cs; bool in_lib; long live; uint32_t vc[MAXT]; uint64_t since;
  uint8_t* outbuf[MAXDEPTH]; int prio; uintptr_t stk_hi;
  uint32_t rep;
  size_t swpos; std::vector<Switch> sw; bool fenced;
  Task* owner; bool used, detached; void* (*fn)(void*); void* arg; void* ret;   // a thread started by the code under test
};
static struct G {
  const Plan* plan; const std::map<uint32_t, Expected>* expect; RunLog* log; Task tasks[MAXT]; int nt, nc; bool alone; int helpers; Rng srng{0}; uint64_t steps; std::vector<uint64_t> changes; size_t ichange; int lowprio;
  std::map<const void*, std::vector<uint32_t>> sync; struct Mu { int owner; int count; }; std::map<const void*, Mu> mus; std::map<const void*, int> guards;
  int printing; std::vector<CallState*> prints; uint64_t clock; uint64_t salt; bool tracking_hot; std::vector<uint8_t> mm; // mm: model of the shared matrix (C09)
} g;
static __thread Task* cur;
struct Out {   // the simulator itself runs: nothing it does counts as code under test
  Task* t; bool il;
  explicit Out(Task* x) : t(x), il(x->in_lib) { t->in_lib = false; }
  ~Out() { t->in_lib = il; }
};

static uint8_t* const OPER = (uint8_t*)0x100000000000ull; static const size_t OPER_SZ = 96u << 20;
static uint8_t* const HEAP = (uint8_t*)0x110000000000ull; static const size_t HEAP_SZ = 32u << 20;
static const size_t SLOT = 98304, SLOT_OFF = 1024, STACK = 16u << 20;
static_assert((16 + MAXC * 4 * MAXDEPTH) * SLOT <= OPER_SZ, "");
static uint8_t* const TEMPS = (uint8_t*)0x150000000000ull;    // temporary operands
static uint8_t* const HSTACK = (uint8_t*)0x130000000000ull;   // stacks of threads started by the code under test
struct Sh { uint32_t wclk; uint32_t wt; uint32_t rclk[MAXT]; };
static Sh* const SHD = (Sh*)0x120000000000ull;
extern "C" char __data_start, _end;
static uintptr_t st_lo, st_hi, cout_lo, cout_hi;
static uint8_t* heap_top; static uint8_t* heap_free[40];

static int futex(std::atomic<int>* p, int op, int v) { return syscall(SYS_futex, (int*)p, op, v, nullptr, nullptr, 0); }
static void wait_go(Task* t) { while (!t->go.load()) futex(&t->go, FUTEX_WAIT_PRIVATE, 0); t->go.store(0); }
static void give_go(Task* t) { t->go.store(1); futex(&t->go, FUTEX_WAKE_PRIVATE, 1); }

static void hash_in(uint64_t v) { g.log->hash = mix(g.log->hash, v); }
static void finish(int code) { g.log->steps = g.steps; g.log->finished = 1; _exit(code); }

// Which kinds of misbehaviour a property forbids. Anything else ends the run quietly (inconclusive) or is not looked at.
bool judged(const std::string& prop, const char* cls) {
  static const struct { const char* cls; const char* props; } T[] = {
    {"operand-written", "C03"}, {"operand-changed", "C03 C04 C06 C08 C12"}, {"result-changed", "C12"},
    {"outcome-differs", "C01 C02 C04 C05 C06 C07 C09 C10 C11 C12"}, {"result-differs", "C01 C02 C04 C05 C06 C07 C10 C11 C12"},
    {"exception-not-passed-through", "C04 C09"}, {"bad-alloc-not-reported", "C06"},
    {"data-race", "C01 C09"}, {"deadlock", "C01 C02 C04 C05 C06 C07 C08 C09 C10 C11"}, {"blocked-by-stalled-caller", "C10"},
    {"no-completion", "C01 C02 C04 C05 C06 C07 C08 C09 C10 C11"},
    {"element-lifetime", "C04 C06 C09"}, {"elements-leaked", "C04 C06"}, {"memory-leaked", "C04 C06"},
    {"double-free", "C01 C02 C04 C06 C10 C11"}, {"bad-free", "C01 C02 C04 C06 C10 C11"}, {"heap-used", "C05"},
    {"output-differs", "C01 C02 C05 C08 C10 C11"}, {"output-not-a-prefix", "C08"}, {"not-flushed", "C08"}, {"row-not-flushed", "C08"}, {"print-outcome", "C08"}, {"stream-settings-changed", "C08"},
    {"out-of-bounds", "C09"}, {"foreign-line-touched", "C09"}, {"swap-wrong", "C09"}, {"own-line-changed", "C09"}, {"final-matrix-wrong", "C09"},
    {"rounding-mode-changed", "C02"}, {"callers-exception-lost", "C04 C05 C06 C07 C11"},
    {"model", "C01 C06 C07"}, {"process-terminated", "C01 C02 C04 C05 C06 C07 C08 C09 C10 C11 C12"}, {"hang", "C01 C02 C04 C05 C06 C07 C08 C09 C10 C11"}};
  for (auto& e : T) if (!strcmp(e.cls, cls)) return strstr(e.props, prop.c_str()) != nullptr;
  return true;
}
static bool judged(const char* cls) { return g.alone || judged(g.plan->prop, cls); }
#define soft(cls, ...) do { if (judged(cls)) violate(cls, __VA_ARGS__); } while (0)
[[noreturn]] static void violate(const char* cls, const char* fmt, ...) {
  Task* t = cur; if (t) t->in_lib = false;
  RunLog* L = g.log;
  if (!judged(cls)) { L->filtered = 1; finish(0); }
  if (!L->violated) {
    snprintf(L->cls, sizeof L->cls, "%s", cls);
    va_list ap; va_start(ap, fmt); vsnprintf(L->detail, sizeof L->detail, fmt, ap); va_end(ap);
    L->v_task = t ? t->id : 99; L->v_uid = t && t->cs ? t->cs->d->uid : 0; L->v_step = t && t->cs ? t->cs->step : 0;
    hash_in(mix(L->v_task, mix(L->v_uid, L->v_step)));
    for (const char* p = cls; *p; p++) hash_in(uint8_t(*p));
    L->violated = 1;
  }
  finish(0); abort();
}

// ======================================================= scheduling
static void record_switch(Task* t, Task* n, bool forced) {
  RunLog* L = g.log; uint32_t uid = t->cs ? t->cs->d->uid : 0; uint32_t step = t->cs ? uint32_t(t->cs->step) : 0;
  if (L->nsw < sizeof L->sw / sizeof L->sw[0]) L->sw[L->nsw++] = Switch{uint8_t(t->id), uid, step, uint8_t(n->id), uint8_t(forced)};
  L->nswitch++; if (!forced && step) L->preempt++;
  uint64_t h = mix(mix(t->id, uid), mix(step, n->id)); L->sched_hash = mix(L->sched_hash, h); hash_in(h);
  int active = 0; for (int i = 0; i < g.nt; i++) if (g.tasks[i].cs && g.tasks[i].cs->step && g.tasks[i].st != DONE) active++;
  if (active >= 2) L->probes[0]++;
  if (active >= 3) L->probes[1]++;
}
static void run_over();
static void do_switch(Task* t, Task* n, bool forced) {
  record_switch(t, n, forced);
  bool park = t->st != DONE; t->since = 0; n->since = 0;
  g.log->cur_task = n->owner ? n->owner->id : n->id;
  give_go(n);
  if (park) { if (t->st == STALLED) for (;;) pause(); wait_go(t); }
}
static Task* pick(Task* t, bool include_self) {   // random or by priority
  Task* c[MAXT]; int n = 0;
  for (int i = 0; i < g.nt; i++) if (g.tasks[i].st == RUNNABLE && (include_self || &g.tasks[i] != t)) c[n++] = &g.tasks[i];
  if (!n) return nullptr;
  if (g.plan && g.plan->sharedbufs && g.helpers) {   // one call at a time: a call that has begun, and its own threads, before anybody else
    int m = 0; for (int i = 0; i < n; i++) if (c[i]->owner || (c[i]->cs && c[i]->cs->step)) c[m++] = c[i];
    if (m) n = m;
  }
  if (g.plan && g.plan->sched.policy == 2) { Task* b = c[0]; for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i]; return b; }
  return c[g.srng.below(n)];
}
// the running task cannot go on: somebody else must
static Switch* replay_next(Task* t) { // next recorded decision of this task, if it is due now
  uint32_t uid = t->cs ? t->cs->d->uid : 0; uint32_t step = t->cs ? uint32_t(t->cs->step) : 0;
  while (t->swpos < t->sw.size()) { Switch& s = t->sw[t->swpos]; if (s.uid == uid && s.step < step) { t->swpos++; continue; } if (s.uid == uid && s.step == step) return &s; return nullptr; }
  return nullptr;
}
static void forced_switch(Task* t) {
  Task* n = nullptr; bool over = g.helpers > 0;
  for (int i = 0; i < g.nc; i++) over = over && (g.tasks[i].st == DONE || g.tasks[i].st == STALLED);
  if (over) run_over();                // only threads of the code under test are left
  if (g.alone) { for (int i = 0; i < g.nt && !n; i++) if (g.tasks[i].st == RUNNABLE && &g.tasks[i] != t) n = &g.tasks[i]; }
  else if (g.plan && g.plan->sched.replay) {
    Switch* s = replay_next(t);
    if (s && s->forced) { t->swpos++; if (s->to < g.nt && g.tasks[s->to].st == RUNNABLE) n = &g.tasks[s->to]; }
    if (!n && g.helpers && g.plan->sharedbufs) n = pick(t, false);
    if (!n) for (int i = 0; i < g.nt && !n; i++) if (g.tasks[i].st == RUNNABLE && &g.tasks[i] != t) n = &g.tasks[i];
  } else n = pick(t, false);
  if (!n) {
    bool blocked = false, stalled = false;
    for (int i = 0; i < g.nc; i++) { blocked |= g.tasks[i].st == BLOCKED; stalled |= g.tasks[i].st == STALLED; }
    if (blocked) violate(stalled ? "blocked-by-stalled-caller" : "deadlock", "task %d, call %u waits for ever%s", t->id, t->cs ? t->cs->d->uid : 0, stalled ? " because another caller is stopped in the middle of a call" : "");
    run_over();
  }
  do_switch(t, n, true);
}
static void preempt_point(Task* t, int prob) {
  if (g.alone || g.nt < 2) return;
  const SchedCfg& c = g.plan->sched;
  if (c.replay) {
    Switch* s = replay_next(t);
    if (s && !s->forced) { t->swpos++; if (s->to < g.nt && s->to != t->id && g.tasks[s->to].st == RUNNABLE) do_switch(t, &g.tasks[s->to], false); }
    return;
  }
  bool sw = false;
  if (c.policy == 2) {
    if (g.ichange < g.changes.size() && g.steps >= g.changes[g.ichange]) { g.ichange++; t->prio = --g.lowprio; sw = true; }
    else if (prob == c.hot && prob && (g.srng.next() & 0xffff) < uint64_t(prob)) { t->prio = --g.lowprio; sw = true; }
  } else if (prob && (g.srng.next() & 0xffff) < uint64_t(prob) && g.log->nswitch < 20000) sw = true;
  if ((c.policy || g.helpers) && ++t->since > (g.helpers ? 20000 : 400000)) { sw = true; t->since = 0; if (c.policy == 2) t->prio = --g.lowprio; }   // nobody spins for ever on another's behalf
  if (sw) { Task* n = pick(t, c.policy == 2); if (n && g.plan->sharedbufs && (t->owner || (t->cs && t->cs->step)) && !n->owner && !(n->cs && n->cs->step)) n = nullptr; if (n && n != t) do_switch(t, n, false); }
}
static void docall(Task*, const CallDesc&, int depth);
static void note_hot(CallState* cs) {
  g.log->hot++;
  if (g.alone && cs && !cs->depth) { RunLog* L = g.log; if (L->nhot < 64) L->hotsteps[L->nhot++] = uint32_t(cs->step); else L->hotsteps[(cs->step * 2654435761u >> 8) % 64] = uint32_t(cs->step); }
}
static void step_point(Task* t, int cls) { // cls 0 cold, 1 element, 2 hot
  CallState* cs = t->cs;
  cs->step++; g.steps++;
  if (double(cs->step) > cs->limit) violate("no-completion", "%s: still running after %llu steps (bound %.0f)", desc_str(*cs->d).c_str(), (unsigned long long)cs->step, cs->limit);
  if (cls == 2) note_hot(cs);
  if (g.alone) {
    if (g.helpers && ++t->since > 5000) { t->since = 0; for (int k = 1; k < g.nt; k++) { Task* n = &g.tasks[(t->id + k) % g.nt]; if (n->used && n->st == RUNNABLE) { do_switch(t, n, false); break; } } }   // somebody may be waiting for another thread to do its part
    return;
  }
  if (cs->step == cs->stall_at && !t->owner) {
    g.log->fired[FK_STALL]++; g.log->stalled++; t->st = STALLED; forced_switch(t); }
  if (!t->owner) while (cs->inest < cs->nnest && cs->step >= cs->nest_at[cs->inest]) {
    const CallDesc* n = cs->nest[cs->inest++]; g.log->fired[FK_NEST]++;
    if (cs->depth + 1 >= MAXDEPTH) continue;
    Out o(t); uint32_t r0 = t->rep; for (uint32_t r = 0; r < n->rep; r++) { t->rep = r; docall(t, *n, cs->depth + 1); t->cs = cs; } t->rep = r0; }
  const SchedCfg& c = g.plan->sched;
  preempt_point(t, cls == 2 ? c.hot : cls == 1 ? c.elem : c.cold);
}

// ======================================================= happens-before
static void acquire(Task* t, const void* a) { auto it = g.sync.find(a); if (it == g.sync.end()) return; for (int i = 0; i < MAXT; i++) if (it->second[i] > t->vc[i]) t->vc[i] = it->second[i]; }
static void release(Task* t, const void* a) { auto& v = g.sync[a]; if (v.empty()) v.assign(MAXT, 0); for (int i = 0; i < MAXT; i++) if (t->vc[i] > v[i]) v[i] = t->vc[i]; t->vc[t->id]++; }
static inline bool in_stack(Task* t, uintptr_t a) { return a < t->stk_hi && a > t->stk_hi - STACK; }
static std::unordered_map<uintptr_t, Sh>* stack_shadow;   // only while threads of the code under test exist
static Sh* shadow(uintptr_t a) {
  if (a >= st_lo && a < st_hi) return SHD + (a - st_lo);
  if (a >= (uintptr_t)HEAP && a < (uintptr_t)HEAP + HEAP_SZ) return SHD + (16u << 20) + (a - (uintptr_t)HEAP);
  if (a >= (uintptr_t)OPER && a < (uintptr_t)OPER + OPER_SZ) return SHD + (16u << 20) + HEAP_SZ + (a - (uintptr_t)OPER);
  if (g.helpers) for (int i = 0; i < g.nt; i++) if (in_stack(&g.tasks[i], a)) return &(*stack_shadow)[a];
  return nullptr;
}
static const char* where(uintptr_t a) { return stack_shadow && stack_shadow->count(a) ? "a local object" : a >= st_lo && a < st_hi ? "static storage" : a >= (uintptr_t)HEAP && a < (uintptr_t)HEAP + HEAP_SZ ? "the heap" : "a matrix"; }
static void race_check(Task* t, uintptr_t a, size_t n, bool w) {
  for (size_t i = 0; i < n; i++) {
    Sh* e = shadow(a + i); if (!e) return; int me = t->id;
    if (e->wt && int(e->wt) - 1 != me && e->wclk > t->vc[e->wt - 1]) violate("data-race", "task %d %ss %s that task %d wrote concurrently; %s", me, w ? "write" : "read", where(a), int(e->wt) - 1, desc_str(*t->cs->d).c_str());
    if (w) {
      for (int u = 0; u < g.nt; u++) if (u != me && e->rclk[u] > t->vc[u]) violate("data-race", "task %d writes %s that task %d read concurrently; %s", me, where(a), u, desc_str(*t->cs->d).c_str());
      e->wt = me + 1; e->wclk = t->vc[me];
    } else e->rclk[me] = t->vc[me];
  }
}

static inline bool in_oper(uintptr_t a) { return a - (uintptr_t)OPER < OPER_SZ; }
static inline bool in_static(uintptr_t a) { return a - st_lo < st_hi - st_lo && !(a - cout_lo < cout_hi - cout_lo); }
static inline bool in_heap(uintptr_t a) { return a - (uintptr_t)HEAP < HEAP_SZ; }

static void oper_access(Task* t, uintptr_t a, size_t n, bool w) {
  CallState* cs = t->cs; const Plan* p = g.plan;
  if (g.alone) return;
  if (p->footprint) {
    uintptr_t lo = (uintptr_t)cs->tgt, hi = lo + cs->tgt_len;
    if (!cs->tgt) return;
    if (a < lo || a + n > hi) violate("out-of-bounds", "%s %ss outside the matrix", desc_str(*cs->d).c_str(), w ? "write" : "read");
    size_t es = type_ops[cs->op->type].size; int cc = cs->op->in[0].c;
    for (size_t e = (a - lo) / es; e <= (a + n - 1 - lo) / es; e++) {
      int line = (cs->op->flags & F_IDX_R) ? int(e) / cc : int(e) % cc;
      if (line != cs->d->p[1] && line != cs->d->p[2]) violate("foreign-line-touched", "%s %ss %s %d", desc_str(*cs->d).c_str(), w ? "write" : "read", (cs->op->flags & F_IDX_R) ? "row" : "column", line);
    }
    race_check(t, a, n, w);
  } else if (p->race) { race_check(t, a, n, w);
  } else if (p->opwrite && w && !(cs->op->flags & F_INPLACE)) {
    violate("operand-written", "%s writes to an operand (offset %ld)", desc_str(*cs->d).c_str(), long((a - (uintptr_t)OPER) % SLOT) - long(SLOT_OFF));
  }
}
static inline bool in_cout(uintptr_t a) { return a - cout_lo < cout_hi - cout_lo; }
static inline void access(void* p, size_t n, bool w) {
  Task* t = cur; if (!t || !t->in_lib) return;
  Out o(t); uintptr_t a = (uintptr_t)p;
  if (g.helpers && !in_oper(a) && !in_static(a) && !in_heap(a)) { step_point(t, in_stack(t, a) ? 0 : 2); if (!g.alone && g.plan->race && !in_cout(a)) race_check(t, a, n, w); }
  else if (in_stack(t, a)) step_point(t, 0);
  else if (in_oper(a)) { step_point(t, 0); if (w || g.plan->footprint || g.plan->race) oper_access(t, a, n, w); }
  else if (in_static(a) || in_heap(a)) { step_point(t, 2); if (!g.alone && g.plan->race) race_check(t, a, n, w); }
  else step_point(t, in_cout(a) ? 0 : 2);       // thread-local storage and the like
}

static void fill_garbage(uint8_t* p, size_t n, uint64_t salt);
// ======================================================= compiler entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* a) { access(a, 1, false); }
void __tsan_read2(void* a) { access(a, 2, false); }
void __tsan_read4(void* a) { access(a, 4, false); }
void __tsan_read8(void* a) { access(a, 8, false); }
void __tsan_read16(void* a) { access(a, 16, false); }
void __tsan_write1(void* a) { access(a, 1, true); }
void __tsan_write2(void* a) { access(a, 2, true); }
void __tsan_write4(void* a) { access(a, 4, true); }
void __tsan_write8(void* a) { access(a, 8, true); }
void __tsan_write16(void* a) { access(a, 16, true); }
void __tsan_unaligned_read2(void* a) { access(a, 2, false); }
void __tsan_unaligned_read4(void* a) { access(a, 4, false); }
void __tsan_unaligned_read8(void* a) { access(a, 8, false); }
void __tsan_unaligned_read16(void* a) { access(a, 16, false); }
void __tsan_unaligned_write2(void* a) { access(a, 2, true); }
void __tsan_unaligned_write4(void* a) { access(a, 4, true); }
void __tsan_unaligned_write8(void* a) { access(a, 8, true); }
void __tsan_unaligned_write16(void* a) { access(a, 16, true); }
#define VOLACC(n) void __tsan_volatile_read##n(void* a) { access(a, n, false); } void __tsan_volatile_write##n(void* a) { access(a, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false); } void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true); }
VOLACC(1) VOLACC(2) VOLACC(4) VOLACC(8) VOLACC(16)
void __tsan_read_range(void* a, size_t n) { if (n) access(a, n, false); }
void __tsan_write_range(void* a, size_t n) { if (n) access(a, n, true); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true); }
void __tsan_vptr_read(void** a) { access(a, 8, false); }
void __sanitizer_cov_trace_pc() { Task* t = cur; if (t && t->in_lib) { Out o(t); step_point(t, 0); } }

// kind: 1 load, 2 store, 3 read-modify-write. Happens-before follows the C++ memory orders; a task that used a fence counts as fully ordered from then on.
static inline void atomic_point(const volatile void* a, int kind, int mo) { Task* t = cur; if (!t || !t->in_lib) return; Out o(t); g.log->sync_ops++; step_point(t, 2); if (g.alone) return;
  mo &= 7; if (t->fenced) mo = 5;
  if ((kind & 1) && (mo == 1 || mo == 2 || mo >= 4)) acquire(t, (const void*)a);
  if ((kind & 2) && mo >= 3) release(t, (const void*)a); }
#define ATOMICS(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int m) { atomic_point(a, 1, m); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int m) { atomic_point(a, 2, m); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int m) { atomic_point(a, 3, m); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int m) { atomic_point(a, 3, m); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int m) { atomic_point(a, 3, m); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int m) { atomic_point(a, 3, m); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int m) { atomic_point(a, 3, m); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int m) { atomic_point(a, 3, m); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int m) { atomic_point(a, 3, m); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int m, int f) { atomic_point(a, 3, m > f ? m : f); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int m, int f) { atomic_point(a, 3, m > f ? m : f); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int m, int f) { atomic_point(a, 3, m > f ? m : f); T o = *a; if (o == e) *a = v; return o; }
typedef unsigned __int128 u128;
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t) ATOMICS(128, u128)
// what libatomic provides for larger objects
void* __real_memcpy(void*, const void*, size_t);
void sim_atomic_load(size_t n, const void* a, void* r, int m) __asm__("__atomic_load");
void sim_atomic_store(size_t n, void* a, const void* v, int m) __asm__("__atomic_store");
void sim_atomic_exchange(size_t n, void* a, const void* v, void* r, int m) __asm__("__atomic_exchange");
bool sim_atomic_cas(size_t n, void* a, void* e, const void* v, int m, int f) __asm__("__atomic_compare_exchange");
bool sim_atomic_lock_free(size_t n, const void*) __asm__("__atomic_is_lock_free");
void sim_atomic_load(size_t n, const void* a, void* r, int m) { atomic_point(a, 1, m); __real_memcpy(r, a, n); }
void sim_atomic_store(size_t n, void* a, const void* v, int m) { atomic_point(a, 2, m); __real_memcpy(a, v, n); }
void sim_atomic_exchange(size_t n, void* a, const void* v, void* r, int m) { atomic_point(a, 3, m); __real_memcpy(r, a, n); __real_memcpy(a, v, n); }
bool sim_atomic_cas(size_t n, void* a, void* e, const void* v, int m, int f) { atomic_point(a, 3, m > f ? m : f); if (!memcmp(a, e, n)) { __real_memcpy(a, v, n); return true; } __real_memcpy(e, a, n); return false; }
bool sim_atomic_lock_free(size_t n, const void*) { return n <= 8; }
void __tsan_atomic_thread_fence(int) { Task* t = cur; if (!t || !t->in_lib) return; Out o(t); t->fenced = true; if (!g.alone) for (auto& x : g.sync) acquire(t, x.first); }
void __tsan_atomic_signal_fence(int) {}

// ---- memory block functions called from the code under test
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) access(d, n, true); return __real_memset(d, c, n); }

// ---- locks, one-time initialisation
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
static inline bool sim(Task*& t) { t = cur; return t && t->in_lib; }
static void block_on(Task* t, const void* a) { t->st = BLOCKED; t->wait = a; forced_switch(t); }
static void wake_all(const void* a) { for (int i = 0; i < g.nt; i++) if (g.tasks[i].st == BLOCKED && g.tasks[i].wait == a) g.tasks[i].st = RUNNABLE; }
static int mu_lock(Task* t, const void* m, bool rec, bool try_) {
  Out o(t); g.log->sync_ops++; step_point(t, 2);
  for (;;) { auto& mu = g.mus[m]; if (!mu.count) { mu.owner = t->id; mu.count = 1; break; } if (rec && mu.owner == t->id) { mu.count++; break; } if (try_) return EBUSY; block_on(t, m); }
  acquire(t, m); step_point(t, 2); return 0;
}
static int mu_unlock(Task* t, const void* m) { Out o(t); auto& mu = g.mus[m]; if (mu.count && --mu.count == 0) { release(t, m); wake_all(m); } step_point(t, 2); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { Task* t; if (!sim(t)) return __real_pthread_mutex_lock(m); return mu_lock(t, m, m->__data.__kind & 1, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { Task* t; if (!sim(t)) return __real_pthread_mutex_trylock(m); return mu_lock(t, m, m->__data.__kind & 1, true); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { Task* t; if (!sim(t)) return __real_pthread_mutex_unlock(m); return mu_unlock(t, m); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { Task* t; if (!sim(t)) return __real_pthread_rwlock_rdlock(m); return mu_lock(t, m, true, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { Task* t; if (!sim(t)) return __real_pthread_rwlock_wrlock(m); return mu_lock(t, m, false, false); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { Task* t; if (!sim(t)) return __real_pthread_rwlock_unlock(m); return mu_unlock(t, m); }
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* gv) {
  Task* t; if (!sim(t)) return __real___cxa_guard_acquire(gv);
  Out o(t); g.log->sync_ops++; step_point(t, 2);
  for (;;) { if (*(volatile char*)gv) { acquire(t, gv); return 0; } auto it = g.guards.find(gv); if (it == g.guards.end()) { g.guards[gv] = t->id; return 1; } block_on(t, gv); }
}
void __wrap___cxa_guard_release(uint64_t* gv) { Task* t; if (!sim(t)) { __real___cxa_guard_release(gv); return; } Out o(t); *(volatile char*)gv = 1; g.guards.erase(gv); release(t, gv); wake_all(gv); step_point(t, 2); }
void __wrap___cxa_guard_abort(uint64_t* gv) { Task* t; if (!sim(t)) { __real___cxa_guard_abort(gv); return; } Out o(t); g.guards.erase(gv); wake_all(gv); step_point(t, 2); }
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  Task* t; if (!sim(t)) return __real_pthread_once(o, f);
  { Out x(t); g.log->sync_ops++; step_point(t, 2);
    for (;;) { if (*o == 2) { acquire(t, o); return 0; } auto it = g.guards.find(o); if (it == g.guards.end()) { g.guards[o] = t->id; break; } block_on(t, o); } }
  try { f(); } catch (...) { Out x(t); g.guards.erase(o); wake_all(o); throw; }
  Out x(t); *o = 2; g.guards.erase(o); release(t, o); wake_all(o); return 0;
}
int __real_pthread_mutex_timedlock(pthread_mutex_t*, const timespec*); int __real_pthread_mutex_clocklock(pthread_mutex_t*, clockid_t, const timespec*);
static int timed(int rc) { return rc == EBUSY ? ETIMEDOUT : rc; }       // the wait times out at once: time is simulated
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* s) { Task* t; if (!sim(t)) return __real_pthread_mutex_timedlock(m, s); return timed(mu_lock(t, m, m->__data.__kind & 1, true)); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* s) { Task* t; if (!sim(t)) return __real_pthread_mutex_clocklock(m, c, s); return timed(mu_lock(t, m, m->__data.__kind & 1, true)); }
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*); int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { Task* t; if (!sim(t)) return __real_pthread_rwlock_tryrdlock(m); return mu_lock(t, m, true, true); }
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*); int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { Task* t; if (!sim(t)) return __real_pthread_rwlock_trywrlock(m); return mu_lock(t, m, false, true); }
static void cv_wait(Task* t, const void* cv, const void* m, bool times_out) {   // releasing the lock and starting to wait is one step
  { Out o(t); step_point(t, 2); auto& mu = g.mus[m]; if (mu.count && --mu.count == 0) { release(t, m); wake_all(m); } if (times_out) step_point(t, 2); else block_on(t, cv); acquire(t, cv); }
  mu_lock(t, m, false, false); }
static void cv_wake(Task* t, const void* cv) { Out o(t); g.log->sync_ops++; release(t, cv); wake_all(cv); step_point(t, 2); }
struct UniqueLock { pthread_mutex_t* m; bool owns; };
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, UniqueLock*);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, UniqueLock* l) { Task* t; if (!sim(t)) { __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l); return; } cv_wait(t, c, l->m, false); }
void __real__ZNSt18condition_variable10notify_oneEv(void*); void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { Task* t; if (!sim(t)) { __real__ZNSt18condition_variable10notify_oneEv(c); return; } cv_wake(t, c); }
void __real__ZNSt18condition_variable10notify_allEv(void*); void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { Task* t; if (!sim(t)) { __real__ZNSt18condition_variable10notify_allEv(c); return; } cv_wake(t, c); }
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*); int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { Task* t; if (!sim(t)) return __real_pthread_cond_wait(c, m); cv_wait(t, c, m, false); return 0; }
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*); int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* s) { Task* t; if (!sim(t)) return __real_pthread_cond_timedwait(c, m, s); cv_wait(t, c, m, true); return ETIMEDOUT; }
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*); int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* s) { Task* t; if (!sim(t)) return __real_pthread_cond_clockwait(c, m, k, s); cv_wait(t, c, m, true); return ETIMEDOUT; }
int __real_pthread_cond_signal(pthread_cond_t*); int __wrap_pthread_cond_signal(pthread_cond_t* c) { Task* t; if (!sim(t)) return __real_pthread_cond_signal(c); cv_wake(t, c); return 0; }
int __real_pthread_cond_broadcast(pthread_cond_t*); int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { Task* t; if (!sim(t)) return __real_pthread_cond_broadcast(c); cv_wake(t, c); return 0; }
int __real_nanosleep(const timespec*, timespec*); int __wrap_nanosleep(const timespec* s, timespec* r) { Task* t; if (!sim(t)) return __real_nanosleep(s, r); Out o(t); g.clock += uint64_t(s->tv_sec) * 1000000000u + uint64_t(s->tv_nsec); step_point(t, 2); return 0; }
int __real_usleep(unsigned); int __wrap_usleep(unsigned u) { Task* t; if (!sim(t)) return __real_usleep(u); Out o(t); g.clock += u * 1000ull; step_point(t, 2); return 0; }
int __real_sched_yield(); int __wrap_sched_yield() { Task* t; if (!sim(t)) return __real_sched_yield(); Out o(t); step_point(t, 2); return 0; }

// ---- threads that the code under test starts: scheduled like callers, ordered after their creation and before their join
static void* helper_main(void* p) {
  Task* t = (Task*)p; wait_go(t); cur = t; t->stk_hi = (uintptr_t)__builtin_frame_address(0) + 64;
  t->in_lib = true; t->ret = t->fn(t->arg); t->in_lib = false;
  t->owner->live += t->live; t->live = 0; release(t, t); t->st = DONE; wake_all(t); void* r = t->ret; 
  cur = nullptr; forced_switch(t); return r;
}
typedef int (*create_fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); typedef int (*join_fn)(pthread_t, void**); typedef int (*detach_fn)(pthread_t);
static create_fn real_create; static join_fn real_join; static detach_fn real_detach;
int pthread_create(pthread_t* id, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  const create_fn real = real_create ? real_create : (create_fn)dlsym(RTLD_NEXT, "pthread_create");
  Task* t; if (!sim(t)) return real(id, at, fn, arg);
  Out o(t); g.log->sync_ops++; step_point(t, 2);
  int i = g.nc; while (i < MAXT && g.tasks[i].used) i++;
  if (i == MAXT) { g.log->filtered = 1; finish(0); }          // more threads than the simulator models
  Task& h = g.tasks[i]; if (i >= g.nt) g.nt = i + 1; g.helpers++; if (!stack_shadow) stack_shadow = new std::unordered_map<uintptr_t, Sh>;
  h.used = true; h.detached = false; if (at) { int ds = 0; pthread_attr_getdetachstate(at, &ds); h.detached = ds == PTHREAD_CREATE_DETACHED; }
  h.go = 0; h.owner = t->owner ? t->owner : t; h.cs = t->cs; h.in_lib = false; h.live = 0; h.since = 0; h.fn = fn; h.arg = arg; h.fenced = false; h.wait = nullptr; h.stk_hi = 0;
  for (int k = 0; k < MAXT; k++) if (t->vc[k] > h.vc[k]) h.vc[k] = t->vc[k];
  h.vc[i]++; t->vc[t->id]++;
  if (!g.alone) { h.prio = 1000 + int(g.srng.below(1000)) * 8; const uint32_t uid = t->cs->d->uid; size_t k = h.swpos; while (k < h.sw.size() && h.sw[k].uid != uid) k++; if (k < h.sw.size()) h.swpos = k; }
  uint8_t* sk = HSTACK + size_t(i) * STACK;
  for (auto it = stack_shadow->begin(); it != stack_shadow->end();) if (it->first - (uintptr_t)sk < STACK) it = stack_shadow->erase(it); else ++it;
  fill_garbage(sk + STACK - 65536, 65536, mix(g.salt, 0x57ac));
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, sk, STACK); if (h.detached) pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  int rc = real(&h.th, &a, helper_main, &h); if (rc) { perror("pthread_create"); _exit(79); }
  *id = h.th; h.st = RUNNABLE; step_point(t, 2); return 0;
}
static Task* helper_of(pthread_t th) { for (int i = g.nc; i < g.nt; i++) if (g.tasks[i].used && g.tasks[i].th == th) return &g.tasks[i]; return nullptr; }
int pthread_join(pthread_t th, void** r) {
  const join_fn real = real_join ? real_join : (join_fn)dlsym(RTLD_NEXT, "pthread_join");
  Task* t; if (!sim(t)) return real(th, r);
  Out o(t); Task* h = helper_of(th); if (!h) return ESRCH; if (h->detached) return EINVAL;
  g.log->sync_ops++; step_point(t, 2);
  while (h->st != DONE) block_on(t, h);
  acquire(t, h); real(th, r); h->used = false; step_point(t, 2); return 0;
}
int pthread_detach(pthread_t th) {
  const detach_fn real = real_detach ? real_detach : (detach_fn)dlsym(RTLD_NEXT, "pthread_detach");
  Task* t; if (!sim(t)) return real(th);
  Out o(t); Task* h = helper_of(th); if (!h) return ESRCH; h->detached = true; return real(th);   // its stack is not used again in this run
}
static bool fx_wait(Task* t, unsigned* a, unsigned v, bool timeout) { Out o(t); g.log->sync_ops++; step_point(t, 2); if (*(volatile unsigned*)a == v) { if (timeout) return false; block_on(t, a); } acquire(t, a); return true; }
bool __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* a, unsigned v, bool to, long, long) { Task* t; if (!sim(t)) abort(); return fx_wait(t, a, v, to); }
bool __wrap__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* a, unsigned v, bool to, long, long) { Task* t; if (!sim(t)) abort(); return fx_wait(t, a, v, to); }
void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(void*, unsigned* a) { Task* t; if (!sim(t)) return; cv_wake(t, a); }

// ---- clock and randomness
static uint64_t sim_now() { g.clock += 1000 + (mix(g.clock, g.salt) & 0xffff); return g.clock; }
time_t __real_time(time_t*); time_t __wrap_time(time_t* p) { Task* t; if (!sim(t)) return __real_time(p); time_t v = sim_now() / 1000000000; if (p) *p = v; return v; }
clock_t __real_clock(); clock_t __wrap_clock() { Task* t; if (!sim(t)) return __real_clock(); return sim_now() / 1000; }
int __real_clock_gettime(clockid_t, timespec*); int __wrap_clock_gettime(clockid_t c, timespec* s) { Task* t; if (!sim(t)) return __real_clock_gettime(c, s); uint64_t v = sim_now(); s->tv_sec = v / 1000000000; s->tv_nsec = v % 1000000000; return 0; }
int __real_gettimeofday(timeval*, void*); int __wrap_gettimeofday(timeval* s, void* z) { Task* t; if (!sim(t)) return __real_gettimeofday(s, z); uint64_t v = sim_now(); s->tv_sec = v / 1000000000; s->tv_usec = v % 1000000000 / 1000; return 0; }
long __real__ZNSt6chrono3_V212steady_clock3nowEv(); long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { Task* t; if (!sim(t)) return __real__ZNSt6chrono3_V212steady_clock3nowEv(); return sim_now(); }
long __real__ZNSt6chrono3_V212system_clock3nowEv(); long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { Task* t; if (!sim(t)) return __real__ZNSt6chrono3_V212system_clock3nowEv(); return sim_now(); }
int __real_rand(); int __wrap_rand() { Task* t; if (!sim(t)) return __real_rand(); return int(sim_now() >> 3) & 0x7fffffff; }
long __real_random(); long __wrap_random() { Task* t; if (!sim(t)) return __real_random(); return long(sim_now() >> 3) & 0x7fffffff; }
// the environment: unset in the reference execution, anything else while simulated
static char* sim_env(const char* n) { static char vals[5][5] = {"", "0", "1", "4", "on"}; uint64_t h = g.salt; for (; n && *n; n++) h = mix(h, uint64_t(*n)); return g.alone || (h & 8) ? nullptr : vals[(h >> 8) % 5]; }
char* __real_getenv(const char*); char* __wrap_getenv(const char* n) { Task* t; if (!sim(t)) return __real_getenv(n); return sim_env(n); }
char* __real_secure_getenv(const char*); char* __wrap_secure_getenv(const char* n) { Task* t; if (!sim(t)) return __real_secure_getenv(n); return sim_env(n); }
int __real_sched_getcpu(); int __wrap_sched_getcpu() { Task* t; if (!sim(t)) return __real_sched_getcpu(); return g.alone ? 0 : int(sim_now() >> 5) & 7; }
unsigned __real__ZNSt13random_device9_M_getvalEv(void*); unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* p) { Task* t; if (!sim(t)) return __real__ZNSt13random_device9_M_getvalEv(p); return unsigned(mix(sim_now(), 7)); }
}

// ======================================================= allocator
struct Hdr { uint64_t magic; uint32_t size; uint16_t cls; uint16_t task; uint32_t uid; uint32_t pad; Hdr* next; };
static const uint64_t H_LIVE = 0x4c4956454c495645ull, H_FREE = 0x4652454546524545ull;
static int size_class(size_t n) { int c = 0; while ((size_t(32) << c) < n) c++; return c; }
static void fill_garbage(uint8_t* p, size_t n, uint64_t salt);
static void* arena_alloc(Task* t, size_t n) {
  Out o(t); CallState* cs = t->cs; cs->alloc++; cs->nalloc_total++; g.log->allocs++;
  step_point(t, 2);
  bool fail = false;
  if (!g.alone) {
    if (cs->alloc == cs->alloc_at) { fail = true; g.log->fired[FK_ALLOC]++; }
    if (cs->alloc_from && cs->alloc >= cs->alloc_from) { fail = true; g.log->fired[FK_ALLOC_FROM]++; }
    if (cs->alloc_rate && cs->frng.below(100) < cs->alloc_rate) { fail = true; g.log->fired[FK_ALLOC_RATE]++; }
  }
  if (fail) { cs->fired_alloc = true; hash_in(mix(0xa110c, cs->alloc)); return nullptr; }
  int c = size_class(n + sizeof(Hdr)); if (c > 20) return nullptr;
  Hdr* h = (Hdr*)heap_free[c];
  if (h) heap_free[c] = (uint8_t*)h->next;
  else { if (heap_top + (size_t(32) << c) > HEAP + HEAP_SZ) return nullptr; h = (Hdr*)heap_top; heap_top += size_t(32) << c; }
  h->magic = H_LIVE; h->size = uint32_t(n); h->cls = c; h->task = t->id; h->uid = cs->d->uid; cs->outstanding++;
  uint8_t* p = (uint8_t*)(h + 1);
  fill_garbage(p, n, mix(g.salt, cs->alloc));
  if (!g.alone && g.plan->race) { Sh* s = shadow((uintptr_t)h); memset((void*)s, 0, (size_t(32) << c) * sizeof(Sh)); }
  return p;
}
static void arena_free(void* p) {
  Hdr* h = (Hdr*)p - 1; Task* t = cur;
  if (h->magic != H_LIVE) violate(h->magic == H_FREE ? "double-free" : "bad-free", "memory released twice or never allocated");
  // account to the innermost active call of the allocating task that made it
  for (int i = 0; i < g.nc; i++) for (CallState* c = g.tasks[i].cs; c; c = c->up) if (c->d->uid == h->uid) c->outstanding--;
  h->magic = H_FREE; memset(p, 0xDD, h->size); h->next = (Hdr*)heap_free[h->cls]; heap_free[h->cls] = (uint8_t*)h; (void)t;
}
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { Task* t; if (!sim(t)) return __real_malloc(n); return arena_alloc(t, n); }
void __wrap_free(void* p) { if (p && in_heap((uintptr_t)p)) { arena_free(p); return; } __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { Task* t; if (!sim(t)) return __real_calloc(a, b); void* p = arena_alloc(t, a * b); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) { Task* t; if (!sim(t)) return __real_realloc(p, n); void* q = arena_alloc(t, n); if (q && p) { Hdr* h = (Hdr*)p - 1; memcpy(q, p, h->size < n ? h->size : n); arena_free(p); } return q; }
void* __real_aligned_alloc(size_t, size_t); void* __wrap_aligned_alloc(size_t a, size_t n) { Task* t; if (!sim(t)) return __real_aligned_alloc(a, n); return arena_alloc(t, n); }
int __real_posix_memalign(void**, size_t, size_t); int __wrap_posix_memalign(void** p, size_t a, size_t n) { Task* t; if (!sim(t)) return __real_posix_memalign(p, a, n); *p = arena_alloc(t, n); return *p ? 0 : ENOMEM; }
}
void* operator new(size_t n) { Task* t = cur; void* p = t && t->in_lib ? arena_alloc(t, n ? n : 1) : __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { Task* t = cur; return t && t->in_lib ? arena_alloc(t, n ? n : 1) : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& x) noexcept { return operator new(n, x); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }

// ======================================================= element seam
const char fault_text[65] = "................................................................";
[[noreturn]] static void throw_fault(uint32_t type, uint64_t id) {
  switch (type % FAULT_TYPES) { case 0: throw InjectedFault{id}; case 1: throw int(id & 0x7fffffff); case 2: throw (unsigned long)id; case 3: throw fault_text + id % 64; }
  int k = 4;
#define X(name, base, arg) if (int(type % FAULT_TYPES) == k++) throw name(id);
  FAULT_CLASSES(X)
#undef X
  throw InjectedFault{id};
}
void rt_elem_op(const char*) {
  Task* t = cur; if (!t || !t->in_lib) return;
  CallState* cs = t->cs; cs->elem++; g.log->elem_ops++;
  Out o(t);
  if (cs->elem == cs->throw_at) { cs->fired_throw = true; g.log->fired[FK_THROW]++; hash_in(mix(0x7480, cs->elem)); throw_fault(cs->throw_type, cs->fault_id); }
  step_point(t, 1);
}
void rt_elem_born() { Task* t = cur; if (t) t->live++; }
void rt_elem_dead() { Task* t = cur; if (t) t->live--; }
void rt_elem_bad(const char* w) { if (cur && g.log) violate("element-lifetime", "%s an element that is not alive; %s", w, cur->cs ? desc_str(*cur->cs->d).c_str() : ""); abort(); }
static void elem_access(const void* p, size_t n, bool w) {
  Task* t = cur; if (!t || !t->in_lib) return; Out o(t); uintptr_t a = (uintptr_t)p;
  if (g.helpers && !in_oper(a) && !in_static(a) && !in_heap(a)) { if (!g.alone && g.plan->race) race_check(t, a, n, w); return; }
  if (in_stack(t, a)) return;
  if (in_oper(a)) { if (w || g.plan->footprint || g.plan->race) oper_access(t, a, n, w); }
  else if (in_static(a) || in_heap(a)) { step_point(t, 2); if (!g.alone && g.plan->race) race_check(t, a, n, w); }
}
void rt_elem_write(const void* p, size_t n) { elem_access(p, n, true); }
void rt_elem_read(const void* p, size_t n) { elem_access(p, n, false); }
void rt_put(Call& k, const void* p, size_t n) { if (k.len + n <= k.cap) memcpy(k.out + k.len, p, n); k.len += n; }
static void drop_operands(CallState* cs);
int rt_hold(Call& k) {
  Task* t = cur; CallState* cs = t->cs; if (g.alone || !cs->nhold) return 0;
  k.len1 = k.len; g.log->fired[FK_HOLD]++;
  if (cs->hold_flags & 4) { drop_operands(cs); cs->operands_gone = true; }
  if (cs->depth + 1 < MAXDEPTH) for (int i = 0; i < cs->nhold; i++) { uint32_t r0 = t->rep; for (uint32_t r = 0; r < cs->hold[i]->rep; r++) { t->rep = r; docall(t, *cs->hold[i], cs->depth + 1); t->cs = cs; } t->rep = r0; }
  return int(cs->hold_flags);
}
void rt_after(Call&) {   // the same calls again, after the owner has overwritten the result
  Task* t = cur; CallState* cs = t->cs;
  if (cs->depth + 1 < MAXDEPTH) { uint32_t r0 = t->rep; t->rep = 1; docall(t, *cs->hold[0], cs->depth + 1); t->cs = cs; t->rep = r0; }
}
LibScope::LibScope() { cur->in_lib = true; }
LibScope::~LibScope() { cur->in_lib = false; }

// ======================================================= output device behind std::cout
struct DevBuf : std::streambuf {
  bool event(size_t& n) {   // returns false: the device fails now; may shorten n
    Task* t = cur; if (!t || !t->cs) return true;
    bool il = t->in_lib; if (!il) return true;
    Out o(t); CallState* cs = t->cs; cs->dev++; g.log->dev_events++;
    step_point(t, 2);
    if (cs->dev_at && cs->dev >= cs->dev_at) {
      FaultKind k = cs->dev_kind;
      if (k == FK_DSYNC && n != size_t(-1)) return true;      // waits for the next flush
      if (k == FK_DSHORT && n == size_t(-1)) return true;     // waits for the next write
      if (!cs->dev_stays) cs->dev_at = 0;
      g.log->fired[k]++; hash_in(mix(0xde7, cs->dev));
      if (k == FK_CRASH) { crash(t); }
      for (CallState* c : g.prints) c->degraded = true;
      cs->degraded = true;
      if (k == FK_DTHROW) throw InjectedFault{cs->fault_id};
      if (k == FK_DSHORT) { n = n / 2; }
      else n = 0;
      return false;
    }
    return true;
  }
  void crash(Task* t);
  void take(const char* s, size_t n) {
    Task* t = cur; if (!t || !t->cs) return; Out o(t); RunLog* L = g.log; uint32_t uid = t->cs->d->uid;
    for (size_t i = 0; i < n; i++) {
      if (L->ndev >= DEVCAP) violate("output-differs", "%s writes without end", desc_str(*t->cs->d).c_str());
      // invariant: a row is flushed before anything of the next one is written
      for (int j = int(L->ndev) - 1; j >= 0 && j > int(L->ndev) - 4096; j--) if (L->dev[j].uid == uid) {
        if (L->dev[j].c == '\n' && uint32_t(j) >= L->ndur && !g.alone && g.plan->prop == "C08") violate("row-not-flushed", "%s writes the next row before the finished one is flushed", desc_str(*t->cs->d).c_str());
        break; }
      L->dev[L->ndev++] = DevChar{uid, uint8_t(t->id), s[i]};
    }
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override { size_t k = n; bool ok = event(k); take(s, k); return ok ? n : std::streamsize(k); }
  int_type overflow(int_type c) override { if (c == traits_type::eof()) return 0; size_t k = 1; char ch = char(c); bool ok = event(k); if (!ok) k = 0; take(&ch, k); return ok ? c : traits_type::eof(); }
  int sync() override { size_t k = size_t(-1); bool ok = event(k); if (!ok) return -1; if (cur) g.log->ndur = g.log->ndev; return 0; }
};
static DevBuf* devbuf;
static std::string text_of(const CallState* cs, uint32_t upto, uint32_t* last = nullptr) { std::string s; uint32_t uid = cs->d->uid; for (uint32_t i = cs->dev_from; i < upto; i++) if (g.log->dev[i].uid == uid) { s += g.log->dev[i].c; if (last) *last = i; } return s; }
static void check_prefix(const CallState* cs, const std::string& want) {
  std::string got = text_of(cs, g.log->ndev);
  if (want.compare(0, got.size(), got) != 0) violate("output-not-a-prefix", "%s: the output received \"%.100s\", which is not a prefix of \"%.100s\"", desc_str(*cs->d).c_str(), got.c_str(), want.c_str());
}
void DevBuf::crash(Task*) {
  g.log->crashed = 1;
  for (CallState* c : g.prints) { auto it = g.expect->find(c->d->uid); if (it == g.expect->end()) continue; check_prefix(c, it->second.text); }
  // every call that had returned without a device failure must be durable
  for (auto& task : g.plan->tasks) for (auto& d : task) { (void)d; }
  finish(0);
}

// ======================================================= values
void gen_values(Type ty, Shape sh, uint8_t kind, uint32_t vseed, std::vector<Q>& q, std::vector<double>& raw) {
  int r = sh.r, c = sh.c, n = r * c; q.assign(n, Q{0, 1}); raw.clear();
  if (kind == K_TINY || kind == K_HUGE || kind == K_DOMTINY || kind == K_DOMHUGE) {   // scaled by a power of two: the same computation, with exponents shifted
    gen_values(ty, sh, kind == K_TINY || kind == K_HUGE ? K_SMALL : K_DOM, vseed, q, raw);
    if (!t_flt(ty) && ty != T_R) return;
    int k = (ty == T_R ? 20 : 90) / std::max(r, c), top = ty == T_R ? 8 : 30; if (k > top) k = top;
    for (auto& x : q) x = kind == K_TINY || kind == K_DOMTINY ? q_make(x.n, (__int128)x.d << k) : q_make((__int128)x.n << k, x.d);
    return;
  }
  Rng g1(mix(vseed & 0xffffff, kind * 977 + 5));
  bool ints = t_int(ty); int m = (ints && r >= 4) ? 2 : 9;
  auto small = [&] { return Q{g1.range(-m, m), 1}; };
  auto nz = [&] { int v = g1.range(1, m); return Q{g1.chance(1, 2) ? v : -v, 1}; };
  switch (kind) {
    default: case K_SMALL: for (auto& x : q) x = small(); break;
    case K_FRAC: for (auto& x : q) { if (ints) x = small(); else x = q_make(g1.range(-40, 40), 1 << g1.below(4)); } break;
    case K_ZROW: { for (auto& x : q) x = nz(); int z = g1.below(r); for (int j = 0; j < c; j++) q[z * c + j] = Q{0, 1}; break; }
    case K_ZCOL: { for (auto& x : q) x = nz(); int z = g1.below(c); for (int i = 0; i < r; i++) q[i * c + z] = Q{0, 1}; break; }
    case K_DUPROW: { for (auto& x : q) x = nz(); if (r > 1) { int a = g1.below(r), b = (a + 1 + g1.below(r - 1)) % r; int f = g1.chance(1, 2) ? 1 : -1; for (int j = 0; j < c; j++) q[b * c + j] = Q{q[a * c + j].n * f, 1}; } else for (auto& x : q) x = Q{0, 1}; break; }
    case K_IDENT: { int v = g1.chance(1, 2) ? 1 : g1.range(1, 3); for (int i = 0; i < r && i < c; i++) q[i * c + i] = Q{v, 1}; break; }
    case K_SPD: { std::vector<int> L(n, 0); for (int i = 0; i < r; i++) for (int j = 0; j <= i && j < c; j++) L[i * c + j] = i == j ? g1.range(1, 3) : g1.range(-2, 2);
      for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int s = 0; for (int k = 0; k < r && k < c; k++) s += L[i * c + k] * (j < r ? L[j * c + k] : 0); q[i * c + j] = Q{s, 1}; } break; }
    case K_DOM: { for (auto& x : q) x = Q{g1.range(-1, 1), 1}; for (int i = 0; i < r && i < c; i++) q[i * c + i] = Q{(r + g1.range(0, 3)) * (g1.chance(1, 4) ? -1 : 1), 1}; break; }
    case K_SPECIAL: { static const double sp[] = {NAN, INFINITY, -INFINITY, 0.0, -0.0, 1e300, -1e300, 1e-310, 1, -1, 2, 0.5, 3e38, 1e-40}; raw.resize(n); int lvl = g1.range(1, 8);
      for (int i = 0; i < n; i++) { if (int(g1.below(8)) < lvl) raw[i] = sp[g1.below(14)]; else raw[i] = g1.range(-9, 9); } break; }
    case K_INFS: { raw.resize(n); for (auto& x : raw) { int v = int(g1.below(10)); x = v == 0 ? INFINITY : v == 1 ? -INFINITY : v == 2 ? -0.0 : v == 3 ? 0.0 : g1.range(-2, 2); } break; }
    case K_DIAG: { // regular diagonal matrices with extreme values: none of them meets a zero determinant or pivot
      raw.assign(n, 0.0); int m2 = std::min(r, c), v = int(vseed % 9), at = int(g1.below(m2)); double den = ty == T_F ? 1e-40 : 1e-310, top = ty == T_F ? 1e38 : 1e307;
      static const double sp[] = {NAN, INFINITY, -INFINITY, 0, 1e-30, -1e-20};
      for (int i = 0; i < m2; i++) { double x = g1.chance(1, 2) ? 1 : g1.chance(1, 2) ? -1 : 2; if (v < 6) { if (i == at) x = v == 3 ? den : sp[v]; } else if (v == 6) x = std::ldexp(x, -100 / m2); else if (v == 7) x = std::ldexp(x, 90 / m2); else x = top; raw[i * c + i] = x; }
      break; }
    case K_ROUGH: { // arbitrary mantissas, so that sums and products round: only the identity of results is judged
      raw.resize(n); int form = int(g1.below(4)), e = form == 3 ? 12 : 3; bool dom = g1.chance(1, 2), sym = g1.chance(1, 4);
      for (auto& x : raw) { x = std::ldexp(double(g1.next() >> 11) / 9007199254740992.0, g1.range(-e, e)); if (form != 1 && g1.chance(1, 2)) x = -x; if (form == 2) x = double(int(x * 10)) / 10; }
      if (sym && r == c) for (int i = 0; i < r; i++) for (int j = 0; j < i; j++) raw[i * c + j] = raw[j * c + i];
      if (dom) for (int i = 0; i < r && i < c; i++) raw[i * c + i] += std::ldexp(double(r), e);
      break; }
    case K_ZERO: break;
    case K_SORTED: { int v = g1.range(-m, 0), s = g1.chance(1, 3) ? 0 : 1; for (auto& x : q) { x = Q{v, 1}; if (v < m + 3 && (s || g1.chance(1, 2))) v++; else if (v >= m + 3) s = 0; } if (g1.chance(1, 3)) std::reverse(q.begin(), q.end()); if (g1.chance(1, 4)) std::swap(q[g1.below(n)], q[g1.below(n)]); break; }
    case K_SIGN: { int s = g1.chance(1, 2) ? 1 : -1; for (auto& x : q) x = Q{s * g1.range(1, m), 1}; if (g1.chance(1, 2)) { auto& x = q[g1.below(n)]; x.n = g1.chance(1, 2) ? -x.n : 0; } break; }
    case K_MAGIC: { static const int mv[] = {0, 1, -1, 2, 3, 7, 8, 10, 13, 16, 31, 32, 42, 50, 64, 99, 100, 101, 127, 128, -128, -100, -42, -10, -2}; for (auto& x : q) x = Q{mv[g1.below(25)], 1}; break; }
    case K_PERM: { // rows and perhaps columns of a sparse triangular matrix in another order: elimination is exact also in floating point. Some are singular
      int form = int(g1.below(10)), m2 = std::min(r, c);
      if (form < 2) { for (int j = 0; j < c; j++) q[j] = nz(); for (int i = 1; i < r; i++) { int s = g1.chance(1, 3) ? -1 : 1; for (int j = 0; j < c; j++) q[i * c + j] = Q{q[j].n * s, 1}; } break; }   // rank one
      std::vector<int> pr(r), pc(c); for (int i = 0; i < r; i++) pr[i] = i; for (int j = 0; j < c; j++) pc[j] = j;
      if (form == 2) std::reverse(pr.begin(), pr.end()); else if (form == 3) std::rotate(pr.begin(), pr.begin() + 1, pr.end()); else if (form == 4) std::rotate(pr.begin(), pr.end() - 1, pr.end());
      else { for (int i = r - 1; i > 0; i--) std::swap(pr[i], pr[g1.below(i + 1)]); if (form == 5 && r <= 8) for (int j = c - 1; j > 0; j--) std::swap(pc[j], pc[g1.below(j + 1)]); }
      int dens = int(g1.below(4)); bool lower = r <= 8 && g1.chance(1, 2);
      for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int v = 0; if (i == j) { static const int dv[] = {1, 1, -1, 2}; v = dv[g1.below(4)]; } else if ((i < j) != lower && int(g1.below(8)) < dens) v = g1.chance(1, 2) ? 1 : -1; q[pr[i] * c + pc[j]] = Q{v, 1}; }
      if (g1.chance(1, 4)) { int k = g1.chance(1, 2) ? m2 - 1 : int(g1.below(m2)); q[pr[k] * c + pc[k]] = Q{0, 1}; }
      break; }
    case K_SPARSE: for (auto& x : q) x = g1.chance(1, 3) ? small() : Q{0, 1}; break;
    case K_FEW: { int d = g1.range(1, 3); for (auto& x : q) x = Q{int64_t(g1.below(d)) - 1, 1}; break; }
    case K_SYM: for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { if (j < i && j < r && i < c) q[i * c + j] = q[j * c + i]; else q[i * c + j] = small(); }
      if (g1.chance(1, 3) && r > 1 && c > 1) q[c] = q_add(q[1], Q{1, 1});   // nearly symmetric
      break;
    case K_BIG: { int64_t top = ty == T_S ? 32767 : ty == T_I ? 2147483647 : ty == T_U ? 4294967295ll : ty == T_B ? 255 : ty == T_L ? (int64_t(1) << 62) : 1000000; for (auto& x : q) { int64_t v = g1.chance(1, 3) ? top - int64_t(g1.below(3)) : g1.chance(1, 2) ? int64_t(g1.next() % uint64_t(top)) : int64_t(g1.below(3)); x = Q{!t_uns(ty) && g1.chance(1, 2) ? -v : v, 1}; } break; }
    case K_ONESV: for (auto& x : q) x = Q{1, 1}; break;
    case K_LMINOR: { // diagonally dominant, but a leading minor vanishes: LU without pivoting must fail, the matrix may be regular
      for (auto& x : q) x = nz(); int k = 1 + g1.below(r < c ? r : c); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) q[i * c + j] = Q{i == j ? 2 : 0, 1};
      for (int j = 0; j < k; j++) { q[(k - 1) * c + j] = Q{0, 1}; q[j * c + k - 1] = Q{0, 1}; } break; }
  }
  // relatives of the matrix with the low bits of vseed: see sim.h
  const uint32_t rel = vseed >> 24; auto bump = [&](int i, int by) { q[i] = q_add(q[i], Q{by, 1}); };
  if (rel == REL_REVERSED) { std::reverse(q.begin(), q.end()); std::reverse(raw.begin(), raw.end()); }
  else if (rel && kind == K_ROUGH && t_flt(ty)) {   // differences down to the last bit of the element type
    auto near = [&](int i) { raw[i] = ty == T_F ? double(std::nextafterf(float(raw[i]), INFINITY)) : rel & 1 ? std::nextafter(raw[i], INFINITY) : raw[i] + std::ldexp(1.0, -20); };
    switch (rel) {
      case REL_NEGATED: for (auto& x : raw) x = -x; break;
      case REL_SWAPPED: std::swap(raw[0], raw[n - 1]); break;
      case REL_DOUBLED: for (auto& x : raw) x *= 2; break;
      case REL_LAST: near(n - 1); break;
      case REL_MID: near(n / 2); break;
      case REL_REST: for (int i = 1; i < n; i++) near(i); break;
      case REL_HALF: for (int i = n / 2; i < n; i++) near(i); break;
      default: near(int(mix(vseed, 5) % uint64_t(n))); break;
    }
  }
  else if (rel && raw.empty()) switch (rel) {
    case REL_LAST: bump(n - 1, 1); break;
    case REL_MID: bump(n / 2, 1); break;
    case REL_NEGATED: for (auto& x : q) x.n = -x.n; break;
    case REL_SWAPPED: std::swap(q[0], q[n - 1]); break;
    case REL_TRANSPOSED: if (r == c) for (int i = 0; i < r; i++) for (int j = 0; j < i; j++) std::swap(q[i * c + j], q[j * c + i]); else std::swap(q[0], q[n - 1]); break;
    case REL_REST: for (int i = 1; i < n; i++) bump(i, 1); break;                    // all but the first element
    case REL_SAMESUM: if (n > 2) { bump(1, 1); bump(n - 1, -1); } break;             // same first element, same sum
    case REL_DOUBLED: for (auto& x : q) x = q_mul(x, Q{2, 1}); break;
    case REL_RANDOM: bump(int(mix(vseed, 5) % uint64_t(n)), 1); break;
    case REL_HALF: for (int i = n / 2; i < n; i++) bump(i, 1); break;
  }
  if ((kind == K_SPECIAL || kind == K_INFS || kind == K_DIAG || kind == K_ROUGH) && !t_flt(ty)) { raw.clear(); for (auto& x : q) x = small(); }
}
static void fill_garbage(uint8_t* p, size_t n, uint64_t salt) {
  Rng r(salt); int mode = int(r.below(5));
  for (size_t i = 0; i + 8 <= n; i += 8) {
    uint64_t v; double d; float f[2]; int32_t k[2];
    switch (mode) {
      case 0: v = r.next(); break;
      case 1: d = double(r.range(-9, 9)) + 0.5; memcpy(&v, &d, 8); break;
      case 2: f[0] = float(r.range(-9, 9)) + 0.25f; f[1] = float(r.range(1, 5)); memcpy(&v, f, 8); break;
      case 3: k[0] = r.range(-9, 9); k[1] = r.range(1, 99); memcpy(&v, k, 8); break;
      default: v = r.chance(1, 2) ? ~0ull : 0x0101010101010101ull * r.below(256); break;
    }
    memcpy(p + i, &v, 8);
  }
  for (size_t i = n & ~size_t(7); i < n; i++) p[i] = uint8_t(r.next());
}
void* rt_temp(Call&, int i) { Task* t = cur; return TEMPS + (size_t(t->id) * MAXDEPTH + size_t(t->cs->depth)) * 2 * SLOT + size_t(i) * SLOT + SLOT_OFF; }
void rt_garbage(void* p, size_t n) { fill_garbage((uint8_t*)p, n, mix(g.salt, 0xdeadd)); }
__attribute__((noinline)) static void poison_stack(uint64_t salt, size_t n) { uint8_t* p = (uint8_t*)__builtin_alloca(n); fill_garbage(p, n, salt); asm volatile("" : : "r"(p) : "memory"); }

std::string desc_str(const CallDesc& d) {
  char b[256]; const OpInfo& o = g_ops[d.op];
  snprintf(b, sizeof b, "call %u %s operands(%s#%u%s, %s#%u%s) p=(%d,%d,%d) ctx=%d%s", d.uid, o.name, kind_name[d.kind[0]], d.vseed[0], d.place[0] >= 0 ? " shared" : "", kind_name[d.kind[1]], d.vseed[1], d.place[1] >= 0 ? " shared" : "", d.p[0], d.p[1], d.p[2], d.ctx, d.cat == 0 ? "" : d.cat == 1 ? " on variables" : " on temporaries");
  return b;
}
double step_bound(const OpInfo& o, const CallDesc& d) {
  double w = o.work; if (o.flags & F_EXP) w *= 2 + std::abs(double(d.p[1]));
  const double n = double(o.in[0].r) * o.in[0].c; return 1e6 + 200 * w + ((o.flags & F_ORDER) ? 30 * n * n : 0);   // a quadratic sort is bounded, too
}

// ======================================================= one call
// operands lie at every address their type allows; alone, and in a third of the runs, at round ones
static uint8_t* slot_addr(int i, Type ty) {
  size_t off = 0, al = ty == T_C || ty == T_R ? 8 : type_ops[ty].size; if (!g.alone && mix(g.plan->seed, 0xa119) % 3) off = mix(g.plan->seed, uint64_t(i) + 7) % 256 / al * al;
  return OPER + size_t(i) * SLOT + SLOT_OFF + off;
}
static int place_slot(const Task* t, int place, int depth) { if (place >= 0) return place; int k = -1 - place; return 16 + (g.plan->sharedbufs ? 0 : t->id) * 4 * MAXDEPTH + (k % 4) + 4 * depth; }
static void make_operand(int slot, Type ty, Shape sh, uint8_t kind, uint32_t vseed, uint64_t salt) {
  std::vector<Q> q; std::vector<double> raw; gen_values(ty, sh, kind, vseed, q, raw);
  uint8_t* a = slot_addr(slot, ty); size_t bytes = type_ops[ty].size * sh.r * sh.c;
  fill_garbage(a - SLOT_OFF, SLOT_OFF, mix(salt, 1)); fill_garbage(a + bytes, 512, mix(salt, 2));
  type_ops[ty].construct(a, q.data(), raw.empty() ? nullptr : raw.data(), sh.r * sh.c);
}
static void classify(CallState& cs, Call& k, Outcome& st, std::string& what, uint64_t& fid) {
  k.len = 0;
  // what earlier code left behind: error number and sticky floating-point flags
  std::feclearexcept(FE_ALL_EXCEPT); errno = 0;
  if (!g.alone) { static const int en[] = {0, EDOM, ERANGE, ENOMEM, EINVAL}; uint64_t x = mix(g.salt, 0xf1a9); errno = en[x % 5]; if (x & 0x100) std::feraiseexcept(int(x >> 16) & FE_ALL_EXCEPT); }
  try { k.op->fn(k); st = ST_OK; }
  catch (InjectedFault& e) { st = ST_FAULT; fid = e.id; }
#define X(name, base, arg) catch (name& e) { st = ST_FAULT; fid = e.id; }
  FAULT_CLASSES(X)
#undef X
  catch (unsigned long& e) { st = ST_FAULT; fid = e; }
  catch (int& e) { st = ST_FAULT; fid = uint32_t(e) == (cs.fault_id & 0x7fffffff) ? cs.fault_id : 0; }
  catch (const char*& e) { st = ST_FAULT; fid = e == fault_text + cs.fault_id % 64 ? cs.fault_id : 0; }
  catch (OtherError&) { st = ST_OTHERERR; }
  catch (std::bad_alloc&) { st = ST_BADALLOC; }
  catch (std::overflow_error&) { st = ST_OVERFLOW; }
  catch (std::ios_base::failure&) { st = ST_IOS; }
  catch (std::exception& e) { st = ST_STDEXC; what = typeid(e).name(); }
  catch (...) { st = ST_UNKNOWN; }
}
static void drop_operands(CallState* cs) {
  const OpInfo& op = *cs->op; const TypeOps& ty = type_ops[op.type];
  for (int i = 0; i < op.nin; i++) if (cs->d->place[i] < 0 && !(i == 1 && cs->d->place[1] == cs->d->place[0])) {
    uint8_t* a = slot_addr(cs->slots[i], op.type); int n = op.in[i].r * op.in[i].c; ty.destroy(a, n); if (cs->hold_flags & 4) fill_garbage(a, ty.size * n, mix(cs->d->salt, 0xdead)); }
}
static const Expected* expected(uint32_t uid) { if (!g.expect) return nullptr; auto it = g.expect->find(uid); return it == g.expect->end() ? nullptr : &it->second; }

static void setup_cs(Task* t, CallState& cs, const CallDesc& d, int depth) {
  cs.d = &d; cs.op = &g_ops[d.op]; cs.step = cs.elem = cs.alloc = cs.dev = 0; cs.throw_type = 0; cs.throw_at = cs.alloc_at = cs.alloc_from = cs.stall_at = 0; cs.alloc_rate = 0; cs.nnest = cs.inest = cs.nhold = 0; cs.hold_flags = 0; cs.operands_gone = false; cs.dev_at = 0; cs.dev_kind = FK_N; cs.dev_stays = false;
  cs.fired_throw = cs.fired_alloc = false; cs.fault_id = mix(d.uid, 0xfa); cs.outstanding = 0; cs.nalloc_total = 0; cs.depth = depth; cs.up = t->cs; cs.tgt = nullptr; cs.tgt_len = 0; cs.printing = cs.degraded = false; cs.dev_from = 0;
  cs.limit = step_bound(*cs.op, d); cs.frng = Rng(mix(d.salt, 0xf00d));
  if (g.alone) return;
  for (const Fault& f : g.plan->faults) if (f.uid == d.uid) switch (f.kind) {
    case FK_THROW: cs.throw_at = f.k; cs.throw_type = f.arg; break;
    case FK_ALLOC: cs.alloc_at = f.k; break;
    case FK_ALLOC_FROM: cs.alloc_from = f.k; break;
    case FK_ALLOC_RATE: cs.alloc_rate = f.k; break;
    case FK_STALL: cs.stall_at = f.k; break;
    case FK_NEST: if (cs.nnest < 8) for (auto& a : g.plan->aux) if (a.uid == f.arg) { int i = cs.nnest++; while (i > 0 && cs.nest_at[i - 1] > f.k) { cs.nest_at[i] = cs.nest_at[i - 1]; cs.nest[i] = cs.nest[i - 1]; i--; } cs.nest_at[i] = f.k; cs.nest[i] = &a; } break;
    case FK_HOLD: cs.hold_flags |= f.k; if (cs.nhold < 8) for (auto& a : g.plan->aux) if (a.uid == f.arg) cs.hold[cs.nhold++] = &a; break;
    default: cs.dev_at = f.k; cs.dev_kind = f.kind; cs.dev_stays = f.arg & 1; break;   // the device recovers at once, or not during the call
  }
}
static bool owns(int task, int line) { return line % g.nc == task; }

// rounding, flush-to-zero and trap settings of both floating-point units
static int fpmode() { return int(_mm_getcsr() & ~0x3fu) ^ (fegetround() << 16); }
static void docall(Task* t, const CallDesc& d, int depth) {
  RunLog* L = g.log; const OpInfo& op = g_ops[d.op]; const TypeOps& ty = type_ops[op.type];
  CallState cs; setup_cs(t, cs, d, depth);
  t->cs = &cs; t->in_lib = false; L->cur_task = t->id; L->cur_uid = d.uid;
  if (uint64_t(depth) > L->maxdepth) L->maxdepth = depth;
  if (!depth) preempt_point(t, (g.alone || !g.plan) ? 0 : g.plan->sched.policy == 0 ? 0x6000 : 0x2000);
  L->cur_task = t->id; L->cur_uid = d.uid;
  Call k; k.op = &op; k.in[0] = k.in[1] = nullptr; memcpy(k.p, d.p, sizeof k.p); k.cat = d.cat; if (!t->outbuf[depth]) t->outbuf[depth] = (uint8_t*)__real_malloc(OUTCAP); k.out = t->outbuf[depth]; k.len = 0; k.cap = OUTCAP; k.len1 = 0;
  g.salt = mix(d.salt, g.alone ? 0xa10e : 0x5e1f + t->rep); g.clock = mix(g.salt, 3) >> 8;
  int slots[2] = {-1, -1}; std::vector<uint8_t> before[2];
  for (int i = 0; i < op.nin; i++) {
    int pl = d.place[i]; slots[i] = place_slot(t, pl, depth);
    if (pl < 0 && !(i == 1 && pl == d.place[0])) make_operand(slots[i], op.type, op.in[i], d.kind[i], d.vseed[i], mix(d.salt, 10 + i + (g.alone ? 100 : 0)));
    k.in[i] = slot_addr(slots[i], op.type);
    if (!(op.flags & F_INPLACE)) { before[i].resize(32 * op.in[i].r * op.in[i].c); ty.serialize(k.in[i], op.in[i].r * op.in[i].c, before[i].data()); }
  }
  cs.slots[0] = slots[0]; cs.slots[1] = slots[1];
  bool shared_tgt = !g.alone && g.plan->footprint && d.place[0] >= 0;
  if (shared_tgt) { cs.tgt = slot_addr(slots[0], op.type); cs.tgt_len = ty.size * op.in[0].r * op.in[0].c; }
  if (op.flags & F_PRINT) {
    if (std::cout.rdstate() != std::ios::goodbit) { if (g.prints.empty()) std::cout.clear(); else cs.degraded = true; }
    if (g.prints.empty()) L->ndev = L->ndur = 0;
    cs.printing = true; cs.dev_from = L->ndev; g.prints.push_back(&cs);
  }
  L->cur_task = t->id; L->cur_uid = d.uid;
  static const int rm[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; if (d.round) fesetround(rm[d.round & 3]);
  long live0 = t->live; int round0 = fpmode();
  poison_stack(mix(g.salt, 99), depth ? 16384 : d.rep > 1 ? 2048 : 131072);
  Outcome st = ST_UNKNOWN; std::string what; uint64_t fid = 0;
  if (d.ctx == CTX_HANDLER) {
    OtherError* e1 = nullptr;
    try { throw OtherError{d.uid}; }
    catch (OtherError& e) {
      e1 = &e; classify(cs, k, st, what, fid);
      bool good = false;
      try { throw; } catch (OtherError& e2) { good = &e2 == e1 && e2.id == d.uid; } catch (...) {}
      if (!good) violate("callers-exception-lost", "%s: the exception being handled by the caller is gone", desc_str(d).c_str());
    }
  } else if (d.ctx == CTX_UNWIND) {
    struct D { CallState& cs; Call& k; Outcome& st; std::string& what; uint64_t& fid; ~D() { classify(cs, k, st, what, fid); } };
    bool good = false;
    try { D dd{cs, k, st, what, fid}; throw OtherError{d.uid}; } catch (OtherError& e2) { good = e2.id == d.uid; } catch (...) {}
    if (!good) violate("callers-exception-lost", "%s: the exception being propagated by the caller is gone", desc_str(d).c_str());
  } else classify(cs, k, st, what, fid);
  t->in_lib = false;
  L->calls++; if (st == ST_OK) L->calls_ok++; else L->calls_err++;
  hash_in(mix(d.uid, mix(st, cs.step))); { uint64_t h = 0; for (size_t i = 0; i < k.len && i < k.cap; i++) h = h * 1099511628211ull + k.out[i]; hash_in(h); }
  if (k.len > k.cap) { fprintf(stderr, "result too long\n"); _exit(77); }
  if (g.alone) {
    L->st = st; L->len = uint32_t(k.len); memcpy(L->bytes, k.out, k.len); L->a_steps = cs.step; L->a_elem = cs.elem; L->a_allocs = cs.nalloc_total; L->a_dev = cs.dev; L->a_out = cs.outstanding;
    t->cs = nullptr; finish(0);
  }
  const Plan& P = *g.plan; const Expected* ex = expected(d.uid);
  if (P.fpenv && fpmode() != round0) soft("rounding-mode-changed", "%s leaves another rounding mode behind", desc_str(d).c_str());
  if (d.round) fesetround(FE_TONEAREST);
  // -- operands
  if (!(op.flags & F_INPLACE)) for (int i = 0; i < op.nin; i++) {
    if (cs.operands_gone && d.place[i] < 0) continue;
    std::vector<uint8_t> after(before[i].size()); ty.serialize(k.in[i], op.in[i].r * op.in[i].c, after.data());
    if (after != before[i]) soft("operand-changed", "%s: operand %d differs after the call (%s)", desc_str(d).c_str(), i, outcome_name[st]);
  }
  // -- a result that was kept
  if (k.len1 && st == ST_OK) {
    if (k.len != 2 * k.len1 || memcmp(k.out, k.out + k.len1, k.len1)) { size_t i = 0; while (i < k.len1 && k.out[i] == k.out[k.len1 + i]) i++;
      soft("result-changed", "%s: the result kept by the caller changed at element %zu while other calls were made%s", desc_str(d).c_str(), i / 32, cs.operands_gone ? " and the operands destroyed" : ""); }
    k.len = k.len1;
  }
  // -- outcome
  bool io_deg = cs.degraded;
  if (cs.fired_throw) {
    if (st != ST_FAULT || fid != cs.fault_id) soft("exception-not-passed-through", "%s: element operation %llu threw, the caller saw: %s %s", desc_str(d).c_str(), (unsigned long long)cs.throw_at, outcome_name[st], what.c_str());
  } else if (cs.fired_alloc && (op.flags & F_HEAP)) {
    if (st != ST_BADALLOC) soft("bad-alloc-not-reported", "%s: a memory request failed, the caller saw: %s %s", desc_str(d).c_str(), outcome_name[st], what.c_str());
  } else if (cs.fired_alloc && st == ST_BADALLOC && ex && ex->ok && ex->st != ST_OK) {
    // building the error object needed memory: still an error, as required
  } else if (io_deg) {
    if (st == ST_OK && P.mask && P.tasks.size() == 1 && !cs.depth && (std::cout.rdstate() & P.mask)) soft("print-outcome", "%s: the output failed and the caller asked for exceptions, but none was thrown", desc_str(d).c_str());
    else if (st == ST_OK || (P.mask && (st == ST_IOS || st == ST_FAULT))) {} else soft("print-outcome", "%s: the output failed, the caller saw: %s %s", desc_str(d).c_str(), outcome_name[st], what.c_str());
  } else if (ex && ex->ok && !shared_tgt) {
    if (st != ex->st) soft("outcome-differs", "%s: expected %s, got %s %s", desc_str(d).c_str(), outcome_name[ex->st], outcome_name[st], what.c_str());
    const bool unordered = (op.flags & F_ORDER) && d.kind[0] == K_SPECIAL;   // NaN: has to end, the value is not defined
    if (st == ST_OK && !unordered && (ex->bytes.size() != k.len || memcmp(ex->bytes.data(), k.out, k.len) != 0)) {
      size_t i = 0; while (i < k.len && i < ex->bytes.size() && uint8_t(ex->bytes[i]) == k.out[i]) i++;
      soft("result-differs", "%s: result differs from the expected one at element %zu", desc_str(d).c_str(), i / 32);
    }
  }
  if (P.noheap && st == ST_OK && cs.nalloc_total && !(op.flags & F_HEAP)) soft("heap-used", "%s requested dynamic memory %ld times", desc_str(d).c_str(), cs.nalloc_total);
  if (P.balance && op.type == T_R && t->live != live0) soft("elements-leaked", "%s (%s): %ld element objects too %s", desc_str(d).c_str(), outcome_name[st], labs(t->live - live0), t->live > live0 ? "many remain" : "many destroyed");
  if (P.balance && (cs.fired_throw || cs.fired_alloc) && cs.outstanding != 0) soft("memory-leaked", "%s (%s): %ld blocks not released", desc_str(d).c_str(), outcome_name[st], cs.outstanding);
  // -- printing
  if (op.flags & F_PRINT) {
    for (size_t i = 0; i < g.prints.size(); i++) if (g.prints[i] == &cs) { g.prints.erase(g.prints.begin() + i); break; }
    if (ex) {
      uint32_t last = 0; std::string got = text_of(&cs, L->ndev, &last);
      if (cs.degraded || cs.fired_throw) { if (P.prop == "C08" || !cs.degraded) check_prefix(&cs, ex->text); }
      else {
        if (got != ex->text) soft("output-differs", "%s: wrote \"%.120s\" instead of \"%.120s\"", desc_str(d).c_str(), got.c_str(), ex->text.c_str());
        if (P.prop == "C08" && !got.empty() && last >= L->ndur) soft("not-flushed", "%s: returned before its output was flushed", desc_str(d).c_str());
      }
      for (char ch : got) hash_in(uint8_t(ch));
    }
    if (P.prop == "C08" && (int(std::cout.precision()) != P.prec || uint32_t(std::cout.flags()) != P.fmt || std::cout.width() != 0 || std::cout.fill() != char(P.fillc) || std::cout.getloc() != std::locale::classic() || std::cout.tie() || int(std::cout.exceptions()) != P.mask || std::cout.rdbuf() != devbuf))
      soft("stream-settings-changed", "%s changed the stream's settings", desc_str(d).c_str());
  }
  // -- in-place swaps of a shared matrix
  if (shared_tgt) {
    bool rows = op.flags & F_IDX_R; int R = op.in[0].r, C = op.in[0].c, a = d.p[1], b = d.p[2], n = rows ? C : R;
    if (!cs.fired_throw && st != ST_OK) soft("outcome-differs", "%s: expected returned, got %s", desc_str(d).c_str(), outcome_name[st]);
    std::vector<uint8_t> now(32 * R * C); ty.serialize(cs.tgt, R * C, now.data());
    auto at = [&](std::vector<uint8_t>& v, int line, int pos) { return v.data() + 32 * (rows ? line * C + pos : pos * C + line); };
    int odd = 0;
    for (int p = 0; p < n; p++) {
      bool swapped = !memcmp(at(now, a, p), at(g.mm, b, p), 32) && !memcmp(at(now, b, p), at(g.mm, a, p), 32);
      bool same = !memcmp(at(now, a, p), at(g.mm, a, p), 32) && !memcmp(at(now, b, p), at(g.mm, b, p), 32);
      if (!cs.fired_throw ? !swapped : (!swapped && !same && ++odd > 1)) soft("swap-wrong", "%s: position %d is not exchanged%s", desc_str(d).c_str(), p, cs.fired_throw ? " and more than one pair is affected" : "");
    }
    for (int p = 0; p < n; p++) { memcpy(at(g.mm, a, p), at(now, a, p), 32); if (a != b) memcpy(at(g.mm, b, p), at(now, b, p), 32); }
    for (int l = 0; l < (rows ? R : C); l++) if (owns(t->id, l)) for (int p = 0; p < n; p++) if (memcmp(at(now, l, p), at(g.mm, l, p), 32)) soft("own-line-changed", "%s: line %d of the same task changed", desc_str(d).c_str(), l);
  }
  if (!cs.operands_gone) drop_operands(&cs);
  for (int i = g.nc; i < g.nt; i++) if (g.tasks[i].used && g.tasks[i].cs == &cs) { CallState* c = new CallState(cs); c->up = nullptr; c->limit = 1e18; c->throw_at = c->alloc_at = c->alloc_from = 0; c->alloc_rate = 0; g.tasks[i].cs = c; }   // goes on after the call that started it
  if (!g.alone && P.sched.replay) while (t->swpos < t->sw.size() && t->sw[t->swpos].uid == d.uid) t->swpos++;
  t->cs = cs.up;
}
static void poke(Task* t, const CallDesc& d) {   // the task overwrites one of its own lines of the shared matrix
  const PoolEnt& e = g.plan->pool[0]; const TypeOps& ty = type_ops[e.type]; int R = e.sh.r, C = e.sh.c; bool rows = !g.plan->bycols; int n = rows ? C : R; int line = d.p[1];
  std::vector<Q> q; std::vector<double> raw; gen_values(e.type, Shape{1, uint16_t(n)}, K_SMALL, d.vseed[0], q, raw);
  uint8_t* base = slot_addr(0, e.type);
  for (int p = 0; p < n; p++) { int i = rows ? line * C + p : p * C + line; ty.assign(base + i * ty.size, &q[p], 1); ty.serialize(base + i * ty.size, 1, g.mm.data() + 32 * i);
    if (g.plan->race) { CallState cs; setup_cs(t, cs, d, 0); t->cs = &cs; race_check(t, (uintptr_t)(base + i * ty.size), ty.size, true); t->cs = nullptr; } }
}
static void run_over() {
  RunLog* L = g.log;
  if (g.plan && g.plan->footprint && !g.plan->pool.empty()) {
    const PoolEnt& e = g.plan->pool[0]; std::vector<uint8_t> now(g.mm.size()); type_ops[e.type].serialize(slot_addr(0, e.type), e.sh.r * e.sh.c, now.data());
    if (now != g.mm) violate("final-matrix-wrong", "the shared matrix is not the result of the swaps one after another");
  }
  for (int i = 0; i < g.nt; i++) hash_in(g.tasks[i].st);
  (void)L; finish(0);
}
static void* task_main(void* p) {
  Task* t = (Task*)p; wait_go(t); cur = t; t->stk_hi = (uintptr_t)__builtin_frame_address(0) + 64;
  for (const CallDesc& d : g.plan->tasks[t->id]) { if (d.role == R_POKE) poke(t, d); else for (uint32_t r = 0; r < d.rep; r++) { t->rep = r; docall(t, d, 0); } }
  t->st = DONE; t->cs = nullptr;
  forced_switch(t);
  for (;;) pause();
}

// ======================================================= entry points
static void map_at(void* at, size_t n) { void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != at) { perror("mmap"); _exit(78); } }
void rt_init_zygote() {
  g_ops = ops_ref();
  std::sort(g_ops.begin(), g_ops.end(), [](const OpInfo& a, const OpInfo& b) { return strcmp(a.name, b.name) < 0; });
  g_ops.erase(std::unique(g_ops.begin(), g_ops.end(), [](const OpInfo& a, const OpInfo& b) { return !strcmp(a.name, b.name); }), g_ops.end());
  map_at(OPER, OPER_SZ); map_at(HSTACK, size_t(MAXT) * STACK); map_at(TEMPS, size_t(MAXT) * MAXDEPTH * 2 * SLOT); map_at(HEAP, HEAP_SZ);
  st_lo = (uintptr_t)&__data_start; st_hi = (uintptr_t)&_end; cout_lo = (uintptr_t)&std::cout; cout_hi = cout_lo + sizeof(std::cout);
  if (st_hi - st_lo > (16u << 20)) { fprintf(stderr, "static data too large\n"); _exit(78); }
  map_at(SHD, ((16u << 20) + HEAP_SZ + OPER_SZ) * sizeof(Sh));
  real_create = (create_fn)dlsym(RTLD_NEXT, "pthread_create"); real_join = (join_fn)dlsym(RTLD_NEXT, "pthread_join"); real_detach = (detach_fn)dlsym(RTLD_NEXT, "pthread_detach");
  heap_top = HEAP; devbuf = new DevBuf;
}
static void init_tasks(int n) {
  g.nt = g.nc = n; g.helpers = 0;
  for (int i = 0; i < MAXT; i++) { Task& t = g.tasks[i]; t.id = i; t.go = 0; t.st = RUNNABLE; t.cs = nullptr; t.in_lib = false; t.live = 0; t.since = 0; for (int j = 0; j < MAXT; j++) t.vc[j] = i == j ? 1 : 0; for (auto& b : t.outbuf) b = nullptr; t.swpos = 0; t.prio = 0; t.fenced = false; t.owner = nullptr; t.used = i < n; t.detached = false; t.stk_hi = 0; }
}
static void init_stream(const Plan* p) {
  std::cout.rdbuf(devbuf); std::cout.clear();
  if (p && p->prop == "C08") { std::cout.flags(std::ios_base::fmtflags(p->fmt)); std::cout.precision(p->prec); std::cout.fill(char(p->fillc)); std::cout.exceptions(std::ios_base::iostate(p->mask)); }
}
void exec_alone(const CallDesc& d0, const Plan* p, RunLog* L) {
  static CallDesc d; d = d0; d.ctx = CTX_PLAIN; d.place[0] = -1; d.place[1] = -2;
  static Plan none; g.alone = true; g.plan = &none; g.expect = nullptr; g.log = L; init_tasks(1); init_stream(nullptr); (void)p;
  cur = &g.tasks[0]; cur->stk_hi = (uintptr_t)__builtin_frame_address(0) + 64; docall(cur, d, 0);
  finish(0);
}
void exec_plan(const Plan& p, const std::map<uint32_t, Expected>& ex, RunLog* L) {
  g.alone = false; g.plan = &p; g.expect = &ex; g.log = L; g.srng = Rng(mix(p.seed, 0x5c4ed)); init_tasks(int(p.tasks.size())); init_stream(&p);
  if (p.sched.replay) for (const Switch& s : p.switches) if (s.task < MAXT) g.tasks[s.task].sw.push_back(s);
  for (int i = 0; i < g.nt; i++) g.tasks[i].prio = 1000 + int(g.srng.below(1000)) * 8 + i;
  g.lowprio = 900;
  for (uint32_t i = 0; i < p.sched.changes; i++) g.changes.push_back(g.srng.below(p.sched.span ? p.sched.span : 1));
  std::sort(g.changes.begin(), g.changes.end());
  for (size_t i = 0; i < p.pool.size(); i++) make_operand(int(i), p.pool[i].type, p.pool[i].sh, p.pool[i].kind, p.pool[i].vseed, mix(p.seed, i));
  if (p.footprint && !p.pool.empty()) { g.mm.resize(32 * p.pool[0].sh.r * p.pool[0].sh.c); type_ops[p.pool[0].type].serialize(slot_addr(0, p.pool[0].type), p.pool[0].sh.r * p.pool[0].sh.c, g.mm.data()); }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, STACK);
  for (int i = 0; i < g.nt; i++) if (pthread_create(&g.tasks[i].th, &at, task_main, &g.tasks[i])) { perror("pthread_create"); _exit(79); }
  int first = 0;
  if (p.sched.replay) { first = p.switches.empty() ? 0 : p.switches[0].task; if (first >= g.nt) first = 0; }
  else first = p.sched.policy == 2 ? pick(nullptr, true)->id : int(g.srng.below(g.nt));
  give_go(&g.tasks[first]);
  for (;;) pause();
}
std::string format_matrix(const OpInfo& o, const CallDesc& d, const Plan& p) {
  std::vector<Q> q; std::vector<double> raw; gen_values(o.type, o.in[0], d.kind[0], d.vseed[0], q, raw);
  int n = o.in[0].r * o.in[0].c; std::vector<uint64_t> store(n * type_ops[o.type].size / 8 + 8);
  type_ops[o.type].construct(store.data(), q.data(), raw.empty() ? nullptr : raw.data(), n);
  std::ostringstream s; if (p.prop == "C08") { s.flags(std::ios_base::fmtflags(p.fmt)); s.precision(p.prec); }
  type_ops[o.type].format(store.data(), o.in[0].r, o.in[0].c, s);
  type_ops[o.type].destroy(store.data(), n); return s.str();
}
