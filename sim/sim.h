// Plans (what one simulated run does), the run log, and runtime entry points.
#pragma once
#include "rt.h"
#include <string>
#include <vector>
#include <map>
#include <cstring>

enum { MAXC = 17, MAXT = MAXC + 8, MAXDEPTH = 12 };   // callers; callers and threads that the code under test starts; nesting

struct Rng {                       // splitmix64; the only source of randomness
  uint64_t s;
  explicit Rng(uint64_t x) : s(x) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }
  bool chance(int num, int den) { return below(den) < uint64_t(num); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x2545F4914F6CDD1Dull ^ (b + 0x1234567)); r.next(); return r.next(); }

// relatives of a matrix: the top byte of its value seed
enum { REL_REVERSED = 1, REL_LAST, REL_MID, REL_NEGATED, REL_SWAPPED, REL_TRANSPOSED, REL_REST, REL_SAMESUM, REL_DOUBLED, REL_RANDOM, REL_HALF, REL_N };
enum Role : uint8_t { R_CALL, R_POKE };
enum Ctx : uint8_t { CTX_PLAIN, CTX_HANDLER, CTX_UNWIND, CTX_N };

struct CallDesc {
  uint32_t uid = 0;
  int op = -1;
  Role role = R_CALL;
  Ctx ctx = CTX_PLAIN;
  uint8_t kind[2] = {0, 0};
  uint32_t vseed[2] = {0, 0};
  int32_t p[3] = {0, 0, 0};
  int16_t place[2] = {-1, -2};      // >= 0: shared operand; -1-k: private buffer k of the task
  uint32_t salt = 0;                // contents of uninitialised memory, clock
  uint32_t rep = 1;                 // made this many times in a row
  uint8_t round = 0;                // rounding mode the caller has set
  uint8_t cat = 0;                  // how operands are passed
};

enum Outcome : uint8_t { ST_OK, ST_FAULT, ST_BADALLOC, ST_OVERFLOW, ST_OTHERERR, ST_IOS, ST_STDEXC, ST_UNKNOWN, ST_N };
extern const char* const outcome_name[ST_N];

struct Expected {                   // the call as the first call of a fresh process
  bool ok = false;                  // the process survived
  int sig = 0; std::string why;     // else: how it ended
  Outcome st = ST_OK; std::string bytes; std::string text;
  uint64_t steps = 0, elem = 0, allocs = 0, dev = 0, nhot = 0, outstanding = 0;
  std::vector<uint32_t> hot;        // steps that touched static or heap memory or took a lock
};

enum FaultKind : uint8_t { FK_THROW, FK_ALLOC, FK_ALLOC_FROM, FK_ALLOC_RATE, FK_STALL, FK_NEST, FK_DERR, FK_DSHORT, FK_DSYNC, FK_DTHROW, FK_CRASH, FK_HOLD, FK_N };
extern const char* const fault_name[FK_N];
struct Fault { uint32_t uid; FaultKind kind; uint32_t k; uint32_t arg; };   // FK_NEST, FK_HOLD: arg = uid of aux call

struct PoolEnt { Type type; Shape sh; uint8_t kind; uint32_t vseed; bool mut; };
struct Switch { uint8_t task; uint32_t uid; uint32_t step; uint8_t to; uint8_t forced; };

struct SchedCfg {
  uint8_t policy = 0;               // 0 only at call boundaries, 1 random, 2 priority with change points, 3 single preemptions
  uint16_t cold = 0, elem = 0, hot = 0;   // preemption probability / 65536 at basic blocks and accesses / element ops / static+heap accesses
  uint32_t changes = 0, span = 0;   // policy 2
  bool replay = false;
};

struct Plan {
  std::string prop;
  uint64_t seed = 0;
  std::vector<PoolEnt> pool;
  std::vector<std::vector<CallDesc>> tasks;
  std::vector<CallDesc> aux;
  std::vector<Fault> faults;
  SchedCfg sched;
  std::vector<Switch> switches;     // replay only
  // device
  int prec = 6; uint32_t fmt = 0; int mask = 0; int fillc = ' ';
  // oracles
  bool race = false, opwrite = false, balance = false, noheap = false, footprint = false, bycols = false, strict_bad_alloc = false, fpenv = false, bound = false;
  bool sharedbufs = false;          // private buffers are the same storage for every task (sequential histories)
};

struct ExpectMap { std::map<uint32_t, Expected> m; };
const Expected* find_expected(uint32_t uid);

// ---- run log, in memory shared with the parent ----
struct DevChar { uint32_t uid; uint8_t task; char c; };
constexpr uint32_t DEVCAP = 1 << 22;   // characters printed by calls that overlap
struct RunHdr {
  volatile int violated = 0, finished = 0, crashed = 0, filtered = 0;
  char cls[64] = {0}; char detail[1024] = {0};
  uint32_t v_task = 0, v_uid = 0; uint64_t v_step = 0;
  uint64_t hash = 0, sched_hash = 0, steps = 0, nswitch = 0, preempt = 0, calls = 0, calls_ok = 0, calls_err = 0, elem_ops = 0, allocs = 0, dev_events = 0;
  uint64_t fired[FK_N] = {0}; uint64_t hot = 0, sync_ops = 0, maxdepth = 0, stalled = 0, probes[16] = {0};
  uint32_t cur_task = 0, cur_uid = 0;
  uint32_t nsw = 0;
  uint32_t st = 0, len = 0, nhot = 0; uint64_t a_steps = 0, a_elem = 0, a_allocs = 0, a_dev = 0, a_out = 0;
  uint32_t ndev = 0, ndur = 0;
};
struct RunLog : RunHdr {
  Switch sw[1 << 16];
  uint32_t hotsteps[64];
  uint8_t bytes[OUTCAP];
  DevChar dev[DEVCAP];
  void reset() { static_cast<RunHdr&>(*this) = RunHdr(); }
};

// ---- runtime ----
bool judged(const std::string& prop, const char* cls);
extern std::vector<OpInfo> g_ops;
void rt_init_zygote();                                   // once, before any fork
void exec_plan(const Plan&, const std::map<uint32_t, Expected>& expect, RunLog*);   // in a forked child; does not return
void exec_alone(const CallDesc&, const Plan*, RunLog*);  // in a forked child; does not return
void gen_values(Type, Shape, uint8_t kind, uint32_t vseed, std::vector<Q>& q, std::vector<double>& raw);
double step_bound(const OpInfo&, const CallDesc&);
std::string desc_str(const CallDesc&);
std::string format_matrix(const OpInfo&, const CallDesc&, const Plan&);
