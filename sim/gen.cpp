// Generation of one simulated run (workload, schedule policy, faults) from one seed.
#include "gen.h"
#include <algorithm>
#include <ios>
const char* const all_props[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", nullptr};
namespace {
struct Gen {
  Rng r; Plan p; AloneFn alone; uint64_t index; uint32_t uid = 1; uint32_t vspan; int maxnest = 2;
  Gen(const std::string& prop, uint64_t seed, uint64_t idx, AloneFn a) : r(mix(seed, 0x9e4)), alone(a), index(idx) { p.prop = prop; p.seed = seed; vspan = r.chance(1, 4) ? 3 : 10; }

  std::vector<int> filter(std::function<bool(const OpInfo&)> f) { std::vector<int> v; for (size_t i = 0; i < g_ops.size(); i++) if (f(g_ops[i])) v.push_back(int(i)); return v; }
  // every operation x type x shape gets its turn as the focus of a run
  int focus(const std::vector<int>& v) { if (v.empty()) return -1; uint64_t n = v.size(), round = index / n, i = index % n; Rng q(mix(round, 77)); uint64_t stride = 1 + q.below(n); while (std::__gcd(stride, n) != 1) stride++; int f = v[(i * stride + round * 7) % n]; if (g_ops[f].work > 20000 && !r.chance(1, 8)) for (int k = 0; k < 20 && g_ops[f].work > 20000; k++) f = v[r.below(n)]; return f; }

  uint8_t pick_kind(const OpInfo& o, int arg) {
    bool ints = t_int(o.type), fl = t_flt(o.type);
    auto any = [&](std::initializer_list<int> l) { auto it = l.begin(); std::advance(it, r.below(l.size())); return uint8_t(*it); };
    if (ints && !(o.flags & (F_INV | F_LU)) && !strstr(o.name, "det:") && r.chance(1, 12)) return K_BIG;
    if (fl && r.chance(1, p.prop == "C05" || p.prop == "C06" || p.prop == "C07" ? 12 : 4)) return K_ROUGH;
    if ((o.flags & F_ORDER) && fl && r.chance(1, 8)) return K_INFS;
    if (!ints && o.type != T_C && r.chance(1, 10)) return (o.flags & (F_LU | F_INV)) ? any({K_DOMTINY, K_DOMHUGE, K_TINY, K_HUGE}) : (o.flags & F_CHOL) ? uint8_t(K_SPD) : any({K_TINY, K_HUGE});
    if ((o.flags & F_ORDER) && o.type != T_S && o.type != T_B && r.chance(1, 12)) return K_MAGIC;
    if (o.flags & F_ORDER) return any({K_SORTED, K_SIGN, K_SMALL, K_FRAC, K_FEW, K_FEW, K_ZERO, K_SPARSE, K_DUPROW, K_ONESV});
    if ((o.flags & (F_LU | F_INV)) && fl && r.chance(1, p.prop == "C07" ? 5 : 12)) return K_DIAG;
    if (o.flags & F_CHOL) return r.chance(4, 5) ? uint8_t(K_SPD) : any({K_DOM, K_IDENT, K_SMALL, K_SYM, K_ZERO});
    if (o.flags & F_LU) { if (fl && r.chance(1, 10)) return K_SPECIAL; return any({K_DOM, K_DOM, K_SMALL, K_IDENT, K_LMINOR, K_LMINOR, K_ZROW, K_SYM, K_PERM}); }
    if (o.flags & F_INV) { if (fl && r.chance(1, 10)) return K_SPECIAL; if (ints) return any({K_DOM, K_SMALL, K_IDENT, K_ZROW, K_DUPROW, K_PERM}); return any({K_DOM, K_DOM, K_SMALL, K_SMALL, K_IDENT, K_ZROW, K_ZCOL, K_DUPROW, K_SPD, K_ZERO, K_FRAC, K_PERM, K_PERM}); }
    if (strstr(o.name, "det:")) { if (fl && r.chance(1, 10)) return K_SPECIAL; return any({K_DOM, K_SMALL, K_SPARSE, K_IDENT, K_ZROW, K_ZCOL, K_DUPROW, K_LMINOR, K_PERM, K_PERM}); }
    if (strstr(o.name, "isSym")) return any({K_SYM, K_SYM, K_SMALL, K_IDENT, K_FEW});
    if (strstr(o.name, "isIdent")) return any({K_IDENT, K_IDENT, K_FEW, K_SMALL, K_ONESV});
    if (strstr(o.name, "compare")) return any({K_SMALL, K_FEW, K_FRAC, K_ONESV, K_ZERO});
    if (fl && r.chance(1, 12) && p.prop != "C08") return K_SPECIAL;
    (void)arg;
    if (o.type != T_S && o.type != T_B && r.chance(1, 12)) return K_MAGIC;
    if (r.chance(1, 6)) return any({K_SORTED, K_SIGN, K_SYM, K_ONESV, K_DUPROW, K_ZROW, K_PERM});
    return any({K_SMALL, K_SMALL, K_FRAC, K_SPARSE, K_FEW, K_IDENT, K_ZERO, K_DOM});
  }
  CallDesc call(int op) {
    const OpInfo& o = g_ops[op]; CallDesc d; d.uid = uid++; d.op = op; d.salt = uint32_t(r.next());
    for (int i = 0; i < o.nin; i++) { d.kind[i] = pick_kind(o, i); d.vseed[i] = 1 + uint32_t(r.below(vspan)); }
    for (int i = 0; i < o.nin; i++) if (r.chance(1, 12)) relate(d, i);
    if (strstr(o.name, "compare") && r.chance(1, 2)) { d.kind[1] = d.kind[0]; d.vseed[1] = d.vseed[0]; }
    params(d);
    if (o.nin && r.chance(1, 3)) d.cat = uint8_t(1 + r.below(o.nin == 1 ? 2 : 4));
    for (int i = 0; i < o.nin; i++) d.place[i] = int16_t(-1 - i);
    return d;
  }
  // the same matrix with its elements reversed or negated or one of them changed
  void relate(CallDesc& d, int i) {
    const OpInfo& o = g_ops[d.op];
    switch (d.kind[i]) {
      case K_SMALL: case K_FRAC: case K_SPARSE: case K_FEW: case K_ZERO: case K_ONESV: case K_SORTED: case K_SIGN: break;
      case K_ROUGH: break;
      case K_MAGIC: return;
      case K_DOM: case K_IDENT: case K_SPD: case K_SYM: case K_ZROW: case K_ZCOL: case K_DUPROW: case K_PERM: if (!t_int(o.type)) break; return;
      default: return;
    }
    if (t_int(o.type) && (o.flags & F_LU)) return;
    d.vseed[i] = (d.vseed[i] & 0xffffff) | uint32_t(1 + r.below(REL_N - 1)) << 24;
  }
  CallDesc kin(const CallDesc& x) {
    CallDesc d = x; d.uid = uid++; d.salt = uint32_t(r.next()); const OpInfo& o = g_ops[d.op];
    if (o.nin && r.chance(4, 5)) { int i = int(r.below(o.nin)); relate(d, i); if (o.nin == 2 && d.place[0] == d.place[1]) { d.kind[1 - i] = d.kind[i]; d.vseed[1 - i] = d.vseed[i]; } } else params(d);
    return d;
  }
  void params(CallDesc& d) {
    const OpInfo& o = g_ops[d.op];
    if (o.flags & F_SCALAR) d.p[0] = o.type != T_S && o.type != T_B && r.chance(1, 16) ? (r.chance(1, 2) ? 1 : -1) * (40 << r.below(4)) : (o.flags & F_DIV) ? (r.chance(1, 4) ? 0 : r.range(-8, 8)) : r.range(-12, 12);
    if ((o.flags & F_SCALAR) && t_flt(o.type) && r.chance(1, (o.flags & F_DIV) ? 5 : 16)) d.p[0] = SC_SPECIAL + int(r.below(SC_N));
    if (o.flags & F_IDX_R) { d.p[1] = int(r.below(o.in[0].r)); d.p[2] = int(r.below(o.in[0].r)); }
    if (o.flags & F_IDX_C) { d.p[1] = int(r.below(o.in[0].c)); d.p[2] = int(r.below(o.in[0].c)); }
    if (o.flags & F_IDX_RC) { d.p[1] = int(r.below(o.in[0].r)); d.p[2] = int(r.below(o.in[0].c)); }
    if (o.flags & F_EPS) d.p[1] = r.chance(1, 2) ? 0 : r.chance(1, 8) ? SC_SPECIAL + int(r.below(SC_N)) : int(r.below(40));
    if (o.flags & F_EXP) d.p[1] = t_int(o.type) ? r.range(-2, o.type == T_S ? 3 : 5) : o.type == T_R ? r.range(-3, 5) : r.chance(1, 6) ? r.range(-6, 40) : r.chance(1, 12) ? r.range(-60, 400) : r.range(-3, 5);
  }
  CallDesc again(const CallDesc& d) { CallDesc e = d; e.rep = 1; e.uid = uid++; e.salt = uint32_t(r.next()); return e; }

  void sched() {
    SchedCfg& s = p.sched; int x = int(r.below(10));
    if (x < 1) s.policy = 0;
    else if (x < 6) { s.policy = 1; static const int c[] = {3, 12, 50, 200, 1000, 4000}; s.cold = uint16_t(c[r.below(6)]); s.elem = uint16_t(std::min(60000, s.cold * int(1 + r.below(20)))); s.hot = uint16_t(r.chance(1, 3) ? s.cold : r.chance(1, 2) ? 4000 : 20000); }
    else if (x < 9) { s.policy = 2; s.changes = uint32_t(1 + r.below(8)); s.hot = uint16_t(r.chance(1, 2) ? 0 : 3000); }
    else { s.policy = 1; s.cold = 2; s.elem = 10; s.hot = 10000; }
  }
  // share some operands of equal type and shape between tasks
  void share() {
    if (r.chance(1, 4)) return;
    for (auto& t : p.tasks) for (auto& d : t) {
      const OpInfo& o = g_ops[d.op]; if (o.flags & F_INPLACE) continue;
      for (int i = 0; i < o.nin; i++) {
        if (!r.chance(1, 2)) continue;
        int at = -1;
        for (size_t k = 0; k < p.pool.size(); k++) { auto& e = p.pool[k]; if (e.type == o.type && e.sh.r == o.in[i].r && e.sh.c == o.in[i].c && ok_for(o, e.kind)) at = int(k); }
        if (at < 0) { if (p.pool.size() >= 12) continue; at = int(p.pool.size()); p.pool.push_back(PoolEnt{o.type, o.in[i], d.kind[i], d.vseed[i], false}); }
        d.place[i] = int16_t(at); d.kind[i] = p.pool[at].kind; d.vseed[i] = p.pool[at].vseed;
      }
    }
  }
  bool ok_for(const OpInfo& o, uint8_t k) {
    bool ints = t_int(o.type);
    if ((o.flags & F_ORDER) && (k == K_SPECIAL || k == K_DIAG)) return false;
    if (ints && (o.flags & (F_INV | F_LU)) && (k == K_SPD || k == K_LMINOR)) return false;
    if (ints && (k == K_SPECIAL || k == K_DIAG)) return false;
    if ((k == K_BIG || k == K_MAGIC) && ((o.flags & (F_INV | F_LU)) || strstr(o.name, "det:"))) return false;
    return true;
  }
  void finish_sched() { uint64_t span = 0; for (auto& t : p.tasks) for (auto& d : t) if (d.role == R_CALL) span += (alone(d).steps + 20) * d.rep; p.sched.span = uint32_t(std::min<uint64_t>(span + span / 8 + 10, 0x7fffffff)); }
  uint32_t at_step(const Expected& e) { if (!e.hot.empty() && r.chance(2, 3)) return e.hot[r.below(e.hot.size())] + uint32_t(r.below(3)); return 1 + uint32_t(r.below(e.steps ? e.steps : 1)); }

  // tasks calling mostly the same instantiation
  void concurrent(const std::vector<int>& ops, int focus_op, int ntask, int ncall) {
    p.tasks.assign(ntask, {});
    std::vector<int> set{focus_op}; int mode = int(r.below(20));
    if (mode >= 12) { int extra = mode < 17 ? 1 + int(r.below(2)) : 6; for (int i = 0; i < extra; i++) set.push_back(related(ops, focus_op)); }
    for (auto& t : p.tasks) { int n = 1 + int(r.below(ncall)); for (int i = 0; i < n; i++) { t.push_back(call(r.chance(1, 2) ? focus_op : set[r.below(set.size())])); if (r.chance(1, 6)) t.push_back(again(t.back())); else if (r.chance(1, 6)) t.push_back(kin(t.back())); } }
  }
  // many callers in flight at once, or one caller held up while another makes many calls
  void crowd(const std::vector<int>& ops, int f) {
    for (int k = 0; k < 30 && g_ops[f].work > 400; k++) f = related(ops, f);
    if (g_ops[f].work > 400) { concurrent(ops, f, r.range(2, 5), 3); return; }
    if (r.chance(1, 2)) { concurrent(ops, f, r.range(6, MAXC - 1), 1); if (p.sched.policy == 1 && p.sched.cold < 200) p.sched.cold = 1000; }
    else { concurrent(ops, f, r.range(2, 3), 2); for (auto& t : p.tasks) for (auto& d : t) if (g_ops[d.op].work <= 400 && r.chance(1, 2)) d.rep = uint32_t(r.range(5, 70)); }
  }
  int related(const std::vector<int>& ops, int f) {   // same type and shape, or anything
    if (r.chance(2, 3)) { std::vector<int> v; for (int i : ops) if (g_ops[i].type == g_ops[f].type && g_ops[i].in[0].r == g_ops[f].in[0].r && g_ops[i].in[0].c == g_ops[f].in[0].c) v.push_back(i); if (!v.empty()) return v[r.below(v.size())]; }
    return ops[r.below(ops.size())];
  }
  void faulty(CallDesc& d, int num, int den) {          // element or allocation failure inside the call
    if (!r.chance(num, den)) return;
    const OpInfo& o = g_ops[d.op]; const Expected& e = alone(d);
    if (o.type == T_R && e.elem && (!(o.flags & F_HEAP) || r.chance(1, 2))) p.faults.push_back(Fault{d.uid, FK_THROW, 1 + uint32_t(r.below(e.elem)), uint32_t(r.below(FAULT_TYPES))});
    else if ((o.flags & F_HEAP) && e.allocs) p.faults.push_back(Fault{d.uid, FK_ALLOC, 1 + uint32_t(r.below(e.allocs)), 0});
  }

  void c01() {
    auto v = filter([](const OpInfo&) { return true; });
    p.race = true; sched(); int f = focus(v); if (r.chance(1, 8)) crowd(v, f); else concurrent(v, f, r.range(2, 5), 3);
    share(); finish_sched();
  }
  void c02() {
    auto v = filter([](const OpInfo&) { return true; });
    p.fpenv = true; p.sharedbufs = true; if (index % 40 == 7) { marathon(); return; }
    if (index % 80 == 27) { varied(); return; }
    int f = focus(v); int nt = r.chance(1, 2) ? 1 : r.range(2, 4); p.tasks.assign(nt, {}); p.sched.policy = 0;
    int mode = int(r.below(10)); double steps = 1; { CallDesc d = call(f); steps = double(alone(d).steps) + 30; }
    int n = mode < 5 ? r.range(2, 8) : mode < 8 ? r.range(10, 60) : int(std::min(3000.0, 2.5e6 / steps)) + 4;
    std::vector<int> set{f}; if (mode != 9 && r.chance(2, 3)) { int x = r.range(1, 3); while (x--) set.push_back(related(v, f)); }
    bool longrun = mode >= 8; std::vector<CallDesc> args;
    int nargs = longrun ? r.range(2, 6) : r.range(2, 10);
    for (int i = 0; i < nargs; i++) args.push_back(i && r.chance(1, 2) ? kin(args[r.below(args.size())]) : call(i < 2 || r.chance(1, 2) ? f : set[r.below(set.size())]));
    if (r.chance(1, 6)) for (auto& a : args) if (t_flt(g_ops[a.op].type) && r.chance(2, 3)) a.round = uint8_t(r.below(4));
    if (longrun) for (auto& a : args) if (alone(a).steps > 3 * steps) { a = call(f); }
    bool faults = r.chance(1, 2);
    for (int i = 0; i < n; i++) {
      CallDesc d = again(args[r.below(args.size())]); auto& t = p.tasks[r.below(nt)];
      if (!longrun && r.chance(1, 5)) { for (int k = 0; k < g_ops[d.op].nin; k++) d.place[k] = int16_t(-1 - int(r.below(4))); if (d.place[0] == d.place[1] && g_ops[d.op].nin == 2) d.place[1] = d.place[0] == -1 ? -2 : -1; }
      if (!longrun) alias(d);
      t.push_back(d); if (faults) faulty(t.back(), 1, longrun ? 40 : 4);
    }
  }
  void marathon() {   // one small operation more than 2^16 times: counters that wrap, tables that fill up
    auto v = filter([](const OpInfo& o) { return o.work < 40 && !(o.flags & F_PRINT); }); index /= 40; int f = focus(v);
    p.tasks.assign(1, {}); p.sched.policy = 0; CallDesc a = call(f), b = call(f), c = kin(a);
    uint64_t st = alone(a).steps + 60; uint32_t n = uint32_t(std::min<uint64_t>(66500, 2.6e7 / double(st)));
    a.rep = n / 2 + 1 + uint32_t(r.below(60)); b.rep = n / 4 + 1; c.rep = n / 4 + 60; p.tasks[0] = {a, b, c}; if (r.chance(1, 2)) { p.tasks[0].push_back(call(related(v, f))); p.tasks[0].push_back(again(a)); p.tasks[0].back().rep = 300; }
  }
  void varied() {     // one operation on hundreds of different operands: tables indexed by a digest of the operand
    auto v = filter([](const OpInfo& o) { return o.work < 400 && o.nin && !(o.flags & F_PRINT); }); index /= 80; int f = focus(v);
    p.tasks.assign(1, {}); p.sched.policy = 0; vspan = 100000; int n = r.range(100, 250);
    for (int i = 0; i < n; i++) p.tasks[0].push_back(call(f));
    for (int i = 0; i < n; i++) { p.tasks[0].push_back(again(p.tasks[0][r.below(n)])); }
  }
  void c03() {
    auto v = filter([](const OpInfo& o) { return !(o.flags & F_INPLACE); });
    p.opwrite = true; sched(); concurrent(v, focus(v), r.range(1, 4), 3); share();
    for (auto& t : p.tasks) for (auto& d : t) faulty(d, 1, 4);
    finish_sched();
  }
  void c04() {
    auto v = filter([](const OpInfo& o) { return o.type == T_R; }); if (v.empty()) return;
    p.balance = true; int f = focus(v); int nt = r.chance(2, 3) ? 1 : r.range(2, 3); p.tasks.assign(nt, {}); if (nt > 1) sched();
    for (auto& t : p.tasks) {
      CallDesc d = call(f); const Expected& e = alone(d); int n = r.range(3, 8);
      for (int i = 0; i < n; i++) {
        CallDesc x = again(d); if (e.elem && r.chance(7, 8)) { uint64_t k = 1 + r.below(e.elem); if (r.chance(1, 6)) k = e.elem - r.below(std::min<uint64_t>(e.elem, 6)); p.faults.push_back(Fault{x.uid, FK_THROW, uint32_t(k), uint32_t(r.below(FAULT_TYPES))}); }
        if (r.chance(1, 6)) x.ctx = Ctx(r.below(CTX_N));
        t.push_back(x);
      }
      t.push_back(again(d)); if (r.chance(1, 2)) t.push_back(call(related(v, f)));
    }
    if (nt > 1) { share(); finish_sched(); }
  }
  void c05() {
    auto v = filter([](const OpInfo& o) { return !(o.flags & F_HEAP); });
    p.noheap = true; int f = focus(v); int nt = r.chance(3, 4) ? 1 : r.range(2, 3); p.tasks.assign(nt, {}); if (nt > 1) sched();
    for (auto& t : p.tasks) { int n = r.range(2, 8); for (int i = 0; i < n; i++) { CallDesc d = call(r.chance(2, 3) ? f : related(v, f)); if (r.chance(1, 8)) d.ctx = Ctx(r.below(CTX_N)); t.push_back(d); if (r.chance(3, 4)) p.faults.push_back(Fault{d.uid, FK_ALLOC_FROM, 1, 0}); } }
    if (nt > 1) { share(); finish_sched(); }
  }
  void c06() {
    auto v = filter([](const OpInfo& o) { return (o.flags & F_HEAP) != 0; });
    p.balance = true; int f = focus(v); int nt = r.chance(2, 3) ? 1 : r.range(2, 4); p.tasks.assign(nt, {}); if (nt > 1) sched();
    for (auto& t : p.tasks) {
      int rounds = r.range(1, 4);
      while (rounds--) {
        CallDesc d = call(f); const Expected& e = alone(d); int n = r.range(1, 5);
        for (int i = 0; i < n; i++) {
          CallDesc x = again(d);
          if (e.allocs) switch (r.below(5)) {
            case 0: p.faults.push_back(Fault{x.uid, FK_ALLOC_FROM, 1 + uint32_t(r.below(e.allocs)), 0}); break;
            case 1: p.faults.push_back(Fault{x.uid, FK_ALLOC_RATE, uint32_t(5 + r.below(60)), 0}); break;
            case 2: if (r.chance(1, 2)) { p.faults.push_back(Fault{x.uid, FK_ALLOC, uint32_t(e.allocs), 0}); break; } // fall through
            default: p.faults.push_back(Fault{x.uid, FK_ALLOC, 1 + uint32_t(r.below(e.allocs)), 0}); break;
          }
          if (r.chance(1, 8)) x.ctx = Ctx(r.below(CTX_N));
          t.push_back(x);
        }
        t.push_back(again(d));
      }
    }
    if (nt > 1) { share(); finish_sched(); }
  }
  void c07() {
    auto v = filter([](const OpInfo& o) { return (o.flags & (F_DIV | F_INV | F_LU)) != 0; });
    auto w = filter([](const OpInfo&) { return true; });
    int f = focus(v); int nt = r.chance(1, 2) ? 1 : r.range(2, 4); p.tasks.assign(nt, {}); if (nt > 1) sched();
    for (auto& t : p.tasks) { int n = r.range(2, 6); for (int i = 0; i < n; i++) { CallDesc d = call(r.chance(3, 4) ? f : r.chance(1, 2) ? related(v, f) : w[r.below(w.size())]); if (r.chance(1, 2)) d.ctx = Ctx(r.below(CTX_N)); t.push_back(d); if (r.chance(1, 4)) { t.push_back(again(d)); t.back().ctx = CTX_PLAIN; } } }
    if (nt > 1) { share(); finish_sched(); }
  }
  void c08() {
    auto v = filter([](const OpInfo& o) { return (o.flags & F_PRINT) != 0; });
    int f = focus(v); int nt = r.chance(2, 3) ? 1 : r.range(2, 4); p.tasks.assign(nt, {}); if (nt > 1) { sched(); p.sched.hot = uint16_t(r.chance(1, 2) ? 16000 : 4000); }
    static const int precs[] = {6, 6, 3, 17, 1, 10}; p.prec = precs[r.below(6)];
    std::ios_base::fmtflags fm = std::ios_base::skipws | std::ios_base::dec;
    if (r.chance(1, 3)) fm |= r.chance(1, 2) ? std::ios_base::fixed : std::ios_base::scientific;
    if (r.chance(1, 6)) fm |= std::ios_base::showpos;
    if (r.chance(1, 8)) { fm &= ~std::ios_base::basefield; fm |= std::ios_base::hex | std::ios_base::showbase; }
    if (r.chance(1, 8)) fm |= std::ios_base::showpoint;
    if (r.chance(1, 10)) fm |= r.chance(1, 2) ? std::ios_base::uppercase : std::ios_base::left;
    if (r.chance(1, 4)) p.fillc = '*';
    p.fmt = uint32_t(fm); p.mask = r.chance(1, 5) ? int(std::ios_base::badbit) | (r.chance(1, 2) ? int(std::ios_base::failbit) : 0) : 0;
    auto w = filter([](const OpInfo& o) { return !(o.flags & F_PRINT) && o.work < 200; });
    for (auto& t : p.tasks) {
      int n = r.range(1, 4);
      for (int i = 0; i < n; i++) {
        CallDesc d = call(r.chance(2, 3) ? f : v[r.below(v.size())]);
        if (t_flt(g_ops[d.op].type) && r.chance(1, 6)) d.kind[0] = K_SPECIAL;
        const Expected& e = alone(d); t.push_back(d);
        if (e.dev && r.chance(2, 5)) {
          static const FaultKind ks[] = {FK_DERR, FK_DSHORT, FK_DSYNC, FK_DTHROW, FK_CRASH}; FaultKind k = ks[r.below(nt == 1 || i == n - 1 ? 5 : 4)];
          p.faults.push_back(Fault{d.uid, k, 1 + uint32_t(r.below(e.dev)), uint32_t(r.below(2))});
          if (r.chance(2, 3)) t.push_back(again(d));
        } else if (g_ops[d.op].type == T_R && e.elem && r.chance(1, 5)) p.faults.push_back(Fault{d.uid, FK_THROW, 1 + uint32_t(r.below(e.elem)), uint32_t(r.below(FAULT_TYPES))});
        if (r.chance(1, 6)) t.push_back(call(w[r.below(w.size())]));
      }
    }
    finish_sched();
  }
  void c09() {
    auto v = filter([](const OpInfo& o) { return (o.flags & F_INPLACE) != 0; });
    int f = focus(v); const OpInfo& o = g_ops[f]; bool rows = o.flags & F_IDX_R; int lines = rows ? o.in[0].r : o.in[0].c;
    p.footprint = true; p.race = true; p.bycols = !rows; p.balance = true; sched();
    int nt = r.range(1, std::max(1, std::min(4, lines))); p.tasks.assign(nt, {});
    uint8_t kind = r.chance(1, 2) ? K_SMALL : r.chance(1, 2) ? K_FRAC : K_DOM; uint32_t vs = 1 + uint32_t(r.below(20));
    p.pool.push_back(PoolEnt{o.type, o.in[0], kind, vs, true});
    for (int t = 0; t < nt; t++) {
      std::vector<int> own; for (int l = t; l < lines; l += nt) own.push_back(l);
      int n = r.range(1, 6);
      for (int i = 0; i < n; i++) {
        CallDesc d = call(f); d.kind[0] = kind; d.vseed[0] = vs; d.place[0] = 0;
        if (r.chance(1, 6)) { d.role = R_POKE; d.p[1] = own[r.below(own.size())]; d.vseed[0] = uint32_t(r.next() % 1000); p.tasks[t].push_back(d); continue; }
        d.p[1] = own[r.below(own.size())]; d.p[2] = own[r.below(own.size())];
        if (d.p[1] == d.p[2] && own.size() > 1 && r.chance(2, 3)) d.p[2] = own[(std::find(own.begin(), own.end(), d.p[1]) - own.begin() + 1) % own.size()];
        p.tasks[t].push_back(d);
        if (o.type == T_R && r.chance(1, 3)) { const Expected& e = alone(d); if (e.elem) p.faults.push_back(Fault{d.uid, FK_THROW, 1 + uint32_t(r.below(e.elem)), uint32_t(r.below(FAULT_TYPES))}); }
      }
    }
    finish_sched();
  }
  void c10() {
    auto v = filter([](const OpInfo&) { return true; });
    p.bound = true; sched(); int f = focus(v), nt = r.range(1, 5); bool crowded = r.chance(1, 10); if (crowded) crowd(v, f); else concurrent(v, f, nt, 3);
    nt = int(p.tasks.size()); share();
    for (auto& t : p.tasks) for (auto& d : t) { const OpInfo& o = g_ops[d.op]; if (t_flt(o.type) && r.chance(1, (o.flags & F_ORDER) ? 8 : 4)) for (int i = 0; i < o.nin; i++) if (d.place[i] < 0) d.kind[i] = K_SPECIAL; }
    for (auto& t : p.tasks) for (auto& d : t) {
      const OpInfo& o = g_ops[d.op];
      if ((o.flags & F_HEAP) && r.chance(1, 5)) { const Expected& e = alone(d); if (e.allocs) { p.faults.push_back(Fault{d.uid, FK_ALLOC_FROM, 1 + uint32_t(r.below(e.allocs)), 0}); continue; } }   // memory stays short
      if ((o.flags & F_PRINT) && r.chance(1, 5)) { const Expected& e = alone(d); static const FaultKind ks[] = {FK_DERR, FK_DSHORT, FK_DSYNC, FK_DTHROW}; if (e.dev) { p.faults.push_back(Fault{d.uid, ks[r.below(4)], 1 + uint32_t(r.below(e.dev)), 1}); continue; } }   // the output stays broken
      faulty(d, 1, 5);
    }
    for (int t = 1; t < nt; t++) if (r.chance(crowded ? 5 : 3, 6)) { auto& d = p.tasks[t][r.below(p.tasks[t].size())]; p.faults.push_back(Fault{d.uid, FK_STALL, at_step(alone(d)), 0}); }
    finish_sched();
  }
  void c11() {
    auto v = filter([](const OpInfo& o) { return !(o.flags & F_PRINT); });
    auto all = filter([](const OpInfo&) { return true; });
    int f = focus(v); int nt = r.chance(3, 4) ? 1 : 2; p.tasks.assign(nt, {}); if (nt > 1) sched();
    maxnest = 2; if (r.chance(1, 6) && g_ops[f].work < 400) maxnest = r.range(4, MAXDEPTH - 2);
    for (auto& t : p.tasks) { int n = r.range(1, maxnest > 2 ? 1 : 3); for (int i = 0; i < n; i++) {
      CallDesc d = call(r.chance(3, 4) ? f : related(all, f)); t.push_back(d); nest(d, v, f, 0); } }
    if (nt > 1) finish_sched();
  }
  void c12() {
    auto v = filter([](const OpInfo& o) { return !(o.flags & (F_PRINT | F_INPLACE)); });
    auto all = filter([](const OpInfo&) { return true; });
    int f = focus(v); int nt = r.chance(2, 3) ? 1 : r.range(2, 3); p.tasks.assign(nt, {}); if (nt > 1) sched();
    for (auto& t : p.tasks) { int n = r.range(1, 3); for (int i = 0; i < n; i++) { CallDesc d = call(r.chance(3, 4) ? f : related(v, f)); alias(d); t.push_back(d); keep(d, v, all, f, 0); } }
    if (nt > 1) { share(); finish_sched(); }
  }
  void keep(const CallDesc& d, const std::vector<int>& v, const std::vector<int>& all, int f, int depth) {
    int n = r.range(1, depth ? 2 : 4); uint32_t flags = 1 | (r.chance(1, 2) ? 2 : 0) | (r.chance(1, 2) ? 4 : 0);
    for (int i = 0; i < n; i++) {
      CallDesc a = r.chance(1, 4) ? kin(d) : call(r.chance(2, 3) ? f : related(r.chance(1, 2) ? v : all, f));
      if (g_ops[a.op].work < 200 && r.chance(1, 6)) a.rep = uint32_t(r.range(2, 40));
      p.aux.push_back(a); p.faults.push_back(Fault{d.uid, FK_HOLD, flags, a.uid});
      if (r.chance(1, 6)) { CallDesc x = a; faulty(x, 1, 1); }
      else if (depth < 3 && a.rep == 1 && !(g_ops[a.op].flags & (F_PRINT | F_INPLACE)) && r.chance(1, 4)) keep(a, v, all, f, depth + 1);
    }
  }
  // the same object as both operands
  void alias(CallDesc& d) {
    const OpInfo& o = g_ops[d.op]; if (o.nin != 2 || o.in[0].r != o.in[1].r || o.in[0].c != o.in[1].c || d.place[0] >= 0 || d.place[1] >= 0 || !r.chance(1, 4)) return;
    d.place[1] = d.place[0]; d.kind[1] = d.kind[0]; d.vseed[1] = d.vseed[0];
  }
  void nest(const CallDesc& d, const std::vector<int>& v, int f, int depth) {
    const Expected& e = alone(d); int n = r.range(1, depth || maxnest > 2 ? 1 : 4);
    for (int i = 0; i < n; i++) {
      CallDesc a = call(r.chance(3, 4) ? f : related(v, f)); if (r.chance(1, 8)) a.ctx = Ctx(r.below(CTX_N));
      if (maxnest == 2 && g_ops[a.op].work < 400 && r.chance(1, 6)) a.rep = uint32_t(r.range(2, 40));
      p.aux.push_back(a); p.faults.push_back(Fault{d.uid, FK_NEST, at_step(e), a.uid});
      if (depth < maxnest && a.rep == 1 && (maxnest > 2 || r.chance(1, 4))) nest(a, v, f, depth + 1);
      else if (r.chance(1, 6)) { CallDesc x = a; faulty(x, 1, 1); }
    }
  }
};
}  // namespace
Plan make_plan(const std::string& prop, uint64_t seed, uint64_t index, AloneFn alone) {
  Gen g(prop, seed, index, alone);
  if (prop == "C01") g.c01(); else if (prop == "C02") g.c02(); else if (prop == "C03") g.c03(); else if (prop == "C04") g.c04(); else if (prop == "C05") g.c05(); else if (prop == "C06") g.c06();
  else if (prop == "C07") g.c07(); else if (prop == "C08") g.c08(); else if (prop == "C09") g.c09(); else if (prop == "C10") g.c10(); else if (prop == "C11") g.c11(); else if (prop == "C12") g.c12();
  return g.p;
}
