#include "model.h"
#include <algorithm>
#include <cmath>
#include <string>
namespace {
struct NoOpinion {};
struct N { Q re, im; };                      // complex rational; im == 0 for all other types
Q ck(Q q) { if (!q.d) throw NoOpinion(); return q; }
N n_of(int v) { return N{Q{v, 1}, Q{0, 1}}; }
N operator+(N a, N b) { return N{ck(q_add(a.re, b.re)), ck(q_add(a.im, b.im))}; }
N operator-(N a, N b) { return N{ck(q_sub(a.re, b.re)), ck(q_sub(a.im, b.im))}; }
N operator*(N a, N b) { return N{ck(q_sub(ck(q_mul(a.re, b.re)), ck(q_mul(a.im, b.im)))), ck(q_add(ck(q_mul(a.re, b.im)), ck(q_mul(a.im, b.re))))}; }
N operator/(N a, N b) { if (a.im.n || b.im.n) throw NoOpinion(); return N{ck(q_div(a.re, b.re)), Q{0, 1}}; }
bool same(N a, N b) { return !q_cmp(a.re, b.re) && !q_cmp(a.im, b.im); }
bool zero(N a) { return !a.re.n && !a.im.n; }

struct M { int r, c; std::vector<N> v; M(int R, int C) : r(R), c(C), v(R * C, n_of(0)) {} N& operator()(int i, int j) { return v[i * c + j]; } const N& operator()(int i, int j) const { return v[i * c + j]; } };
M mul(const M& a, const M& b) { M o(a.r, b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) { N s = n_of(0); for (int k = 0; k < a.c; k++) s = s + a(i, k) * b(k, j); o(i, j) = s; } return o; }
M minor_of(const M& a, int r, int c) { M o(a.r - 1, a.c - 1); for (int i = 0, x = 0; i < a.r; i++) if (i != r) { for (int j = 0, y = 0; j < a.c; j++) if (j != c) o(x, y++) = a(i, j); x++; } return o; }
N leibniz(const M& a) {                      // expansion along the first row: ring operations only
  if (a.r == 1) return a(0, 0);
  N s = n_of(0);
  for (int j = 0; j < a.c; j++) if (!zero(a(0, j))) { N t = a(0, j) * leibniz(minor_of(a, 0, j)); s = j % 2 ? s - t : s + t; }
  return s;
}
N det_of(M a) {
  int n = a.r;
  if (n <= 3) return leibniz(a);
  N d = n_of(1);
  for (int k = 0; k < n; k++) {
    int p = k; while (p < n && zero(a(p, k))) p++;
    if (p == n) return n_of(0);
    if (p != k) { for (int j = 0; j < n; j++) std::swap(a(p, j), a(k, j)); d = n_of(0) - d; }
    d = d * a(k, k);
    for (int i = k + 1; i < n; i++) { if (zero(a(i, k))) continue; N f = a(i, k) / a(k, k); for (int j = k; j < n; j++) a(i, j) = a(i, j) - f * a(k, j); }
  }
  return d;
}
bool inverse_of(M a, M& o) {                 // Gauss-Jordan
  int n = a.r; o = M(n, n); for (int i = 0; i < n; i++) o(i, i) = n_of(1);
  for (int k = 0; k < n; k++) {
    int p = k; while (p < n && zero(a(p, k))) p++;
    if (p == n) return false;
    for (int j = 0; j < n; j++) { std::swap(a(p, j), a(k, j)); std::swap(o(p, j), o(k, j)); }
    N d = a(k, k); for (int j = 0; j < n; j++) { a(k, j) = a(k, j) / d; o(k, j) = o(k, j) / d; }
    for (int i = 0; i < n; i++) if (i != k && !zero(a(i, k))) { N f = a(i, k); for (int j = 0; j < n; j++) { a(i, j) = a(i, j) - f * a(k, j); o(i, j) = o(i, j) - f * o(k, j); } }
  }
  return true;
}
N trunc_div(N a, N b) { if (!b.re.n) throw NoOpinion(); return N{Q{a.re.n / b.re.n, 1}, Q{0, 1}}; }

struct Item { enum { ELEM, BOOL, COUNT } k; N n; uint64_t u; };
struct Out {
  Outcome st = ST_OK; bool value = true; double tol = 0; std::vector<Item> items;
  void e(N x) { items.push_back(Item{Item::ELEM, x, 0}); }
  void b(bool x) { items.push_back(Item{Item::BOOL, n_of(0), x}); }
  void cnt(uint64_t x) { items.push_back(Item{Item::COUNT, n_of(0), x}); }
  void m(const M& x) { for (auto& v : x.v) e(v); }
};
bool isint(Type t) { return t_int(t); }
bool flt(Type t) { return t_flt(t); }

M operand(const OpInfo& o, const CallDesc& d, int i) {
  std::vector<Q> q; std::vector<double> raw; gen_values(o.type, o.in[i], d.kind[i], d.vseed[i], q, raw);
  if (!raw.empty()) throw NoOpinion();
  M m(o.in[i].r, o.in[i].c);
  for (size_t k = 0; k < q.size(); k++) {
    N v{q[k], Q{0, 1}};
    if (isint(o.type)) { v.re = Q{q[k].n / q[k].d, 1}; if (t_uns(o.type) && v.re.n < 0) v.re.n = -v.re.n; }
    if (o.type == T_C) v.im = Q{int64_t(long(q_to_double(q[k]) * 7) % 5), 1};
    m.v[k] = v;
  }
  return m;
}
N scalar_of(const OpInfo& o, const CallDesc& d) {
  int c = d.p[0]; if (c >= SC_SPECIAL) return n_of(c == SC_SPECIAL ? 0 : 1);
  switch (o.type) {
    case T_I: case T_L: case T_S: return n_of(c);
    case T_U: case T_B: return n_of(c < 0 ? -c : c);
    case T_C: return N{q_make(c, 4), Q{1, 1}};
    default: return N{q_make(c, 4), Q{0, 1}};
  }
}
bool is(const std::string& n, const char* s) { return n == s; }

void compute(const OpInfo& o, const CallDesc& d, Out& out) {
  std::string name(o.name, strchr(o.name, ':') - o.name); Type t = o.type;
  int r = o.in[0].r, c = o.in[0].c; const int32_t* P = d.p;
  const bool plain = (d.vseed[0] >> 24) == 0;   // not one of the relatives: has the character of its kind
  const bool exactk = plain && d.kind[0] == K_PERM;
  auto wellcond = [&] { if (!plain) return false; return d.kind[0] == K_DOM || d.kind[0] == K_IDENT || d.kind[0] == K_DOMTINY || d.kind[0] == K_DOMHUGE || (exactk && r <= 8); };
  const double tol = t == T_F ? 2e-3 : 1e-6;
  auto rational = [&] { if (flt(t)) out.tol = tol; };                           // result not representable in general
  auto scaled = [&](int k) { return k == K_TINY || k == K_HUGE || k == K_DOMTINY || k == K_DOMHUGE; };
  if (flt(t) && ((o.nin > 0 && scaled(d.kind[0])) || (o.nin > 1 && scaled(d.kind[1])))) {   // magnitudes mix: rounding
    out.tol = tol; if (is(name, "compare") || is(name, "var") || is(name, "stddev")) throw NoOpinion();
  }
  N S = (o.flags & F_SCALAR) ? scalar_of(o, d) : n_of(0);
  if (is(name, "zeros")) { out.m(M(r, c)); return; }
  if (is(name, "ones") || is(name, "ones_u")) { for (int i = 0; i < r * c; i++) out.e(n_of(1)); return; }
  if ((is(name, "fill") || is(name, "eye")) && P[0] >= SC_SPECIAL) throw NoOpinion();
  if (is(name, "fill")) { for (int i = 0; i < r * c; i++) out.e(S); return; }
  if (is(name, "eye") || is(name, "eye1")) { M x(r, c); for (int i = 0; i < r; i++) x(i, i) = is(name, "eye") ? S : n_of(1); out.m(x); return; }
  // errors first: they are determined even where the values are not
  if (o.flags & F_DIV) { if (zero(S)) { out.st = ST_OVERFLOW; return; } if (P[0] >= SC_SPECIAL) { out.value = false; return; } }
  if ((o.flags & F_SCALAR) && P[0] >= SC_SPECIAL) throw NoOpinion();
  if (isint(t) && ((o.nin > 0 && d.kind[0] == K_BIG) || (o.nin > 1 && d.kind[1] == K_BIG))) {   // arithmetic would overflow
    static const char* const moves[] = {"trans", "swap_rows", "swap_cols", "print", "concat_v", "concatV", "concat_h", "concatH", "concat_sq", "histogram", "cumulative_histogram", "isSymetric", "isIdentity", "getminor"};
    bool ok = false; for (auto m : moves) ok |= is(name, m); if (!ok) throw NoOpinion();
  }
  else if (o.flags & F_EXP) { if (P[1] >= 0) out.st = ST_OK; }
  const bool needs_regular = (o.flags & F_INV) && (!(o.flags & F_EXP) || P[1] < 0);
  if ((needs_regular || (o.flags & F_LU)) && flt(t) && d.kind[0] == K_DIAG) { out.value = false; return; }   // regular, whatever the values
  if (needs_regular || (o.flags & F_LU)) {
    if (isint(t) && (r > 3 || (o.flags & F_LU))) { if (!((o.flags & F_LU) && d.kind[0] == K_IDENT && plain)) throw NoOpinion(); }
    if (flt(t)) {
      bool z = plain && (d.kind[0] == K_ZROW || d.kind[0] == K_ZCOL || d.kind[0] == K_ZERO), lm = plain && d.kind[0] == K_LMINOR;
      if (o.flags & F_LU) { if (!wellcond() && !(plain && d.kind[0] == K_ZERO) && !lm) throw NoOpinion(); }
      else if (!z && !exactk && !wellcond() && !(r <= 3 && d.kind[0] != K_FRAC)) throw NoOpinion();
    }
  }
  M A = o.nin > 0 ? operand(o, d, 0) : M(1, 1), B = o.nin > 1 ? operand(o, d, 1) : M(1, 1);
  if (needs_regular && zero(det_of(A))) { out.st = ST_OVERFLOW; return; }
  if (needs_regular && flt(t) && exactk && r > 8) { out.value = false; return; }
  if (o.flags & F_LU) {
    for (int k = 1; k <= r; k++) { M L(k, k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) L(i, j) = A(i, j); if (zero(det_of(L))) { out.st = ST_OVERFLOW; return; } }
  }
  auto map1 = [&](auto f) { for (auto& x : A.v) out.e(f(x)); };
  auto map2 = [&](auto f) { for (size_t i = 0; i < A.v.size(); i++) out.e(f(A.v[i], B.v[i])); };
  if (is(name, "sum") || is(name, "op+")) map2([](N a, N b) { return a + b; });
  else if (is(name, "sub") || is(name, "op-")) map2([](N a, N b) { return a - b; });
  else if (is(name, "sum_s") || is(name, "op+s") || is(name, "s+op")) map1([&](N a) { return a + S; });
  else if (is(name, "sub_s") || is(name, "op-s")) map1([&](N a) { return a - S; });
  else if (is(name, "op++")) map1([&](N a) { return a + n_of(1); });
  else if (is(name, "op--")) map1([&](N a) { return a - n_of(1); });
  else if (is(name, "mult_s") || is(name, "op*s") || is(name, "s*op")) map1([&](N a) { return a * S; });
  else if (is(name, "div") || is(name, "op/")) { rational(); map1([&](N a) { return isint(t) ? trunc_div(a, S) : a / S; }); }
  else if (is(name, "abs")) { if (t == T_C) throw NoOpinion(); map1([](N a) { if (a.re.n < 0) a.re.n = -a.re.n; return a; }); }
  else if (is(name, "mult") || is(name, "op*") || is(name, "strassen")) out.m(mul(A, B));
  else if (is(name, "trans")) { for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) out.e(A(i, j)); }
  else if (is(name, "conv2") || is(name, "conv2_full") || is(name, "conv2_valid")) {
    int off = is(name, "conv2") ? 0 : is(name, "conv2_full") ? -1 : 1, R = r - 2 * off, C = c - 2 * off;
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
      N s = n_of(0);
      for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { int y = i + off + a - 1, x = j + off + b - 1; if (y >= 0 && y < r && x >= 0 && x < c) s = s + B(a, b) * A(y, x); }
      out.e(s);
    }
  }
  else if (is(name, "swap_rows")) { for (int j = 0; j < c; j++) std::swap(A(P[1], j), A(P[2], j)); out.m(A); }
  else if (is(name, "swap_cols")) { for (int i = 0; i < r; i++) std::swap(A(i, P[1]), A(i, P[2])); out.m(A); }
  else if (is(name, "print")) {}
  else if (is(name, "concat_v") || is(name, "concatV")) { out.m(A); out.m(B); }
  else if (is(name, "concat_h") || is(name, "concatH") || is(name, "concat_sq")) {
    if (is(name, "concat_sq")) { out.m(A); out.m(B); }
    for (int i = 0; i < r; i++) { for (int j = 0; j < A.c; j++) out.e(A(i, j)); for (int j = 0; j < B.c; j++) out.e(B(i, j)); }
  }
  else if (is(name, "histogram") || is(name, "cumulative_histogram")) {
    std::vector<Q> v; for (auto& x : A.v) v.push_back(x.re);
    std::sort(v.begin(), v.end(), [](const Q& a, const Q& b) { return q_cmp(a, b) < 0; });
    for (size_t i = 0; i < v.size();) { size_t k = i; while (k < v.size() && !q_cmp(v[k], v[i])) k++; out.e(N{v[i], Q{0, 1}}); out.cnt(is(name, "histogram") ? k - i : k); i = k; }
  }
  else if (is(name, "median")) {
    std::vector<Q> v; for (auto& x : A.v) v.push_back(x.re);
    std::sort(v.begin(), v.end(), [](const Q& a, const Q& b) { return q_cmp(a, b) < 0; });
    size_t n = v.size(); if (n % 2) out.e(N{v[n / 2], Q{0, 1}});
    else { N s = N{v[n / 2], Q{0, 1}} + N{v[n / 2 - 1], Q{0, 1}}; out.e(isint(t) ? trunc_div(s, n_of(2)) : s / n_of(2)); }
  }
  else if (is(name, "mean") || is(name, "var") || is(name, "stddev")) {
    if (t == T_B) throw NoOpinion();       // the sum wraps around
    N s = n_of(0), cnt = n_of(int(A.v.size())); for (auto& x : A.v) s = s + x;
    N m = isint(t) ? trunc_div(s, cnt) : s / cnt; rational();
    if (!is(name, "mean")) { N q = n_of(0); for (auto& x : A.v) q = q + (x - m) * (x - m); m = isint(t) ? trunc_div(q, cnt) : q / cnt; }
    if (is(name, "stddev")) {
      if (t == T_R) m.re = ck(q_sqrt(m.re));
      else if (isint(t)) m.re = Q{int64_t(std::sqrt(double(m.re.n))), 1};
      else { double x = std::sqrt(q_to_double(m.re)); m.re = ck(q_from_double(x)); }
    }
    out.e(m);
  }
  else if (is(name, "compare")) {
    if (t == T_C) throw NoOpinion();
    if (P[1] >= SC_SPECIAL) throw NoOpinion();
    bool eq = true; Q eps = q_make(P[1], 8);
    for (size_t i = 0; i < A.v.size(); i++) { Q x = ck(q_sub(A.v[i].re, B.v[i].re)); if (x.n < 0) x.n = -x.n; if (q_cmp(x, eps) > 0) eq = false; }
    out.b(eq);
  }
  else if (is(name, "isSymetric")) { bool s = true; for (int i = 0; i < r; i++) for (int j = 0; j < i; j++) if (!same(A(i, j), A(j, i))) s = false; out.b(s); }
  else if (is(name, "isIdentity")) { bool s = true; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (!same(A(i, j), n_of(i == j))) s = false; out.b(s); }
  else if (is(name, "getminor")) out.m(minor_of(A, P[1], P[2]));
  else if (is(name, "det")) {
    if (isint(t) && r > 3) throw NoOpinion();
    if (flt(t)) { if (r > 3) { if (!wellcond()) throw NoOpinion(); out.tol = tol; } else if (d.kind[0] == K_FRAC) out.tol = tol; }
    out.e(det_of(A));
  }
  else if (is(name, "inv")) {
    if (isint(t)) {
      N dd = det_of(A); if (r == 1) { out.e(trunc_div(n_of(1), dd)); return; }
      for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) { N m = det_of(minor_of(A, j, i)); if ((i + j) % 2) m = n_of(0) - m; out.e(trunc_div(m, dd)); }
      return;
    }
    if (flt(t)) { if (!wellcond() && r > 3) throw NoOpinion(); out.tol = tol; if (!wellcond()) out.tol = t == T_F ? 1e-2 : 1e-6; }
    M x(r, r); if (!inverse_of(A, x)) throw NoOpinion(); out.m(x);
  }
  else if (is(name, "pow") || is(name, "powl")) {
    int e = P[1], n = e < 0 ? -e : e;
    if (isint(t) && e < 0) throw NoOpinion();
    if (flt(t)) { if (!wellcond() && (e < 0 || r > 3)) throw NoOpinion(); if (n > 4) throw NoOpinion(); out.tol = tol; }
    if (n > 12) throw NoOpinion();
    M b = A; if (e < 0 && !inverse_of(A, b)) throw NoOpinion();
    M x(r, r); for (int i = 0; i < r; i++) x(i, i) = n_of(1);
    while (n--) x = mul(x, b);
    out.m(x);
  }
  else if (is(name, "lu")) {
    if (isint(t) && (d.kind[0] != K_IDENT || !plain)) throw NoOpinion();
    if (flt(t)) { if (!wellcond()) throw NoOpinion(); out.tol = tol; }
    M L(r, r), U = A; for (int i = 0; i < r; i++) L(i, i) = n_of(1);
    for (int k = 0; k < r; k++) for (int i = k + 1; i < r; i++) { N f = U(i, k) / U(k, k); L(i, k) = f; for (int j = 0; j < r; j++) U(i, j) = U(i, j) - f * U(k, j); }
    out.m(L); out.m(U);
  }
  else if (is(name, "chol")) {
    if (!plain || (d.kind[0] != K_SPD && d.kind[0] != K_IDENT)) throw NoOpinion();
    rational();
    M L(r, r);
    for (int i = 0; i < r; i++) for (int j = 0; j <= i; j++) {
      N s = A(i, j); for (int k = 0; k < j; k++) s = s - L(i, k) * L(j, k);
      if (i == j) { if (t != T_R && !q_sqrt(s.re).d) throw NoOpinion(); L(i, i) = N{ck(q_sqrt(s.re)), Q{0, 1}}; } else L(i, j) = s / L(j, j);
    }
    out.m(L);
  }
  else throw NoOpinion();
}
bool near(double got, double want, double scale, double tol) { return got == got && std::fabs(got - want) <= tol * (scale > 0 && scale < 1e-3 ? 1000 * scale : 1 + scale); }
}  // namespace

std::string model_check(const OpInfo& o, const CallDesc& d, const Expected& got, bool only_errors, bool* had) {
  if (had) *had = false;
  // an error may be reported only by the operations that define one
  const bool may_fail = (o.flags & (F_DIV | F_LU)) || ((o.flags & F_INV) && (!(o.flags & F_EXP) || d.p[1] < 0));
  if (got.st != ST_OK && (!may_fail || got.st != ST_OVERFLOW)) return std::string("the call reports: ") + outcome_name[got.st];
  Out w;
  try { compute(o, d, w); } catch (NoOpinion&) { return ""; }
  if (had) *had = true;
  if (w.st != got.st) return std::string("the operation defines: ") + outcome_name[w.st] + ", the call reports: " + outcome_name[got.st];
  if (only_errors || w.st != ST_OK || !w.value) return "";
  double scale = 0; for (auto& it : w.items) if (it.k == Item::ELEM) scale = std::max(scale, std::fabs(q_to_double(it.n.re)));
  const uint8_t* p = (const uint8_t*)got.bytes.data(); size_t n = got.bytes.size(), off = 0;
  if (o.type == T_R) for (auto& it : w.items) { if (it.k == Item::ELEM) { if (off + 32 > n) break; Q q; memcpy(&q, p + off + 8, sizeof q); if (!q.d) return ""; off += 32; } else off += it.k == Item::BOOL ? 1 : 8; }
  off = 0; size_t idx = 0;
  for (auto& it : w.items) {
    char where[160];
    if (it.k == Item::BOOL) { if (off + 1 > n) return "result too short"; if (p[off] != it.u) return it.u ? "false instead of true" : "true instead of false"; off += 1; continue; }
    if (it.k == Item::COUNT) { if (off + 8 > n) return "result too short"; uint64_t u; memcpy(&u, p + off, 8); if (u != it.u) { snprintf(where, sizeof where, "count %llu instead of %llu", (unsigned long long)u, (unsigned long long)it.u); return where; } off += 8; continue; }
    if (off + 32 > n) return "result too short";
    const uint8_t* e = p + off; bool ok = false; double g = 0, want = q_to_double(it.n.re);
    switch (o.type) {
      case T_F: { float f; memcpy(&f, e + 8, 4); g = e[0] ? NAN : f; ok = w.tol > 0 ? near(g, want, scale, w.tol) : g == want; break; }
      case T_D: { double f; memcpy(&f, e + 8, 8); g = e[0] ? NAN : f; ok = w.tol > 0 ? near(g, want, scale, w.tol) : g == want; break; }
      case T_X: { long double f; memcpy(&f, e + 8, 10); g = e[0] ? NAN : double(f); ok = w.tol > 0 ? near(g, want, scale, w.tol) : !e[0] && f == (long double)it.n.re.n / (long double)it.n.re.d; break; }
      case T_L: { long v; memcpy(&v, e + 8, 8); g = double(v); ok = it.n.re.d == 1 && it.n.re.n == v; break; }
      case T_S: { short v; memcpy(&v, e + 8, 2); g = v; ok = it.n.re.d == 1 && it.n.re.n == v; break; }
      case T_I: { int v; memcpy(&v, e + 8, 4); g = v; ok = it.n.re.d == 1 && it.n.re.n == v; break; }
      case T_U: { unsigned v; memcpy(&v, e + 8, 4); g = v; ok = it.n.re.d == 1 && uint32_t(it.n.re.n) == v; break; }
      case T_B: { unsigned char v = e[8]; g = v; ok = it.n.re.d == 1 && uint8_t(it.n.re.n) == v; break; }
      case T_C: { double a, b; memcpy(&a, e + 8, 8); memcpy(&b, e + 16, 8); g = a; ok = !e[0] && a == want && b == q_to_double(it.n.im); break; }
      default: { Q q; memcpy(&q, e + 8, sizeof q); g = q_to_double(q); ok = q_cmp(q, it.n.re) == 0; break; }
    }
    if (!ok) { snprintf(where, sizeof where, "element %zu is %.10g, the operation defines %.10g", idx, g, want); return where; }
    off += 32; idx++;
  }
  if (off != n) return "result too long";
  return "";
}
