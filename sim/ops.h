// Thin adapters: one function per (operation, element type, shape), all calling
// the real templates of /repo/matrix. Included by the instrumented TUs only.
#pragma once
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <stdexcept>
#include <complex>
#include <limits>
#include <random>
#include <cmath>
#include "rt.h"
#include "rat.h"
#include "matrix.hpp"

namespace ops {
using mlib::Matrix;
using std::size_t;

template <class T> struct Tid;
template <> struct Tid<float> { static constexpr Type v = T_F; };
template <> struct Tid<double> { static constexpr Type v = T_D; };
template <> struct Tid<int> { static constexpr Type v = T_I; };
template <> struct Tid<unsigned> { static constexpr Type v = T_U; };
template <> struct Tid<std::complex<double>> { static constexpr Type v = T_C; };
template <> struct Tid<long double> { static constexpr Type v = T_X; };
template <> struct Tid<long> { static constexpr Type v = T_L; };
template <> struct Tid<short> { static constexpr Type v = T_S; };
template <> struct Tid<unsigned char> { static constexpr Type v = T_B; };
template <> struct Tid<Rat> { static constexpr Type v = T_R; };

template <class F> NOINSTR inline auto lib(F f) -> decltype(f()) { LibScope s; return f(); }
template <class T> struct by_ref { static constexpr bool v = false; };
template <class T> struct by_ref<T&> { static constexpr bool v = true; };
template <class T> struct by_ref<T&&> { static constexpr bool v = true; };

// ---- serialisation: 32 bytes per element, NaN canonical ----
NOINSTR inline void ser1(const float& v, uint8_t* o) { memset(o, 0, 32); if (v != v) { o[0] = 1; return; } memcpy(o + 8, &v, sizeof v); }
NOINSTR inline void ser1(const double& v, uint8_t* o) { memset(o, 0, 32); if (v != v) { o[0] = 1; return; } memcpy(o + 8, &v, sizeof v); }
NOINSTR inline void ser1(const long double& v, uint8_t* o) { memset(o, 0, 32); if (v != v) { o[0] = 1; return; } memcpy(o + 8, &v, 10); }
NOINSTR inline void ser1(const long& v, uint8_t* o) { memset(o, 0, 32); memcpy(o + 8, &v, sizeof v); }
NOINSTR inline void ser1(const short& v, uint8_t* o) { memset(o, 0, 32); memcpy(o + 8, &v, sizeof v); }
NOINSTR inline void ser1(const unsigned char& v, uint8_t* o) { memset(o, 0, 32); o[8] = v; }
NOINSTR inline void ser1(const int& v, uint8_t* o) { memset(o, 0, 32); memcpy(o + 8, &v, sizeof v); }
NOINSTR inline void ser1(const unsigned& v, uint8_t* o) { memset(o, 0, 32); memcpy(o + 8, &v, sizeof v); }
NOINSTR inline void ser1(const std::complex<double>& v, uint8_t* o) {
  memset(o, 0, 32); double a = v.real(), b = v.imag();
  if (a != a) o[0] |= 1; else memcpy(o + 8, &a, 8);
  if (b != b) o[0] |= 2; else memcpy(o + 16, &b, 8);
}
NOINSTR inline void ser1(const Rat& v, uint8_t* o) { memset(o, 0, 32); Rat::chk(v, "read of result"); memcpy(o + 8, &v.q, sizeof v.q); }

template <class T> NOINSTR void put(Call& k, const T& v) { uint8_t b[32]; ser1(v, b); rt_put(k, b, 32); }
NOINSTR inline void put(Call& k, bool v) { uint8_t b = v; rt_put(k, &b, 1); }
template <class T, size_t r, size_t c> NOINSTR void put(Call& k, const Matrix<T, r, c>& m) {
  const T* p = r && c ? &m[0][0] : nullptr;
  for (size_t i = 0; i < r * c; i++) put(k, p[i]);
}
template <class A, class B> NOINSTR void put(Call& k, const std::pair<A, B>& m) { put(k, m.first); put(k, m.second); }
template <class T> NOINSTR void put(Call& k, const std::map<T, size_t>& m) {
  for (auto it = m.begin(); it != m.end(); ++it) { put(k, it->first); uint64_t n = it->second; rt_put(k, &n, 8); }
}

// what the caller does with a result: read it at once; in some runs keep it, make other calls, and read it again; overwrite it
template <bool ref> struct Read { template <class R> NOINSTR static void now(Call& k, R& r) { put(k, r); } };
template <> struct Read<true> { template <class R> NOINSTR static void now(Call& k, R& r) { typename std::decay<R>::type copy = lib([&] { return typename std::decay<R>::type(r); }); put(k, copy); } };
template <class T> NOINSTR inline void scribble(const T&) {}
template <class T> NOINSTR inline typename std::enable_if<std::is_arithmetic<T>::value>::type scribble(T& v) { v = T(77); }
NOINSTR inline void scribble(std::complex<double>& v) { v = 77.0; }
NOINSTR inline void scribble(Rat& v) { v.q = Q{-4444, 1}; }
template <class T, size_t r, size_t c> NOINSTR void scribble(Matrix<T, r, c>& m) { T* p = &m[0][0]; for (size_t i = 0; i < r * c; i++) scribble(p[i]); }
template <class A, class B> NOINSTR void scribble(std::pair<A, B>& m) { scribble(m.first); scribble(m.second); }
template <class T> NOINSTR void scribble(std::map<T, size_t>& m) { for (auto it = m.begin(); it != m.end(); ++it) it->second = 77777; }
template <bool ref, class R> NOINSTR void consume(Call& k, R& r) {
  Read<ref>::now(k, r);
  int h = rt_hold(k); if (!h) return;
  Read<ref>::now(k, r);
  if (h & 2) { scribble(r); rt_after(k); }
}
#define RESULT(...) auto&& res = lib([&]() -> decltype(auto) { return __VA_ARGS__; }); consume<by_ref<decltype(__VA_ARGS__)>::v>(k, res)

template <class T> struct Val {
  NOINSTR static T make(Q q) { return T(q_to_double(q)); }
  NOINSTR static T raw(double d) { return T(d); }
  NOINSTR static T scalar(int code) {
    typedef std::numeric_limits<T> L;
    switch (code - SC_SPECIAL) {
      case 0: return T(-0.0); case 1: return L::quiet_NaN(); case 2: return L::infinity(); case 3: return -L::infinity();
      case 4: return L::denorm_min(); case 5: return T(1e-30); case 6: return -L::min(); case 7: return L::max();
    }
    return T(code / 4.0);
  }
};
NOINSTR inline float eps_of(int code) { return code >= SC_SPECIAL ? Val<float>::scalar(code) : float(code) / 8; }
template <class I> struct IntVal {
  NOINSTR static I make(Q q) { return I(q.d ? q.n / q.d : 0); }
  NOINSTR static I raw(double d) { return I(d); }
  NOINSTR static I scalar(int code) { return I(code); }
};
template <> struct Val<int> : IntVal<int> {};
template <> struct Val<long> : IntVal<long> {};
template <> struct Val<short> : IntVal<short> {};
template <class U> struct UnsVal {
  NOINSTR static U make(Q q) { long v = long(q.d ? q.n / q.d : 0); return U(v < 0 ? -v : v); }
  NOINSTR static U raw(double d) { return U(d); }
  NOINSTR static U scalar(int code) { return U(code < 0 ? -code : code); }
};
template <> struct Val<unsigned> : UnsVal<unsigned> {};
template <> struct Val<unsigned char> : UnsVal<unsigned char> {};
template <> struct Val<std::complex<double>> {
  typedef std::complex<double> C;
  NOINSTR static C make(Q q) { double d = q_to_double(q); return C(d, double(long(d * 7) % 5)); }
  NOINSTR static C raw(double d) { return C(d, 0); }
  NOINSTR static C scalar(int code) { return C(code / 4.0, 1); }
};
template <> struct Val<Rat> {
  NOINSTR static Rat make(Q q) { return Rat(Rat::Raw(), q); }
  NOINSTR static Rat raw(double d) { return Rat(Rat::Raw(), q_from_double(d)); }
  NOINSTR static Rat scalar(int code) { return Rat(Rat::Raw(), q_make(code, 4)); }
};

template <class T> struct Svc {
  NOINSTR static void construct(void* dst, const Q* v, const double* raw, int n) {
    T* p = static_cast<T*>(dst);
    for (int i = 0; i < n; i++) { if (raw) new (p + i) T(Val<T>::raw(raw[i])); else new (p + i) T(Val<T>::make(v[i])); }
  }
  NOINSTR static void destroy(void* dst, int n) { T* p = static_cast<T*>(dst); for (int i = 0; i < n; i++) p[i].~T(); }
  NOINSTR static void assign(void* dst, const Q* v, int n) { T* p = static_cast<T*>(dst); for (int i = 0; i < n; i++) p[i] = Val<T>::make(v[i]); }
  NOINSTR static void serialize(const void* s, int n, uint8_t* o) { const T* p = static_cast<const T*>(s); for (int i = 0; i < n; i++) ser1(p[i], o + 32 * i); }
  NOINSTR static void format(const void* s, int r, int c, std::ostream& o) {
    const T* p = static_cast<const T*>(s);
    for (int i = 0; i < r; i++) { for (int j = 0; j < c; j++) o << p[i * c + j] << " "; o << "\n"; }
  }
  NOINSTR static void install() {
    type_ops[Tid<T>::v] = TypeOps{sizeof(T), construct, destroy, assign, serialize, format};
    type_present[Tid<T>::v] = true;
  }
};

inline void reg(const char* name, Type t, int nin, Shape a, Shape b, uint32_t flags, double work, void (*fn)(Call&)) {
  char buf[96];
  if (nin == 2) snprintf(buf, sizeof buf, "%s:%s:%dx%d:%dx%d", name, type_name[t], a.r, a.c, b.r, b.c);
  else snprintf(buf, sizeof buf, "%s:%s:%dx%d", name, type_name[t], a.r, a.c);
  OpInfo o; o.name = strdup(buf); o.type = t; o.nin = nin; o.in[0] = a; o.in[1] = b; o.flags = flags; o.fn = fn; o.work = work;
  rt_register(o);
}

#define SH(r, c) Shape{uint16_t(r), uint16_t(c)}
// How the caller passes an operand: as a constant, as a variable, or as a temporary that is gone when the result is used.
// A category the library does not accept (any more) is replaced by one that it accepts.
template <class X> struct Cat { typedef X type; };
template <class M> struct Temp {                       // a temporary; its storage does not survive it
  M* p;
  NOINSTR Temp(Call& k, int i) : p(new (rt_temp(k, i)) M(*static_cast<const M*>(k.in[i]))) {}
  NOINSTR ~Temp() { p->~M(); rt_garbage(p, sizeof(M)); }
};
template <class F, class... X> struct accepts {
  template <class G> static auto test(int) -> decltype(std::declval<G&>()(Cat<X>()..., static_cast<typename std::remove_reference<X>::type*>(nullptr)...), std::true_type());
  template <class G> static std::false_type test(...);
  static constexpr bool v = decltype(test<F>(0))::value;
};
template <class X> struct Source { typedef typename std::remove_reference<X>::type M; M* p; NOINSTR Source(Call& k, int i) : p(static_cast<M*>(k.in[i])) {} };
template <class M> struct Source<M&&> : Temp<M> { NOINSTR Source(Call& k, int i) : Temp<M>(k, i) {} };
template <bool ok> struct Invoke {
  template <class F, class X> NOINSTR static auto go1(Call& k, F& f) -> decltype(f(Cat<X>(), Source<X>(k, 0).p)) { Source<X> a(k, 0); return lib([&]() -> decltype(auto) { return f(Cat<X>(), a.p); }); }
  template <class F, class X, class Y> NOINSTR static auto go2(Call& k, F& f) -> decltype(f(Cat<X>(), Cat<Y>(), Source<X>(k, 0).p, Source<Y>(k, 1).p)) { Source<X> a(k, 0); Source<Y> b(k, 1); return lib([&]() -> decltype(auto) { return f(Cat<X>(), Cat<Y>(), a.p, b.p); }); }
  template <class F, class X> NOINSTR static bool call1(Call& k, F& f) { auto&& res = go1<F, X>(k, f); consume<by_ref<decltype(go1<F, X>(k, f))>::v>(k, res); return true; }
  template <class F, class X, class Y> NOINSTR static bool call2(Call& k, F& f) { auto&& res = go2<F, X, Y>(k, f); consume<by_ref<decltype(go2<F, X, Y>(k, f))>::v>(k, res); return true; }
};
template <> struct Invoke<false> {
  template <class F, class X> NOINSTR static bool call1(Call&, F&) { return false; }
  template <class F, class X, class Y> NOINSTR static bool call2(Call&, F&) { return false; }
};
template <class M, class F> NOINSTR void run1(Call& k, F f) {
  constexpr bool c = accepts<F, const M&>::v, m = accepts<F, M&>::v, r = accepts<F, M&&>::v;
  if (k.cat == 1 && Invoke<m>::template call1<F, M&>(k, f)) return;
  if (k.cat >= 2 && Invoke<r>::template call1<F, M&&>(k, f)) return;
  if (Invoke<c>::template call1<F, const M&>(k, f)) return;
  if (Invoke<m>::template call1<F, M&>(k, f)) return;
  Invoke<!c && !m>::template call1<F, M&&>(k, f);
}
template <class M, class N, class F> NOINSTR void run2(Call& k, F f) {
  constexpr bool c = accepts<F, const M&, const N&>::v, m = accepts<F, M&, N&>::v, rc = accepts<F, M&&, const N&>::v, cr = accepts<F, const M&, N&&>::v, rr = accepts<F, M&&, N&&>::v;
  if (k.cat == 1 && Invoke<m>::template call2<F, M&, N&>(k, f)) return;
  if (k.cat == 2 && Invoke<rc>::template call2<F, M&&, const N&>(k, f)) return;
  if (k.cat == 3 && Invoke<cr>::template call2<F, const M&, N&&>(k, f)) return;
  if (k.cat == 4 && Invoke<rr>::template call2<F, M&&, N&&>(k, f)) return;
  if (Invoke<c>::template call2<F, const M&, const N&>(k, f)) return;
  if (Invoke<m>::template call2<F, M&, N&>(k, f)) return;
  Invoke<!c && !m>::template call2<F, M&&, N&&>(k, f);
}
// Unary / binary adapters: EXPR sees A, B (operands), S (scalar), P (int parameters)
#define A static_cast<typename decltype(ca)::type>(*pa)
#define B static_cast<typename decltype(cb)::type>(*pb)
#define OP0(NAME, T, r, c, FLAGS, WORK, ...) \
  reg(NAME, Tid<T>::v, 0, SH(r, c), SH(0, 0), FLAGS, WORK, [](Call& k) { \
    using namespace mlib; const int32_t* P = k.p; (void)P; T S = Val<T>::scalar(k.p[0]); (void)S; \
    RESULT(__VA_ARGS__); })
#define OP1(NAME, T, r, c, FLAGS, WORK, ...) \
  reg(NAME, Tid<T>::v, 1, SH(r, c), SH(0, 0), FLAGS, WORK, [](Call& k) { \
    using namespace mlib; const int32_t* P = k.p; (void)P; \
    run1<Matrix<T, r, c>>(k, [&](auto ca, auto* pa) -> decltype(__VA_ARGS__) { return __VA_ARGS__; }); })
#define OP1S(NAME, T, r, c, FLAGS, WORK, ...) \
  reg(NAME, Tid<T>::v, 1, SH(r, c), SH(0, 0), (FLAGS) | F_SCALAR, WORK, [](Call& k) { \
    using namespace mlib; const T S = Val<T>::scalar(k.p[0]); \
    run1<Matrix<T, r, c>>(k, [&](auto ca, auto* pa) -> decltype(__VA_ARGS__) { return __VA_ARGS__; }); })
#define OP1V(NAME, T, r, c, FLAGS, WORK, ...) \
  reg(NAME, Tid<T>::v, 1, SH(r, c), SH(0, 0), FLAGS, WORK, [](Call& k) { \
    using namespace mlib; Cat<Matrix<T, r, c>&> ca; (void)ca; Matrix<T, r, c>* pa = static_cast<Matrix<T, r, c>*>(k.in[0]); \
    const int32_t* P = k.p; (void)P; \
    lib([&] { __VA_ARGS__; }); if ((FLAGS) & F_INPLACE) put(k, *pa); })
#define OP2(NAME, T, r, c, r2, c2, FLAGS, WORK, ...) \
  reg(NAME, Tid<T>::v, 2, SH(r, c), SH(r2, c2), FLAGS, WORK, [](Call& k) { \
    using namespace mlib; const int32_t* P = k.p; (void)P; typedef Matrix<T, r, c> M1; typedef Matrix<T, r2, c2> M2; \
    run2<M1, M2>(k, [&](auto ca, auto cb, auto* pa, auto* pb) -> decltype(__VA_ARGS__) { return __VA_ARGS__; }); })

// Every group can be left out (-DNO_group), so that a change under which one group no longer compiles for one
// element type does not take the others with it (tools/check.py).
// element-wise operations and everything that accepts any shape
template <class T, size_t r, size_t c> void shape_add() {
#ifndef NO_shape_add
  const double w = r * c; (void)w;
  OP2("sum", T, r, c, r, c, 0, w, sum(A, B));
  OP2("op+", T, r, c, r, c, 0, w, A + B);
  OP1S("sum_s", T, r, c, 0, w, sum(A, S));
  OP1S("op+s", T, r, c, 0, w, A + S);
  OP1S("s+op", T, r, c, 0, w, S + A);
  OP1("op++", T, r, c, 0, w, A++);
#endif
}
template <class T, size_t r, size_t c> void shape_sub() {
#ifndef NO_shape_sub
  const double w = r * c; (void)w;
  OP2("sub", T, r, c, r, c, 0, w, sub(A, B));
  OP2("op-", T, r, c, r, c, 0, w, A - B);
  OP1S("sub_s", T, r, c, 0, w, sub(A, S));
  OP1S("op-s", T, r, c, 0, w, A - S);
  OP1("op--", T, r, c, 0, w, A--);
#endif
}
template <class T, size_t r, size_t c> void shape_scale() {
#ifndef NO_shape_scale
  const double w = r * c; (void)w;
  OP1S("mult_s", T, r, c, 0, w, mult(A, S));
  OP1S("op*s", T, r, c, 0, w, A * S);
  OP1S("s*op", T, r, c, 0, w, S * A);
#endif
}
template <class T, size_t r, size_t c> void shape_trans() {
#ifndef NO_shape_trans
  const double w = r * c; (void)w;
  OP1("trans", T, r, c, 0, w, trans(A));
#endif
}
template <class T, size_t r, size_t c> void shape_conv() {
#ifndef NO_shape_conv
  const double w = r * c; (void)w;
  OP2("conv2", T, r, c, 3, 3, F_KERNEL, 9 * w, conv2(A, B));
  OP2("conv2_full", T, r, c, 3, 3, F_KERNEL, 9.0 * (r + 2) * (c + 2), conv2_full(A, B));
#endif
}
template <class T, size_t r, size_t c> void shape_swap() {
#ifndef NO_shape_swap
  const double w = r * c; (void)w;
  OP1V("swap_rows", T, r, c, F_INPLACE | F_IDX_R, w, swap_rows(A, size_t(P[1]), size_t(P[2])));
  OP1V("swap_cols", T, r, c, F_INPLACE | F_IDX_C, w, swap_cols(A, size_t(P[1]), size_t(P[2])));
#endif
}
template <class T, size_t r, size_t c> void shape_print() {
#ifndef NO_shape_print
  const double w = r * c; (void)w;
  OP1V("print", T, r, c, F_PRINT, 40 * w, print(A));
#endif
}
template <class T, size_t r, size_t c> void shape_make() {
#ifndef NO_shape_make
  const double w = r * c; (void)w;
  OP0("zeros", T, r, c, 0, w, zeros<T, r, c>());
  OP0("fill", T, r, c, F_SCALAR, w, fill<T, r, c>(S));
#endif
}
template <class T, size_t r, size_t c> void shape_ring() {
  shape_add<T, r, c>(); shape_sub<T, r, c>(); shape_scale<T, r, c>(); shape_trans<T, r, c>(); shape_conv<T, r, c>(); shape_swap<T, r, c>(); shape_print<T, r, c>(); shape_make<T, r, c>();
}
template <class T, size_t r, size_t c> void shape_vh() {
#ifndef NO_shape_vh
  OP2("concat_v", T, r, c, r + 1, c, 0, 2.0 * r * c, concatenate(A, B));
  OP2("concat_h", T, r, c, r, c + 1, 0, 2.0 * r * c, concatenate(A, B));
#endif
}
template <class T, size_t r, size_t c> void shape_hist() {
#ifndef NO_shape_hist
  const double w = r * c; (void)w;
  OP1("histogram", T, r, c, F_HEAP | F_ORDER, 8 * w, histogram(A));
  OP1("cumulative_histogram", T, r, c, F_HEAP | F_ORDER, 16 * w, cumulative_histogram(A));
#endif
}
template <class T, size_t r, size_t c> void shape_median() {
#ifndef NO_shape_median
  const double w = r * c; (void)w;
  OP1("median", T, r, c, F_ORDER, 16 * w, median(A));
#endif
}
template <class T, size_t r, size_t c> void shape_mean() {
#ifndef NO_shape_mean
  const double w = r * c; (void)w;
  OP1("mean", T, r, c, 0, w, mean(A));
#endif
}
template <class T, size_t r, size_t c> void shape_stat() { shape_hist<T, r, c>(); shape_median<T, r, c>(); shape_mean<T, r, c>(); }
template <class T, size_t r, size_t c> void shape_var() {
#ifndef NO_shape_var
  OP1("var", T, r, c, 0, 3.0 * r * c, var(A));
  OP1("stddev", T, r, c, 0, 3.0 * r * c, stddev(A));
#endif
}
template <class T, size_t r, size_t c> void shape_abs() {
#ifndef NO_shape_abs
  OP1("abs", T, r, c, 0, 1.0 * r * c, mlib::abs(A));
  OP2("compare", T, r, c, r, c, F_EPS, 1.0 * r * c, compare(A, B, eps_of(P[1])));
#endif
}
template <class T, size_t r, size_t c> void shape_div() {
#ifndef NO_shape_div
  OP1S("div", T, r, c, F_DIV, 1.0 * r * c, mlib::div(A, S));
  OP1S("op/", T, r, c, F_DIV, 1.0 * r * c, A / S);
#endif
}
template <class T, size_t n, size_t m, size_t p> void shape_mult() {
#ifndef NO_shape_mult
  OP2("mult", T, n, m, m, p, 0, 1.0 * n * m * p, mult(A, B));
  OP2("op*", T, n, m, m, p, 0, 1.0 * n * m * p, A * B);
#endif
}
// square matrices
template <class T, size_t n> void square_concat() {
#ifndef NO_square_concat
  const double w = n * n; (void)w;
  OP2("concat_sq", T, n, n, n, n, 0, 4 * w, concatenate(A, B));
  OP2("concatV", T, n, n, n, n, 0, 2 * w, concatenateV(A, B));
  OP2("concatH", T, n, n, n, n, 0, 2 * w, concatenateH(A, B));
#endif
}
template <class T, size_t n> void square_make() {
#ifndef NO_square_make
  const double w = n * n; (void)w;
  OP0("eye", T, n, n, F_SCALAR, w, eye<T, n>(S));
  OP0("eye1", T, n, n, 0, w, eye<T, n>());
  OP0("ones", T, n, n, 0, w, ones<T, n, n>());
#endif
}
template <class T, size_t n> void square_ring() { shape_mult<T, n, n, n>(); square_concat<T, n>(); square_make<T, n>(); }
template <class T, size_t n> void square_sym() {
#ifndef NO_square_sym
  OP1("isSymetric", T, n, n, 0, 1.0 * n * n, isSymetric(A));
#endif
}
template <class T, size_t n> void square_minor() {
#ifndef NO_square_minor
  OP1("getminor", T, n, n, F_IDX_RC, 1.0 * n * n, getminor(A, size_t(P[1]), size_t(P[2])));
#endif
}
template <class T, size_t n> void square_valid() {
#ifndef NO_square_valid
  OP2("conv2_valid", T, n, n, 3, 3, F_KERNEL, 12.0 * n * n, conv2_valid(A, B));
#endif
}
template <class T> void square_strassen() {
#ifndef NO_square_strassen
  OP2("strassen", T, 2, 2, 2, 2, 0, 30, strassen(A, B));
#endif
}
template <class T, size_t n> void square_det() {
#ifndef NO_square_det
  OP1("det", T, n, n, 0, 3.0 * n * n * n, det(A));
#endif
}
template <class T, size_t n> void square_inv() {
#ifndef NO_square_inv
  OP1("inv", T, n, n, F_INV, 3.0 * n * n * n * n * n + 10, inv(A));
#endif
}
template <class T, size_t n> void square_pow() {
#ifndef NO_square_pow
  OP1("powl", T, n, n, F_INV | F_EXP, 3.0 * n * n * n * n * n + 64.0 * n * n * n + 10, mlib::pow(A, long(P[1])));
  OP1("pow", T, n, n, F_INV | F_EXP, 3.0 * n * n * n * n * n + 64.0 * n * n * n + 10, mlib::pow(A, int(P[1])));
#endif
}
template <class T, size_t n> void square_lu() {
#ifndef NO_square_lu
  OP1("lu", T, n, n, F_LU, 3.0 * n * n * n, lu(A));
#endif
}
template <class T, size_t n> void square_chol() {
#ifndef NO_square_chol
  OP1("chol", T, n, n, F_CHOL, 3.0 * n * n * n, chol(A));
#endif
}
template <size_t r, size_t c> void shape_onesu() {
#ifndef NO_shape_onesu
  OP0("ones_u", unsigned, r, c, 0, 1.0 * r * c, ones<0u, r, c>());
#endif
}
template <size_t n> void square_ident() {
#ifndef NO_square_ident
  OP1("isIdentity", unsigned, n, n, 0, 3.0 * n * n, isIdentity(A));
#endif
}

#undef A
#undef B
// ---- groups ----
template <class T, size_t r, size_t c> void any_real() {
  shape_ring<T, r, c>(); shape_stat<T, r, c>(); shape_var<T, r, c>(); shape_abs<T, r, c>(); shape_div<T, r, c>();
}
template <class T, size_t r, size_t c> void rect_real() { any_real<T, r, c>(); shape_vh<T, r, c>(); }
template <class T, size_t n> void sq_lin() {   // linear algebra
  square_det<T, n>(); square_lu<T, n>(); square_sym<T, n>();
}
template <class T, size_t n> struct minor_if { static void go() { square_minor<T, n>(); } };
template <class T> struct minor_if<T, 1> { static void go() {} };
template <class T, size_t n, bool ok = (n >= 3)> struct valid_if { static void go() { square_valid<T, n>(); } };
template <class T, size_t n> struct valid_if<T, n, false> { static void go() {} };
}  // namespace ops
