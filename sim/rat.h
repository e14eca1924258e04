// Rat: an exact rational element type. Every operation is a point at which the
// simulator may switch tasks or make the operation throw; objects are counted.
#pragma once
#include "rt.h"
#include <iosfwd>
#include <type_traits>

namespace elem {
struct Rat;
Rat abs(const Rat&);
Rat fabs(const Rat&);
Rat sqrt(const Rat&);

struct Rat {
  enum : uint32_t { LIVE = 0x11fe11feu, DEAD = 0xdeaddeadu };
  Q q; uint32_t tag; const Rat* self;      // self: an element that was moved about as bytes is noticed

  NOINSTR static const Rat& chk(const Rat& r, const char* w) { if (r.tag != LIVE || r.self != &r) rt_elem_bad(w); return r; }
  NOINSTR void born() { tag = LIVE; self = this; rt_elem_born(); rt_elem_write(this, sizeof *this); }

  NOINSTR Rat() { rt_elem_op("default-construct"); q = Q{0, 1}; born(); }
  NOINSTR Rat(const Rat& o) { chk(o, "copy from"); rt_elem_read(&o, sizeof o); rt_elem_op("copy-construct"); q = o.q; born(); }
  template <class A, class = typename std::enable_if<std::is_arithmetic<A>::value>::type>
  NOINSTR Rat(A a) { rt_elem_op("convert"); q = conv(a, std::is_integral<A>()); born(); }
  struct Raw {};
  NOINSTR Rat(Raw, Q v) : q(v) { born(); }
  NOINSTR ~Rat() { chk(*this, "destroy"); tag = DEAD; self = nullptr; rt_elem_dead(); }
  NOINSTR Rat& operator=(const Rat& o) {
    chk(*this, "assign to"); chk(o, "assign from"); rt_elem_read(&o, sizeof o); rt_elem_op("assign");
    rt_elem_write(this, sizeof *this); q = o.q; return *this;
  }
  // a moved-from element is alive but has lost its value, as for a big-number type
  NOINSTR Rat(Rat&& o) { chk(o, "move from"); rt_elem_read(&o, sizeof o); rt_elem_op("move-construct"); q = o.q; born(); lose(o); }
  NOINSTR Rat& operator=(Rat&& o) {
    chk(*this, "assign to"); chk(o, "move from"); rt_elem_read(&o, sizeof o); rt_elem_op("move-assign");
    rt_elem_write(this, sizeof *this); q = o.q; if (&o != this) lose(o); return *this;
  }
  NOINSTR static void lose(Rat& o) { rt_elem_write(&o, sizeof o); o.q = Q{-77777, 1}; }
  template <class A> NOINSTR static Q conv(A a, std::true_type) { return q_make(a, 1); }
  template <class A> NOINSTR static Q conv(A a, std::false_type) { return q_from_double(a); }

#define RAT_BIN(op, fn) \
  NOINSTR Rat& operator op##=(const Rat& o) { \
    chk(*this, #op "= on"); chk(o, #op "= with"); rt_elem_read(this, sizeof *this); rt_elem_read(&o, sizeof o); rt_elem_op(#op "="); \
    rt_elem_write(this, sizeof *this); q = fn(q, o.q); return *this; } \
  NOINSTR friend Rat operator op(const Rat& a, const Rat& b) { \
    chk(a, #op); chk(b, #op); rt_elem_read(&a, sizeof a); rt_elem_read(&b, sizeof b); rt_elem_op(#op); \
    return Rat(Raw(), fn(a.q, b.q)); }
  RAT_BIN(+, q_add) RAT_BIN(-, q_sub) RAT_BIN(*, q_mul) RAT_BIN(/, q_div)
#undef RAT_BIN
#define RAT_CMP(op) \
  NOINSTR friend bool operator op(const Rat& a, const Rat& b) { \
    chk(a, #op); chk(b, #op); rt_elem_read(&a, sizeof a); rt_elem_read(&b, sizeof b); rt_elem_op(#op); return q_cmp(a.q, b.q) op 0; }
  RAT_CMP(==) RAT_CMP(!=) RAT_CMP(<) RAT_CMP(>) RAT_CMP(<=) RAT_CMP(>=)
#undef RAT_CMP
  NOINSTR Rat operator-() const { chk(*this, "neg"); rt_elem_op("neg"); return Rat(Raw(), q_neg(q)); }
  NOINSTR Rat operator+() const { chk(*this, "plus"); rt_elem_op("plus"); return Rat(Raw(), q); }
  NOINSTR Rat& operator++() { return *this += Rat(1); }
  NOINSTR Rat& operator--() { return *this -= Rat(1); }
  NOINSTR explicit operator bool() const { chk(*this, "bool"); rt_elem_op("bool"); return q.n != 0 || q.d == 0; }
  NOINSTR explicit operator double() const { chk(*this, "double"); rt_elem_op("double"); return q_to_double(q); }
  NOINSTR friend Rat abs(const Rat& a) { chk(a, "abs"); rt_elem_read(&a, sizeof a); rt_elem_op("abs"); return Rat(Raw(), a.q.n < 0 ? q_neg(a.q) : a.q); }
  NOINSTR friend Rat sqrt(const Rat& a) { chk(a, "sqrt"); rt_elem_op("sqrt"); return Rat(Raw(), q_sqrt(a.q)); }
};
NOINSTR inline Rat fabs(const Rat& a) { return abs(a); }
std::ostream& operator<<(std::ostream&, const Rat&);
}  // namespace elem
using elem::Rat;
namespace std {
NOINSTR inline Rat abs(const Rat& a) { return elem::abs(a); }
NOINSTR inline Rat fabs(const Rat& a) { return elem::abs(a); }
NOINSTR inline Rat sqrt(const Rat& a) { return elem::sqrt(a); }
}
