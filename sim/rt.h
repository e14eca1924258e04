// Interface between the instrumented code under test (ops_*.cpp, which include
// /repo's headers) and the simulator runtime (rt.cpp, compiled without
// instrumentation).
#pragma once
#include <cstddef>
#include <cstdint>
#include <iosfwd>
#include <new>
#include <stdexcept>

#define NOINSTR __attribute__((no_sanitize_thread, no_sanitize_coverage))

// ---- exact rationals, computed in the (uninstrumented) runtime ----
struct Q { int64_t n; int64_t d; };            // d > 0; d == 0: "not a rational" (overflow)
Q q_make(__int128 n, __int128 d);
Q q_add(Q a, Q b); Q q_sub(Q a, Q b); Q q_mul(Q a, Q b); Q q_div(Q a, Q b); Q q_neg(Q a);
Q q_from_double(double v);
Q q_sqrt(Q a);
int q_cmp(Q a, Q b);                           // total order; not-a-rational is least
double q_to_double(Q a);

struct InjectedFault { uint64_t id; };         // what a failing element operation throws (and the others below)
#define FAULT_CLASSES(X) \
  X(FaultOverflow, std::overflow_error, ("injected")) \
  X(FaultAlloc, std::bad_alloc, ()) \
  X(FaultRuntime, std::runtime_error, ("injected")) \
  X(FaultRange, std::range_error, ("injected")) \
  X(FaultUnderflow, std::underflow_error, ("injected")) \
  X(FaultLogic, std::logic_error, ("injected")) \
  X(FaultDomain, std::domain_error, ("injected")) \
  X(FaultOutOfRange, std::out_of_range, ("injected")) \
  X(FaultInvalid, std::invalid_argument, ("injected")) \
  X(FaultLength, std::length_error, ("injected")) \
  X(FaultStd, std::exception, ())
#define X(name, base, arg) struct name : base { uint64_t id; explicit name(uint64_t i) : base arg, id(i) {} };
FAULT_CLASSES(X)
#undef X
enum { FAULT_TYPES = 15 };                     // plain struct, an int, an unsigned long, a const char*, the classes above
extern const char fault_text[];
struct OtherError { uint64_t id; };            // an unrelated exception of the caller

// Element-operation seam: scheduling point, fault point. May throw InjectedFault.
void rt_elem_op(const char* what);
void rt_elem_born();
void rt_elem_dead();
void rt_elem_bad(const char* what);            // operation on a dead / never constructed element
void rt_elem_write(const void* p, size_t n);   // element assigned or constructed at p
void rt_elem_read(const void* p, size_t n);

// ---- operations ----
enum Type { T_F, T_D, T_I, T_U, T_C, T_R, T_X, T_L, T_S, T_B, T_NTYPES };   // float double int unsigned complex Rat long-double long short byte
inline bool t_int(Type t) { return t == T_I || t == T_U || t == T_L || t == T_S || t == T_B; }
inline bool t_uns(Type t) { return t == T_U || t == T_B; }
inline bool t_flt(Type t) { return t == T_F || t == T_D || t == T_X; }
enum { SC_SPECIAL = 1000, SC_N = 8 };          // scalar codes from SC_SPECIAL on: -0.0, NaN, infinities, denormal, tiny, huge (floating types only)
extern const char* const type_name[T_NTYPES];
struct Shape { uint16_t r, c; };

enum Flags : uint32_t {
  F_SCALAR = 1,      // p[0] is a scalar code
  F_IDX_R = 2,       // p[1], p[2] are row indices
  F_IDX_C = 4,       // p[1], p[2] are column indices
  F_IDX_RC = 8,      // p[1] row, p[2] column
  F_EXP = 16,        // p[1] exponent
  F_HEAP = 32,       // result needs dynamic memory
  F_PRINT = 64,
  F_INPLACE = 128,   // modifies operand 0
  F_DIV = 256,       // divides by a scalar
  F_INV = 512,       // needs a regular operand
  F_LU = 1024,       // needs non-zero leading minors
  F_CHOL = 2048,     // needs symmetric positive definite operand
  F_ORDER = 4096,    // orders elements (no NaN)
  F_EPS = 8192,      // p[1] is a tolerance code
  F_KERNEL = 16384,
};

enum { OUTCAP = 1 << 20 };

struct Call;                                    // one execution of one operation
struct OpInfo {
  const char* name; Type type; int nin; Shape in[2]; uint32_t flags;
  void (*fn)(Call&);
  double work;                                  // rough number of element operations
};
void rt_register(const OpInfo&);

struct Call {
  const OpInfo* op;
  void* in[2];
  int32_t p[3]; uint8_t cat;                    // cat: how operands are passed (0 constants, 1 variables, 2-4 temporaries)
  // result
  uint8_t* out; size_t len, cap, len1;          // len1: length of the first reading of a result that is kept
};
void* rt_temp(Call&, int i);                    // where a temporary operand of the caller lies
void rt_garbage(void*, size_t);                 // storage whose content is gone
void rt_put(Call&, const void*, size_t);
int rt_hold(Call&);                             // the result is kept while other calls are made; 0: not kept, else flags (2: overwrite it afterwards)
void rt_after(Call&);                           // the result has been overwritten by its owner

// marks the extent of code under test
struct LibScope {
  LibScope(); ~LibScope();
};

enum Kind : uint8_t {
  K_SMALL, K_FRAC, K_ZROW, K_ZCOL, K_DUPROW, K_IDENT, K_SPD, K_DOM, K_SPECIAL, K_ZERO, K_SPARSE, K_FEW, K_SYM, K_ONESV, K_LMINOR, K_TINY, K_HUGE, K_DOMTINY, K_DOMHUGE, K_INFS, K_BIG, K_DIAG, K_PERM, K_SORTED, K_SIGN, K_MAGIC, K_ROUGH, K_NKINDS
};
extern const char* const kind_name[K_NKINDS];

// per-type services, registered by the instrumented translation units
struct TypeOps {
  size_t size;
  void (*construct)(void* dst, const Q* vals, const double* raw, int count); // raw used when non-null (special values)
  void (*destroy)(void* dst, int count);
  void (*assign)(void* dst, const Q* vals, int count);
  void (*serialize)(const void* src, int count, uint8_t* out);               // 32 bytes per element
  void (*format)(const void* src, int r, int c, std::ostream&);              // what printing should write
};
extern TypeOps type_ops[T_NTYPES];
extern bool type_present[T_NTYPES];
