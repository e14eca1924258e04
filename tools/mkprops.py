#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
M = "matrix/"
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = state
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)
ALL = [M + "matrix_%s.hpp" % x for x in "abs cholesky concatenate conv2 det div eye fill histogram inv lu mean median mult ones pow stddev strassen sub sum swap trans utils var zeros".split()]

p("C01", "Calls made at the same time from several threads do not interfere",
  "Any number of threads may call any operations at the same time on operands that nobody is modifying, whether the threads share the operands or not. Under every interleaving each call completes with exactly the result (or reported error) the operation defines for its operands, the one it gives in a program that makes no other call. No two such calls make conflicting unsynchronised accesses to memory.",
  ["schedules", "inputs"], "every number of caller threads, every assignment of operations to them, every interleaving at the granularity of single memory accesses, every operand",
  "The 54 tests are single-threaded; no interleaving of two calls is ever executed, and a hidden shared scratch value is invisible to them.",
  ALL, [("all intermediate state lives in locals and by-value results; no namespace-scope or static data", "every function in matrix/")],
  ["return values of concurrent calls", "memory accesses made by the calls"])
p("C02", "The outcome of a call depends only on its arguments",
  "Whatever calls the process made before - of any operation, type and size, any number of times, on the same storage with other contents, and whether they succeeded or failed - and whether or not its operands are one and the same object, a call gives exactly the outcome it gives as the first call of a fresh process. Stale stack or heap contents, the clock, the environment and the thread and processor it runs on do not matter either, and no call leaves a changed rounding mode behind.",
  ["histories", "fault_sequences", "inputs"], "every sequence of earlier calls and failures (failed allocations, throwing element operations, arithmetic errors), every content of uninitialised memory, every clock reading",
  "Each test makes a handful of calls in a new process with fixed inputs; no test calls the same operation again on changed storage, after a failure, or hundreds of times.",
  ALL, [("no persistent state; every accumulator and result is initialised before use", "every function in matrix/")],
  ["return values and exceptions along a call history", "floating-point rounding mode"])
p("C03", "Operands are never written, not even for a moment",
  "No operation other than the row and column swaps ever writes to an operand. At every instant during a call, and after it has returned or failed at any point, anyone reading an operand sees exactly the values the caller put there.",
  ["schedules", "fault_sequences", "inputs"], "every operation, operand and instant within a call, every point at which the call may fail",
  "Tests look at results, a few of them at operands after the call; a value changed and restored, or changed only when the call fails midway, cannot be seen from a single-threaded test.",
  ALL, [("operands are taken by const reference or copied by value before elimination", "matrix_det.hpp det(), matrix_inv.hpp inv(), matrix_pow.hpp pow()")],
  ["operand storage, at every memory access and after every call"])
p("C04", "An exception thrown by an element operation passes through cleanly",
  "If an operation of a user-supplied element type (construction, copy, arithmetic, comparison, conversion) throws at any point of a call, exactly that exception reaches the caller and the process is not terminated. Every element object and all memory the call had created are released exactly once, the operands keep their values, and repeating the call without the failure gives the right result. Whether or not anything fails, elements are created, copied and destroyed only by their own operations, each object once, and never used before or after its lifetime.",
  ["fault_sequences", "crash_points", "inputs"], "every operation on a matrix of a throwing element type, every element operation within it as the point of failure, repeated failures and retries",
  "All tests use built-in element types, whose operations cannot throw; the failure points are thousands per call.",
  ALL, [("value semantics and RAII containers only; nothing is declared noexcept, nothing owns raw storage", "every function in matrix/")],
  ["exception seen by the caller", "balance of live element objects and heap blocks", "operand storage"])
p("C05", "Everything but the histograms works without dynamic memory",
  "Apart from the two histograms, whose result is a std::map, no operation on built-in or non-allocating element types requests dynamic memory to compute its result. Every such call therefore succeeds with its normal result while the heap is exhausted, and an erroneous one (division by zero, singular matrix) still fails with an exception.",
  ["fault_sequences", "inputs"], "every operation, element type, size and operand; every pattern of failing allocations, including total exhaustion",
  "No test counts or fails an allocation; an allocation on a rarely taken path (large size, unusual value) changes no tested result.",
  [f for f in ALL if "histogram" not in f] + ["README.md", M + "matrix_print.hpp"], [("std::array storage of compile-time size, by-value results", "matrix_type.hpp Matrix")],
  ["allocation requests made during a call", "result of a call while allocations fail"])
p("C06", "Histograms fail cleanly when memory runs out, and succeed on retry",
  "If any memory request made by the plain or cumulative histogram fails, the call throws std::bad_alloc: it never returns a partial or wrong map and never terminates the process. Everything it had allocated is released exactly once, the operand is unchanged, and the same call succeeds with the complete map once memory is available.",
  ["fault_sequences", "inputs"], "every matrix, every allocation within the call as the one that fails, single failures, repeated failures and lasting exhaustion, any number of concurrent callers",
  "The histogram test runs one 3x3 matrix with a heap that never fails; the cumulative histogram has no test.",
  [M + "matrix_histogram.hpp"], [("std::map as the only owner of nodes", "matrix_histogram.hpp histogram(), cumulative_histogram()")],
  ["exception or map seen by the caller", "heap balance after the call"])
p("C07", "Division by zero and singularity reach their caller as an error",
  "Dividing a matrix by zero, inverting a singular matrix of any size, raising one to a negative power, or LU-decomposing a matrix that meets a zero pivot throws std::overflow_error to the caller of that call, and no other call reports an error. This also holds when the call is made while another exception is being handled or unwound, and while other threads compute: that exception, the other calls and the process are unaffected, and the caller can carry on. (With floating-point elements, singular means that the determinant comes out as exactly zero; rounding may hide singularity.)",
  ["inputs", "histories", "schedules", "fault_sequences"], "every singular or regular operand and size, every context of the call (plain, inside a handler, during unwinding, nested), every interleaving with other callers",
  "No test divides by zero or inverts a singular matrix, none calls the library from a handler.",
  [M + "matrix_div.hpp", M + "matrix_inv.hpp", M + "matrix_pow.hpp", M + "matrix_lu.hpp", M + "matrix_det.hpp"],
  [("zero test before dividing, throw std::overflow_error", "matrix_div.hpp div(), matrix_inv.hpp inv(), matrix_lu.hpp lu()"), ("determinant decides singularity", "matrix_det.hpp det()")],
  ["exception seen by the caller", "current exception of the calling context"])
p("C08", "Printing delivers the whole text, or a prefix of it if the output fails",
  "Printing a matrix writes to standard output every element in row-major order, each followed by one space, and ends and flushes every row with a newline; the matrix and the stream's formatting settings stay as they were. If a write or flush fails or the process dies at any point, what reached the output is a prefix of that text and includes every row completed before; printing returns normally, except that it throws if the caller enabled stream exceptions, and once the stream has recovered the next matrix is printed completely. When several threads print, each one's own text is delivered completely and in order.",
  ["fault_sequences", "crash_points", "schedules", "inputs"], "every matrix, every write or flush as the point of failure (short write, error, exception, death of the process), stream exception masks and format settings, every interleaving of printing threads",
  "No test prints anything; the output stream never fails in the tests.",
  [M + "matrix_print.hpp"], [("element and separator inserted in order, std::endl after each row", "matrix_print.hpp print(), print_num(), print_endl()")],
  ["bytes accepted and flushed by the buffer behind std::cout", "stream state"])
p("C09", "Row and column swaps touch only the two rows or columns they name",
  "Swapping two rows (columns) exchanges them element by element and reads or writes no other row (column) of the matrix, so threads may at the same time swap, write or read other rows (columns) of the same matrix and every interleaving gives the result of doing the swaps one after another. Naming the same row (column) twice changes nothing. If an element operation throws partway, the exception reaches the caller, all other rows (columns) are untouched and of the two named ones at most the pair of elements being exchanged is affected.",
  ["schedules", "fault_sequences", "inputs"], "every matrix shape, every pair of indices, every interleaving of threads working on disjoint rows or columns, every element operation as point of failure",
  "The swap tests are single-threaded, compare the final matrix only, and use elements that cannot throw.",
  [M + "matrix_swap.hpp"], [("element-wise std::swap of the two rows or columns in place", "matrix_swap.hpp swap_rows(), swap_cols()")],
  ["matrix contents after and memory accesses during concurrent swaps"])
p("C10", "Every call finishes by itself, whatever other callers do or fail to do",
  "Every call returns or throws after a number of steps bounded by the matrix dimensions (and the magnitude of the exponent, for powers), for all operand values including NaN, infinities and singular matrices, whatever fails during it (a memory request, an element operation, the output), even for good, and whatever calls failed before it. It never waits for another caller: if any other threads are suspended for ever, or die, in the middle of their calls, it completes all the same with its normal outcome.",
  ["schedules", "fault_sequences", "crash_points", "inputs"], "every operation and operand, every set of stalled or dead callers and every point at which they stop, every earlier failure",
  "Tests never stop a call midway or run another beside it; special values that could make a pivot search or a power recursion run away are not among their inputs.",
  ALL, [("loops bounded by template dimensions; no locks, no retries", "every function in matrix/"), ("pivot search bounded by n", "matrix_det.hpp det()"), ("halving recursion", "matrix_pow.hpp pow()")],
  ["step count of each call", "completion of calls while other callers are stopped"])
p("C11", "A call can be interrupted at any point to make another call",
  "If a call is suspended at any point outside the memory allocator and, before it resumes, the same thread runs other complete calls - from a signal handler, a coroutine, or an element type whose own arithmetic uses the library - the interrupted and the interrupting calls, nested to any depth, each give the outcome they give alone.",
  ["schedules", "inputs"], "every pair (or deeper nesting) of operations, operands and every point of interruption",
  "No test runs a call inside another call.",
  ALL, [("no static or per-thread scratch storage; all state is in the activation record", "every function in matrix/")],
  ["results of interrupted and interrupting calls"])

p("C12", "A returned result belongs to its caller alone",
  "Once a call has returned, its result does not change by itself, however the caller keeps it (in a variable or bound to a reference): no later or concurrent call of any thread and no later modification or destruction of the operands alters it. Conversely, whatever the caller does to a result affects no operand and no other call's outcome.",
  ["histories", "schedules", "fault_sequences", "inputs"], "every operation and operand, every later sequence of calls on any thread (failing ones included), every later use of the operands and of the result itself",
  "Tests compare each result with a constant at once and never look at it again after another call, after the operands are gone or after it was overwritten.",
  ALL, [("results are returned by value", "every function in matrix/")],
  ["a kept result, read again after other calls", "outcomes of calls made after a result was overwritten"])

# --- pure functions of their input: stated, not claimed (see MANIFEST.not_applicable)
pure = "The tests check a few fixed matrices per operation; the property ranges over all values, shapes and element types."
p("F01", "Matrix arithmetic obeys its defining formulas",
  "Sum, difference, product, Strassen product, scalar variants, division by a non-zero scalar and absolute value equal their entry-wise or row-by-column definitions for every operand, and operator and function forms agree.",
  ["inputs"], "all operands, shapes and element types", pure, [M + "matrix_%s.hpp" % x for x in "sum sub mult strassen div abs".split()], [("entry-wise loops", "matrix_sum.hpp, matrix_sub.hpp, matrix_mult.hpp, matrix_div.hpp, matrix_abs.hpp, matrix_strassen.hpp")])
p("F02", "The determinant is the alternating multilinear form of the rows",
  "The determinant equals the Leibniz sum in exact arithmetic, changes sign when two rows are swapped, and is zero exactly for singular matrices.",
  ["inputs"], "all square operands", pure, [M + "matrix_det.hpp"], [("closed forms for n<=3, elimination with row swaps above", "matrix_det.hpp det()")])
p("F03", "Inverse and powers are consistent with multiplication",
  "For a regular matrix the product with its inverse is the identity (exactly in exact arithmetic), and powers satisfy A^0=I, A^(p+q)=A^p A^q and A^-p=(A^-1)^p.",
  ["inputs"], "all regular square operands, all exponents", pure, [M + "matrix_inv.hpp", M + "matrix_pow.hpp"], [("adjugate divided by determinant; repeated squaring", "matrix_inv.hpp inv(), matrix_pow.hpp pow()")])
p("F04", "LU and Cholesky factors multiply back to the matrix",
  "LU gives a unit lower and an upper triangular factor whose product is the operand; Cholesky of a symmetric positive definite operand gives a lower triangular factor with A = L L^T.",
  ["inputs"], "all operands with non-zero leading minors; all symmetric positive definite operands", pure, [M + "matrix_lu.hpp", M + "matrix_cholesky.hpp"], [("Crout/Doolittle and Cholesky recurrences", "matrix_lu.hpp lu(), matrix_cholesky.hpp chol()")])
p("F05", "Transposition, concatenation and minors only move elements",
  "Transposition, the concatenations and minor extraction place every selected element at its defined position and change no value; double transposition is the identity.",
  ["inputs"], "all operands and shapes", pure, [M + "matrix_trans.hpp", M + "matrix_concatenate.hpp", M + "matrix_inv.hpp"], [("index-mapped copies", "matrix_trans.hpp, matrix_concatenate.hpp, matrix_inv.hpp getminor()")])
p("F06", "Convolutions agree with each other and with the 3x3 stencil",
  "The same-size convolution is the zero-padded 3x3 stencil sum at each element, the full one extends it by one ring and the valid one is its interior; all three are linear in operand and kernel.",
  ["inputs"], "all operands, kernels and shapes", pure, [M + "matrix_conv2.hpp"], [("range-checked stencil", "matrix_conv2.hpp conv2(), conv2_full(), conv2_valid()")])
p("F07", "Statistics and histograms describe the multiset of elements",
  "Mean, median, variance, standard deviation, histogram and cumulative histogram equal their definitions on the multiset of elements and are invariant under permuting the elements.",
  ["inputs"], "all operands and shapes", pure, [M + "matrix_%s.hpp" % x for x in "mean median var stddev histogram".split()], [("accumulation, sorting, counting", "matrix_mean.hpp, matrix_median.hpp, matrix_var.hpp, matrix_stddev.hpp, matrix_histogram.hpp")])
p("F08", "Comparison and classification predicates are exact",
  "Comparison with a tolerance is true exactly if no pair of elements differs by more than it; the symmetry and identity predicates hold exactly for symmetric and identity matrices.",
  ["inputs"], "all operands and tolerances", pure, [M + "matrix_utils.hpp", M + "matrix_cholesky.hpp"], [("element loops with early exit", "matrix_utils.hpp compare(), isIdentity(); matrix_cholesky.hpp isSymetric()")])
p("F09", "Constructors fill every element",
  "zeros, ones, fill and eye give a matrix of the requested type and shape with every element set as specified.",
  ["inputs", "configurations"], "all element types, shapes and fill values", pure, [M + "matrix_%s.hpp" % x for x in "zeros ones fill eye".split()], [("std::array::fill per row", "matrix_fill.hpp fill()")])
p("F10", "Illegal shapes are rejected at compile time",
  "Combining matrices whose shapes do not fit (sum, product, comparison, concatenation, inverse of a non-square matrix) does not compile, and every legal combination does.",
  ["programs"], "all client programs", "Tests contain only programs that compile.", [M + "matrix_type.hpp"] + [M + "matrix_mult.hpp"], [("dimensions are template parameters", "matrix_type.hpp Matrix")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
