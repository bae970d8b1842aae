#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Sparse arithmetic is exact under every hash enumeration order",
 "For every sequence of operations on sparse multivectors over an exact coefficient type, and every order in which the hash-based storage happens to enumerate its coefficients (it is randomised per process, thread and value), each result has exactly the coefficients that the Clifford algebra of the declared signature defines for it. Equality, zero tests, dot products, magnitudes and the count of non-zero terms give the same answer under every such order. No term is lost, duplicated, or left behind as a stored zero when contributions arriving in some order cancel.",
 ["schedules", "inputs", "histories"],
 "all sequences of sparse operations, all signatures up to 63 generators, all enumeration orders the hash keys can induce",
 "The test run fixes the hash keys to one value; without that each run sees one arbitrary order. Tests sample a handful of products of sparse values.",
 ["src/coeff_storage.rs", "src/mv_sparse.rs", "src/lib.rs", "src/ops.rs", "src/algebra.rs"],
 [("read-modify-write accumulation into a keyed map", "lib.rs naive_mul_impl, naive_wedge_impl, naive_meet_impl"), ("zero values removed on store", "coeff_storage.rs SparseStorage::set_by_idx"), ("two-sided comparison", "coeff_storage.rs PartialEq for SparseStorage"), ("sign of a blade product", "algebra.rs ac_product_sign, blade_geo_product_sign")],
 [("coeffs", "hash map from blade index to coefficient, iterated in hash order", "coeff_storage.rs SparseStorage")],
 ["every public operation of SparseMultivector"])

prop("C02", "Dense, sparse and quaternion storage agree over every history",
 "For any history of construct, overwrite, filter, convert, add, subtract, negate, multiply, divide, wedge, meet, reverse, flip, dualise, power, scale and grade-extract steps started from equal values, every storage type holds after every step exactly the coefficients that a plain index-to-coefficient map following the algebra's definition would hold. Reading an index returns the last value written there, an index outside the algebra reads as zero and ignores writes, and converting between storage types changes nothing. An operation gives the same result whether its operands are passed by value or by reference.",
 ["histories", "inputs", "configurations"],
 "all finite histories of steps, over every declared signature and storage type, every hash enumeration order",
 "Tests run short fixed expressions in a few signatures, mostly on the dense type; none runs the same history on all storages, and none mixes algebras in one history.",
 ["src/lib.rs", "src/ops.rs", "src/coeff_storage.rs", "src/mv_dense.rs", "src/mv_sparse.rs", "src/quaternion.rs", "src/algebra.rs", "src/precomputed.rs"],
 [("one generic implementation over a storage trait", "lib.rs MultivectorBase"), ("three storage implementations", "coeff_storage.rs ArrayStorage, SparseStorage; quaternion.rs QStorage"), ("recursive wedge for 6 and more generators, table-driven signs up to 6", "mv_dense.rs wedge_impl; precomputed.rs")],
 [("array / coeffs / coeff", "the coefficient containers", "coeff_storage.rs, quaternion.rs")],
 ["get_by_idx, coeff_enumerate, ==, conversions after every step"])

prop("C03", "An interrupted operation leaves operands and later results intact",
 "If the caller's coefficient arithmetic, cloning, comparison, filter predicate or input iterator panics at any point inside a library call, every multivector that the call only borrowed still holds exactly its previous coefficients. Repeating the call, or making any other call afterwards on any value of any algebra, gives the same answer as if the interrupted call had never been made. An in-place filter that is interrupted keeps every coefficient its predicate had not rejected.",
 ["crash_points", "histories", "fault_sequences"],
 "every library call, every callback into caller code inside it as the interruption point, every later history",
 "No test interrupts a call. The library computes in place and restores (wedge, fast product), so a wrong ownership choice is invisible unless the call is cut short between the two.",
 ["src/mv_dense.rs", "src/lib.rs", "src/ops.rs", "src/mv_sparse.rs", "src/coeff_storage.rs", "src/complexification.rs", "src/fftrepr/wmul.rs"],
 [("work is done on clones, results are returned as new values", "mv_dense.rs wedge, meet; fftrepr/wmul.rs wmul"), ("no state outside the operands", "whole crate"), ("retain keeps unvisited entries on unwind", "mv_sparse.rs filter_inplace")],
 [("sc", "scratch copy of the left operand, negated in place and restored", "mv_dense.rs WedgeProduct")],
 ["operands and repeated calls after catch_unwind"])

prop("C04", "Coefficients are released exactly once, even when a call is interrupted",
 "Over any sequence of library calls, completed or cut short at any point by a panic in caller code, every coefficient value handed to or created by the library is dropped exactly once. No coefficient is read before it is initialised or after it has been dropped. When all multivectors and representations of a workload have been dropped, the memory it used has been given back, so repeating a workload does not grow the process.",
 ["crash_points", "histories", "fault_sequences"],
 "every library call, every interruption point, every sequence of calls",
 "All tests use plain numbers as coefficients, for which a leak, double release or read of an uninitialised slot is unobservable, and none interrupts a call.",
 ["src/algebra.rs", "src/coeff_storage.rs", "src/mv_dense.rs", "src/lib.rs", "src/ops.rs", "src/pga.rs"],
 [("array built element by element", "algebra.rs make_array"), ("owned containers everywhere else", "coeff_storage.rs")],
 [("ret", "partially initialised array of basis elements", "algebra.rs make_array")],
 ["instrumented coefficient type, allocation totals"])

prop("C05", "Printing to a failing sink reports the failure and leaves no gap",
 "When the destination of a formatted multivector or fast representation (plain, alternate, signed, scientific) fails, takes only part of the data or is interrupted at any write, the text it accepted is a prefix of the complete rendering, nothing is written after the first failure, and the failure is returned to the caller. When no write fails, the call succeeds and the complete rendering arrives: every non-zero coefficient exactly once with its blade label, or a single zero. A failed attempt changes nothing, so a later attempt delivers the complete rendering.",
 ["fault_sequences", "inputs", "schedules"],
 "every value, format, and position and kind of write failure; every hash enumeration order",
 "Tests print into strings, which never fail.",
 ["src/lib.rs", "src/fftrepr/mod.rs", "src/algebra.rs", "src/complexification.rs"],
 [("error propagation after each write", "lib.rs impl_formatting"), ("separator only between terms", "lib.rs impl_formatting, flag first")],
 [], ["fmt::Write / io::Write destination, return value"])

prop("C06", "Stream-fed constructors accept exactly the well-formed streams",
 "A multivector built from a caller's stream of coefficients, of index/coefficient pairs, or of PGA coordinates holds exactly what the stream delivered before its first end, a later pair overriding an earlier one at the same index, and PGA coordinates of ordinary magnitude, the origin included, can be read back from it and leave only finite coefficients. A coefficient stream that ends early or runs long, an index outside the algebra and an over-long PGA coordinate stream are rejected with an error, never turned into a wrong value. Nothing is pulled after a stream's end, and an endless coefficient or coordinate stream, or one with a bad index, is rejected after a bounded number of items.",
 ["fault_sequences", "inputs", "histories"],
 "every stream: length, early end, items after the end, panicking item, endless; every algebra and storage",
 "Tests feed well-formed arrays only.",
 ["src/lib.rs", "src/pga.rs", "src/quaternion.rs"],
 [("length and index checks while pulling", "lib.rs from_vector, from_indexed_iter"), ("delegation after collecting", "pga.rs pga_point, pga_hyperplane, pga_translation")],
 [], ["Result returned, number of items pulled, coefficients of the value built"])

prop("C07", "Concurrent callers sharing multivectors get the isolated answers",
 "When any number of threads make library calls at the same time on shared read-only and private multivectors of any algebras, every call returns exactly what it returns when it runs alone in a fresh process, under every interleaving. Shared operands are never observably modified, and every call finishes once its thread is allowed to run: none waits forever for another. Multivectors and fast representations can be shared between and sent to other threads whenever their coefficients can.",
 ["schedules", "histories"],
 "all interleavings at memory-access granularity of any set of calls in several threads, with any preemption points",
 "No test shares a value between threads; the test harness's own parallelism is uncontrolled and mixes no values.",
 ["src/lib.rs", "src/mv_dense.rs", "src/mv_sparse.rs", "src/coeff_storage.rs", "src/fftrepr/mod.rs", "src/fftrepr/wmul.rs", "src/clifft/mod.rs", "src/algebra.rs", "src/index_utils.rs"],
 [("no shared mutable state: only constants outside the operands", "precomputed.rs, whole crate"), ("shared operands are only read; scratch is private", "mv_dense.rs wedge; fftrepr/wmul.rs wmul")],
 [], ["result of every call compared with the isolated run"])

prop("C08", "The fast representation gives the direct result in any history",
 "Transforming multivectors to the fast representation, computing there (sum, difference, product, power, scaling, reversal, parity flip, inverse, trace, magnitude) and transforming back gives the coefficients that computing on the multivectors directly gives, exactly so whenever all values are exactly representable, and an invertible element of ordinary magnitude always has its inverse found. The inverse and the exponential, taken in the fast representation, agree with their definitions up to rounding. This holds at every point of a history that mixes algebras, threads and calls cut short by a panic in a coefficient conversion. Repeating a computation elsewhere in the history or on another thread gives bit-for-bit the same result.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "all histories and interleavings of transforms and computations in mixed algebras, with interrupted conversions",
 "Tests compare single products of random values in a few signatures, each in isolation, with loose tolerances.",
 ["src/fftrepr/mod.rs", "src/fftrepr/wmul.rs", "src/fftrepr/matrix.rs", "src/clifft/mod.rs", "src/complexification.rs", "src/mv_dense.rs"],
 [("recursive transform and inverse", "clifft/mod.rs"), ("null-axis product by in-place alpha and restore", "fftrepr/wmul.rs"), ("Gauss elimination with pivoting", "fftrepr/matrix.rs")],
 [("arr", "the representation array", "fftrepr/mod.rs")],
 ["coefficients after the inverse transform, bits of the representation"])

prop("C09", "Multivectors of multivectors compute correctly in every order",
 "Multivectors whose coefficients are themselves multivectors, in any combination of storage types, give the sums, products, wedges, reversals, duals, dot products and scalings obtained by applying the definition with the inner product taken in left-to-right operand order. This holds for every hash enumeration order at both levels. A panic in innermost arithmetic leaves the values at both levels unchanged and later results correct.",
 ["schedules", "inputs", "crash_points"],
 "all pairs of inner and outer algebras and storages, all enumeration orders at both levels, every interruption point",
 "Tests multiply one chain of nested basis units with one hash key.",
 ["src/lib.rs", "src/ops.rs", "src/types.rs", "src/coeff_storage.rs", "src/mv_dense.rs", "src/mv_sparse.rs"],
 [("reference arithmetic traits derived for any type, multivectors included", "types.rs"), ("operand order kept in every coefficient product", "lib.rs naive_*_impl, vdot, mag2; ops.rs")],
 [], ["coefficients of coefficients"])

prop("C10", "Enumerations are complete and duplicate-free however they are consumed",
 "Every enumeration of blade indices (all, or of one grade) or of a multivector's coefficients (all, or of one grade) yields each index due exactly once, with its current coefficient, and no other (an index whose coefficient is zero may be left out), whatever pauses, interleaved enumerations, size queries, skips or library calls happen between two steps. A grade larger than the number of generators yields nothing. Abandoning an enumeration at any point affects neither the multivector nor any other enumeration.",
 ["schedules", "inputs", "histories"],
 "all algebras, grades and values; all interleavings of steps of several live enumerations; all abandonment points",
 "One test drains the grade iterator to its end, alone, up to 15 generators; nothing stops, interleaves or skips.",
 ["src/index_utils.rs", "src/algebra.rs", "src/coeff_storage.rs", "src/lib.rs", "src/quaternion.rs"],
 [("recursive iterator state refreshed in place", "index_utils.rs GradeIter"), ("filtered storage iteration", "coeff_storage.rs coeff_enumerate, grade_enumerate")],
 [("pos, subiter", "suspended position of the grade iterator", "index_utils.rs GradeIter")],
 ["items yielded"])

prop("C11", "Hash order changes floating-point sparse results only by rounding",
 "For floating-point and complex coefficients, each sparse sum, product, wedge, meet, power, exponential, dot product, magnitude and normalised reversal agrees with the exact value to within rounding error proportional to the magnitude of the terms added up, under every hash enumeration order. So two processes that evaluate the same expression agree to that tolerance, and approximate equality between them holds for any larger precision. The exponential always finishes.",
 ["schedules", "inputs"],
 "all sparse floating-point expressions, every enumeration order",
 "The tests run under one fixed hash key; a result that depends on order beyond rounding passes or fails by luck.",
 ["src/lib.rs", "src/coeff_storage.rs", "src/mv_sparse.rs", "src/ops.rs"],
 [("every contribution is added once, whatever the order", "lib.rs naive_*_impl, vdot, mag2, exp"), ("comparison after subtraction", "lib.rs approx_eq")],
 [], ["coefficients of results under many hash keys"])

# Properties this family of technique does not decide here.
prop("C12", "Exponential and inverse are accurate on arbitrary floating inputs",
 "For every finite floating-point multivector the dense exponential, and for every well-conditioned one the inverse in the fast representation, is accurate to a small multiple of the rounding error of the problem.",
 ["inputs"], "all floating-point inputs",
 "Random inputs in [0,1) in one or two signatures, fixed tolerances.",
 ["src/lib.rs", "src/fftrepr/mod.rs", "src/fftrepr/matrix.rs"],
 [("scaled Taylor series and repeated squaring", "lib.rs exp"), ("partial pivoting", "fftrepr/matrix.rs")])
prop("C13", "PGA products have their geometric meaning",
 "In algebras of signature [+,...,+,0], meet of points is the joining line, wedge of hyperplanes is their intersection, and the translation built from a vector moves every point by that vector.",
 ["inputs"], "all points, hyperplanes and directions in every dimension", "One example in 2D and one in 3D.",
 ["src/pga.rs", "src/lib.rs"], [("dual representation of points", "pga.rs pga_point, pga_extract_point")])
prop("C14", "Multivectors of different algebras cannot be combined",
 "A program that adds, multiplies, compares or otherwise combines multivectors of two different algebras, or declares a signature with a null axis before a non-null one, or gives the wrong number of axis names, does not compile.",
 ["programs"], "all programs using the library", "The tests contain no program that must not compile.",
 ["src/algebra.rs", "src/lib.rs"], [("algebra as type parameter; macro checks", "algebra.rs declare_algebra")])
prop("C15", "Half-spin blocks of even elements form representations",
 "For every even element of a non-degenerate algebra the two half-spin matrices multiply as the elements do, and together carry all of the element's information.",
 ["inputs"], "all pairs of even elements, all non-degenerate signatures", "Two positive-definite signatures, one rotor each.",
 ["src/fftrepr/mod.rs"], [("rows and columns split by index parity", "fftrepr/mod.rs into_half_spin_repr")])
prop("C16", "Arrays of the wrong shape are rejected by the transforms",
 "Every array whose length is not a power of two, every matrix that is not square with power-of-two side, and every array not matching the algebra's representation shape is rejected with an error instead of a panic or a wrong value.",
 ["inputs"], "all array shapes", "Four shapes.",
 ["src/clifft/mod.rs", "src/fftrepr/mod.rs"], [("shape checks", "clifft/mod.rs cl_dim, iclifft_nn_into; fftrepr/mod.rs from_array3")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
