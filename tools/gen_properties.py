#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})


prop("C01", "GEMM accumulators are the exact integer product",
     "For every matrix size, storage order, stride, pointer alignment, operand value within the declared operand range "
     "and input offset (one number or one per row/column), each entry of the product delivered to the output pipeline is "
     "exactly the sum over depth of (lhs entry + its offset) * (rhs entry + its offset), whenever that sum fits in 32 bits. "
     "This holds on every CPU back end and for every declared operand range; a product with a zero dimension returns "
     "without touching the result.",
     ["inputs", "configurations"],
     "all shapes, strides, orders, operand values, offsets, operand ranges and CPU back ends (portable, SSE4, AVX2, NEON "
     "32/64, NEON dot-product)",
     "The tests sample a few hundred shapes with unstructured random data, and on ARM the exhaustive part is skipped; the "
     "per-row/per-column offset form, depths near the accumulator limit, odd strides and misaligned pointers are hardly "
     "sampled.",
     ["public/gemmlowp.h", "internal/dispatch_gemm_shape.h", "internal/single_thread_gemm.h", "internal/multi_thread_gemm.h",
      "internal/pack.h", "internal/pack_sse.h", "internal/pack_avx.h", "internal/pack_neon.h", "internal/compute.h",
      "internal/unpack.h", "internal/kernel_default.h", "internal/kernel_reference.h", "internal/kernel_sse.h",
      "internal/kernel_avx.h", "internal/kernel_neon.h", "internal/block_params.h"],
     [("packing with per-slice sums and zero-extension of partial blocks", "internal/pack.h"),
      ("kernels accumulate over depth blocks", "internal/compute.h"),
      ("offset correction from the slice sums", "internal/unpack.h UnpackResultBlock"),
      ("transposition when rows < cols", "internal/dispatch_gemm_shape.h")],
     ["result matrix of the public GEMM entry points with an empty output pipeline"])

prop("C02", "Output stages apply exactly their documented arithmetic to every entry",
     "Each output stage (scaling down with offset/multiplier/shift, fixed-point scaling with right or left shift, the "
     "per-row/per-column variants, bias addition, clamping, saturating or truncating casts, tanh) and every composition of "
     "them maps each accumulator to the value its documentation defines, rounding to nearest and saturating where documented. "
     "Parameters given per row or per column are always those of that entry's own row or column, whatever its position, the "
     "result's storage order or the matrix shape, and every back end that offers a stage gives the same answer.",
     ["inputs", "configurations"],
     "all accumulator values and stage parameters for which the documented expression does not overflow, all entry positions, "
     "stage compositions, result orders and back ends",
     "The tests run each stage on one or two parameter sets, never run the per-channel fixed-point stage, and compare several "
     "stages only loosely; entries land in seven differently coded register-block shapes that few sampled shapes reach.",
     ["public/output_stages.h", "internal/output.h", "internal/output_sse.h", "internal/output_neon.h",
      "internal/simd_wrappers.h", "internal/simd_wrappers_common_neon_sse.h", "internal/simd_wrappers_neon.h",
      "internal/simd_wrappers_sse.h", "internal/unpack.h", "internal/dispatch_gemm_shape.h"],
     [("stage evaluators per register block", "internal/output.h, output_sse.h, output_neon.h"),
      ("broadcasting of per-row/column vectors", "internal/simd_wrappers*.h"),
      ("global row/column passed to the stages", "internal/unpack.h"),
      ("stages transposed along with the product", "internal/dispatch_gemm_shape.h TransposeTuple")],
     ["result matrix of the public GEMM entry points with non-empty output pipelines"])

prop("C03", "Results do not depend on threads, cache tuning or context history",
     "For the same operands, offsets and output pipeline, the result is bit-identical whatever the maximum thread count, the "
     "cache-size tuning, the sequence of products previously run on the same context (larger, smaller, different types), the "
     "stale contents of scratch memory and the scheduling of the worker threads. Running the same product again gives the "
     "same bits.",
     ["schedules", "histories", "configurations"],
     "all thread limits, cache tunings, context histories, scratch contents and schedules",
     "The tests compare one context against a reference with few thread counts and default tuning; none poisons scratch "
     "memory, varies history or compares executions with each other.",
     ["internal/multi_thread_gemm.h", "internal/single_thread_gemm.h", "internal/block_params.h", "internal/allocator.h",
      "internal/pack.h", "internal/compute.h", "internal/unpack.h"],
     [("row ranges per task rounded to the kernel height", "internal/multi_thread_gemm.h MultiThreadGemm"),
      ("block sizes from cache sizes", "internal/block_params.h"),
      ("scratch initialised before use (sums cleared, first depth block overwrites)", "internal/pack.h, kernels")],
     ["result matrices of repeated runs on differently tuned, used and scheduled contexts"],
     hook="link-time wrapper of the aligned allocation call poisons scratch memory; no change to the sources")

prop("C04", "Only the caller's matrix entries are read, and only result entries written",
     "A matrix product never reads outside the elements of the operand matrices and parameter vectors it was given, never "
     "modifies them, writes no byte outside the rows x cols entries of the result (stride padding included), and stays inside "
     "its own scratch memory. It performs no undefined operation (out-of-range shift, signed overflow on in-range data, "
     "misaligned or uninitialised access) along the way.",
     ["inputs", "configurations"],
     "all shapes, strides, storage orders, alignments, stages, thread counts, cache tunings and CPU back ends, including the "
     "hand-written assembly kernels",
     "The tests allocate ordinary vectors, check only the values of the entries and are not run under any memory checker; "
     "overreads and padding writes are invisible to them.",
     ["internal/pack.h", "internal/pack_sse.h", "internal/pack_avx.h", "internal/pack_neon.h", "internal/unpack.h",
      "internal/output_sse.h", "internal/output_neon.h", "internal/simd_wrappers_common_neon_sse.h", "internal/kernel_sse.h",
      "internal/kernel_avx.h", "internal/kernel_neon.h", "internal/allocator.h"],
     [("partial blocks copied to a local buffer before packing", "internal/pack.h MakeCompleteSrc"),
      ("scratch sized from rounded-up block sizes", "internal/block_params.h, internal/pack.h"),
      ("ragged edges unpacked by smaller register blocks", "internal/unpack.h")],
     ["inaccessible pages placed against the operands, result, vectors and scratch memory; canaries; ASan, UBSan, MSan, memcheck"],
     hook="link-time wrapper of the aligned allocation call; no change to the sources")

prop("C05", "Products on separate contexts run concurrently without races",
     "Any number of application threads may run products at the same time on contexts of their own, sharing read-only "
     "operands, and a context may be handed from one thread to another between products. No data race occurs on any "
     "interleaving, inside or between the calls, and every caller gets exactly the result it would get alone.",
     ["schedules"],
     "all interleavings of concurrent products on distinct contexts, with single- and multi-threaded contexts, and of the "
     "workers inside one product",
     "The tests issue one product at a time from one thread and use no race detector.",
     ["internal/multi_thread_gemm.h", "internal/single_thread_gemm.h", "internal/allocator.h", "internal/platform.h",
      "internal/pack.h", "public/gemmlowp.h"],
     [("all mutable state lives in the context, the task or the worker", "internal/multi_thread_gemm.h"),
      ("state handover under the worker mutex and the completion counter", "internal/multi_thread_gemm.h Worker, BlockingCounter"),
      ("each task uses its worker's own scratch", "internal/multi_thread_gemm.h Task::local_allocator")],
     ["ThreadSanitizer reports; results of concurrent callers against a reference"],
     hook="delays injected by wrapping the pthread calls at compile time; no change to the sources")

prop("C06", "Worker pool runs every task exactly once and returns only when all are done",
     "Every batch of tasks submitted to a worker pool is run with each task executed exactly once, each with scratch storage "
     "no other running task uses, and the call returns only after all of them have finished, with their effects visible to "
     "the caller. This holds for any sequence of batch sizes (growing, shrinking, one), task durations, scheduling and "
     "spurious wake-ups, with either submission form, and destroying the pool ends all its threads without losing or "
     "repeating work.",
     ["schedules", "histories"],
     "all histories of batches on a pool and all schedules of its workers",
     "The pool is only exercised indirectly through GEMM tests under benign scheduling.",
     ["internal/multi_thread_gemm.h"],
     [("worker state machine under a mutex", "internal/multi_thread_gemm.h Worker::ChangeState"),
      ("completion counter", "internal/multi_thread_gemm.h BlockingCounter"),
      ("worker creation waits for readiness", "internal/multi_thread_gemm.h CreateWorkers")],
     ["event log of task start/finish, submit/return per batch"],
     state=[("worker state", "startup, ready, has work, exiting", "Worker::state_")],
     hook="delays and spurious wake-ups injected by wrapping pthread calls at compile time")

prop("C07", "Counter and wait primitives never miss, invent or reorder a signal",
     "A wait on a completion counter returns if and only if exactly the announced number of decrements has happened, exactly "
     "one decrement reports reaching zero, and everything done before a decrement is visible after the wait. Waiting for a "
     "variable to change returns a value different from the initial one that the variable really took, never sleeps through a "
     "change that was signalled, and tolerates spurious wake-ups, whether the change comes before, during or after the "
     "busy-wait phase.",
     ["schedules"],
     "all numbers of threads, reset counts, reuse sequences and interleavings of decrements, changes and waits",
     "The existing test counts down once per thread count under benign scheduling and checks no memory visibility.",
     ["internal/multi_thread_gemm.h"],
     [("atomic counter with acquire/release", "internal/multi_thread_gemm.h BlockingCounter"),
      ("busy wait then condition variable with re-check loop", "internal/multi_thread_gemm.h WaitForVariableChange")],
     ["recorded decrement/wait and change/wait histories; ThreadSanitizer"],
     hook="delays and spurious wake-ups injected by wrapping pthread calls at compile time")

prop("C08", "Scratch allocator blocks are aligned, disjoint, big enough and stable",
     "For every sequence of reservations, commits and releases, each block obtained from the scratch allocator starts on a "
     "64-byte boundary, spans at least the requested number of elements inside memory owned by the allocator, overlaps no other "
     "block of the same round, and keeps its address and contents until the round is released. Storage is reused when large "
     "enough, grows when needed, and is all returned on destruction.",
     ["histories", "inputs"],
     "all sequences of rounds with up to five blocks of any element type and any size, zero included",
     "The unit test runs two fixed rounds and checks neither overlap, alignment nor contents.",
     ["internal/allocator.h", "internal/common.h", "internal/platform.h"],
     [("offset accumulation with rounding to the alignment", "internal/allocator.h Reserve"),
      ("grow-only power-of-two storage", "internal/allocator.h Commit"),
      ("handles carry index, round and type", "internal/allocator.h GetPointer")],
     ["block addresses, contents and underlying allocation extents over random histories"],
     hook="link-time wrapper of the aligned allocation call; no change to the sources")

prop("C09", "Legacy 8-bit entry points compute the documented product for all callers",
     "The legacy 8-bit and float-output entry points compute, for every combination of the three transpose flags, size, leading "
     "dimension, offset, multiplier and shift, the same result as the documented formula on the matrices those flags describe, "
     "writing nothing else. They may be called from several threads at once, interleaved with changing the thread limit or "
     "freeing the persistent resources, and every caller still gets its own correct result.",
     ["inputs", "schedules", "histories"],
     "all argument combinations and all interleavings of concurrent callers with the two administrative calls",
     "The tests call the uint8 entry point from one thread, with few leading dimensions, and the float one on small sizes only.",
     ["eight_bit_int_gemm/eight_bit_int_gemm.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"],
     [("global context under a global lock", "eight_bit_int_gemm/eight_bit_int_gemm.cc GlobalLock"),
      ("transpose flags mapped to storage orders", "eight_bit_int_gemm/eight_bit_int_gemm.cc")],
     ["result buffers of the legacy entry points; ThreadSanitizer and AddressSanitizer reports"])

prop("C10", "Scalar fixed-point primitives round and saturate exactly",
     "The scalar fixed-point operations (rounding half sum, saturating add and subtract, saturating rounding doubling high "
     "multiply, rounding division and saturating multiplication by powers of two, rescaling between formats, conversion to and "
     "from real numbers, comparisons and selection) return the exactly rounded, saturated value of the mathematical result for "
     "every operand of their 16- and 32-bit types.",
     ["inputs"],
     "all operand values (16-bit operands exhaustively where feasible), exponents and fixed-point formats",
     "The tests cover a fixed set of interesting values with the same helper functions on both sides.",
     ["fixedpoint/fixedpoint.h"],
     [("widening arithmetic with explicit nudge", "fixedpoint/fixedpoint.h")],
     ["return values of the scalar primitives against arbitrary-precision expectations; UBSan"])

prop("C11", "Vector fixed-point operations equal the scalar operation in every lane",
     "On every SIMD back end, each fixed-point primitive and each of exp, tanh and logistic applied to a vector yields in every "
     "lane exactly the result the scalar version yields on that lane's operands, independently of what the other lanes hold. "
     "Whole-vector predicates (all lanes, any lane) answer according to all lanes.",
     ["inputs", "configurations"],
     "all lane values and combinations, all back ends (SSE4, AVX2, NEON 32/64), 16- and 32-bit lanes",
     "The tests put the same kind of value pattern in lanes over a fixed value list and do not pass at all for AVX2.",
     ["fixedpoint/fixedpoint.h", "fixedpoint/fixedpoint_sse.h", "fixedpoint/fixedpoint_avx.h", "fixedpoint/fixedpoint_neon.h"],
     [("per-type specialisations of the primitives", "fixedpoint/fixedpoint_*.h")],
     ["lane values of vector primitives against the scalar ones"])

prop("C12", "Fixed-point exp, tanh and logistic stay within their accuracy and range",
     "For every representable input and every number of integer bits, the fixed-point exponential of non-positive values, the "
     "hyperbolic tangent, the logistic function and 1/(1+x), (1-x)/(1+x) on [0,1] return a value within a small fixed error of "
     "the real function, inside the function's mathematical range, saturating (never wrapping) for extreme inputs.",
     ["inputs"],
     "all inputs of the 16- and 32-bit scalar types and all supported integer-bit counts",
     "The tests check a short list of inputs per format against a loose tolerance.",
     ["fixedpoint/fixedpoint.h"],
     [("barrel-shifter exponential with Taylor core", "fixedpoint/fixedpoint.h exp_on_negative_values"),
      ("Newton-Raphson reciprocal", "fixedpoint/fixedpoint.h one_over_one_plus_x_for_x_in_0_1"),
      ("sign and zero masks", "fixedpoint/fixedpoint.h tanh, logistic")],
     ["return values against double-precision functions"])

prop("C13", "ARM meta kernels compute the exact product for every shape and thread count",
     "The ARM-only meta GEMM and matrix-vector routines (quantized 8-bit, float and int32 outputs, single- and "
     "multi-threaded) produce for every supported shape, leading dimension, offset and scale the documented result, identical "
     "for every thread count, without writing outside the result. Programs that enable the meta fast path in the legacy "
     "8-bit entry points get the results the standard path gives.",
     ["inputs", "configurations", "schedules"],
     "all shapes and parameters within the supported range, on 32- and 64-bit ARM, any thread count",
     "The meta correctness test is skipped or crashes on the 32-bit build and samples few shapes; the fast path is never "
     "compiled by the tests.",
     ["meta/legacy_multi_thread_gemm.h", "meta/legacy_multi_thread_gemv.h", "meta/legacy_single_thread_gemm.h",
      "meta/single_thread_gemm.h", "meta/multi_thread_gemm.h", "meta/multi_thread_common.h", "meta/quantized_mul_kernels_arm_64.h",
      "meta/quantized_mul_kernels_arm_32.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"],
     [("packing streams and 1..3 x 1..8 kernels", "meta/streams_arm_*.h, meta/quantized_mul_kernels_arm_*.h"),
      ("task splitting", "meta/multi_thread_common.h, meta/legacy_multi_thread_common.h")],
     ["result buffers of the meta entry points under qemu-user"])

prop("C14", "ARM meta streams and transforms match their reference for every length",
     "The ARM-only packing streams lay out every row/column block with the documented interleaving, zero padding and "
     "aggregated sums, and the one-dimensional transforms (requantize, quantize, dequantize, minimum/maximum, biased add) "
     "produce for every length and parameter the value of their defining formula, reading and writing only their buffers.",
     ["inputs", "configurations"],
     "all lengths, strides, leftovers and parameters, on 32- and 64-bit ARM",
     "The stream test crashes on the 32-bit build and the transform test fails on the 64-bit one; both sample few lengths.",
     ["meta/streams.h", "meta/streams_arm_64.h", "meta/streams_arm_32.h", "meta/transform_kernels.h",
      "meta/transform_kernels_arm_64.h", "meta/transform_kernels_arm_32.h", "meta/single_thread_transform.h",
      "meta/multi_thread_transform.h"],
     [("generated per-leftover assembly", "meta/streams_arm_*.h, meta/transform_kernels_arm_*.h")],
     ["output buffers against scalar reference code under qemu-user, with inaccessible pages around buffers"])

prop("C15", "Profiling observes without disturbing and accounts consistently",
     "Compiling in and running the profiler changes no result; threads may start, finish and open or close nested labels at any "
     "moment while it samples, without races, use of freed memory or crashes. The reported tree only contains label stacks "
     "that really occurred, each child's samples add up to no more than its parent's, and label scopes always unwind to "
     "where they started.",
     ["schedules", "histories"],
     "all interleavings of sampling with thread start/exit and label nesting, and any number of threads over time",
     "The profiler is never enabled in the tests.",
     ["profiling/instrumentation.h", "profiling/profiler.h"],
     [("per-thread label stacks with a lock", "profiling/instrumentation.h ProfilingStack"),
      ("registry of threads, thread-exit callback", "profiling/instrumentation.h ThreadInfo"),
      ("sampling thread", "profiling/profiler.h")],
     ["sanitizer reports and the printed tree for scripted label histories"])

prop("C16", "Every kernel format computes the same product",
     "The GEMM machinery accepts any kernel whose operand cell layout (cell width, depth, number of cells per side, storage "
     "order inside a cell, signed or unsigned operands) follows the documented kernel-format contract, and the product it "
     "delivers is the exact one whatever that layout is. Packing, blocking and unpacking depend on the kernel only through "
     "that contract.",
     ["configurations", "inputs"],
     "all kernel formats allowed by the contract, combined with all shapes, orders, block sizes and thread counts",
     "The tests instantiate a dozen fixed formats on a handful of shapes with one cache tuning, and none on ARM.",
     ["internal/kernel.h", "internal/kernel_reference.h", "internal/pack.h", "internal/compute.h", "internal/unpack.h",
      "internal/block_params.h", "doc/kernel.md", "doc/packing.md"],
     [("format-generic packing", "internal/pack.h"), ("run-wise traversal", "internal/compute.h, PackedSideBlock::seek_run")],
     ["result matrices through single- and multi-threaded GEMM drivers with reference and SIMD kernels of many formats"])

prop("C17", "The thread limit is honoured and each result entry is written once",
     "A product uses no more threads at a time than the context's limit (the default limit creates no thread at all, and zero "
     "means the number of processors), runs small products on the caller's thread alone, keeps created workers for reuse "
     "instead of creating more on every call, and partitions the result so that every entry is computed by exactly one task.",
     ["configurations", "histories", "schedules"],
     "all limits, shapes and sequences of products on a context",
     "No test observes thread creation or which task writes what.",
     ["internal/multi_thread_gemm.h", "internal/platform.h", "internal/dispatch_gemm_shape.h"],
     [("thread count from rows, work and limit", "internal/multi_thread_gemm.h HowManyThreads"),
      ("row partition per task", "internal/multi_thread_gemm.h MultiThreadGemm"),
      ("pool grows only when needed", "internal/multi_thread_gemm.h CreateWorkers")],
     ["thread creation calls, threads executing the output stages, number of executions of the output pipeline per entry"],
     hook="wrapper of pthread_create; user-supplied worker pool and recording result type; no change to the sources")

prop("C18", "Contexts release everything they acquire and stay bounded in between",
     "Destroying a context (or freeing the legacy interface's persistent resources) returns all memory it allocated and joins "
     "all threads it started, after any history of products. While a context lives, repeating products whose sizes it has "
     "already seen allocates no further scratch memory and starts no further thread.",
     ["histories"],
     "all histories of products, thread limits and context lifetimes",
     "The tests never count live allocations or threads.",
     ["internal/allocator.h", "internal/multi_thread_gemm.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"],
     [("grow-only scratch freed by the destructor", "internal/allocator.h"),
      ("workers joined by the pool destructor", "internal/multi_thread_gemm.h"),
      ("tasks deleted after execution", "internal/multi_thread_gemm.h LegacyExecuteAndDestroyTasks")],
     ["allocation and thread ledgers kept by interposed allocation and pthread calls; LeakSanitizer"],
     hook="interposed operator new/delete, posix_memalign/free and pthread_create/join")

prop("C19", "Scratch allocation failure stops the program cleanly",
     "If scratch memory cannot be obtained at any point of a product, on the caller's thread or a worker, the program stops "
     "with a diagnostic instead of writing through an invalid pointer, returning a wrong result or hanging. Without such a "
     "failure the product completes normally.",
     ["fault_sequences", "crash_points"],
     "every allocation that can fail, for single- and multi-threaded products, in release and debug builds",
     "No test injects allocation failures.",
     ["internal/allocator.h", "internal/common.h", "internal/platform.h"],
     [("release-build assertion after allocation", "internal/allocator.h Commit")],
     ["exit status and diagnostics of child processes with the n-th scratch allocation failing"],
     hook="link-time wrapper of the aligned allocation call; no change to the sources")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
