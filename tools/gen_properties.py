#!/usr/bin/env python3
"""Single source of the property list; writes properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

p("M01", "Integer matrix products equal the documented formula on every path",
  "For integer operands, every destination entry equals the sum over depth of (lhs - lhs zero point) * (rhs - rhs zero point) plus the bias of its channel, rescaled by its multiplier (for destinations narrower than 32 bit), plus the destination zero point, clamped to the given bounds. This holds whenever the exact intermediate values fit in 32 bits, whatever the shape, storage orders, strides, channel dimension and enabled instruction-set path.",
  ["inputs", "configurations"],
  "all supported type combinations x shapes (including 1xN, Nx1, depth 1 and non-multiples of the kernel size) x 8 storage-order combinations x strides x zero points x bias/per-channel multipliers x clamps x paths",
  "The tests sample random shapes with a few parameter combinations per path; a defect tied to one tail size, one extreme value, one zero point or one channel-dimension/path pair is not reached.",
  ["ruy/kernel.h", "ruy/kernel_common.h", "ruy/kernel_avx.cc", "ruy/kernel_avx2_fma.cc", "ruy/kernel_avx512.cc", "ruy/kernel_x86.h", "ruy/create_trmul_params.h", "ruy/frontend.h"],
  [("Kernel::Run specialisations", "ruy/kernel.h, ruy/kernel_x86.h"), ("zero-point correction from packed sums", "ruy/kernel_avx512.cc, ruy/pack*.cc"), ("transposition of row-major destinations", "ruy/create_trmul_params.h")],
  observe=["destination buffer after ruy::Mul"])
p("M02", "Float products are exact whenever exact arithmetic is representable",
  "For float operands whose exact dot products, biased sums and partial sums are all representable, every destination entry is exactly the dot product plus bias clamped to the bounds. This holds for every shape, storage order, stride, channel dimension, bias, clamp and enabled path, including infinite clamp bounds.",
  ["inputs", "configurations"],
  "integer-valued and power-of-two-scaled float matrices of every small shape and layout on every path, with finite and infinite clamps",
  "Float tests compare with a tolerance that grows with depth, on random data; an error in one lane, one tail or one clamp can hide under the tolerance or not be sampled.",
  ["ruy/kernel_avx.cc", "ruy/kernel_avx2_fma.cc", "ruy/kernel_avx512.cc", "ruy/kernel.h", "ruy/pack_common.h"],
  [("KernelFloat* functions", "ruy/kernel_avx*.cc"), ("MemcpyRowMajorFloatPackImpl", "ruy/pack_common.h")],
  observe=["destination buffer after ruy::Mul"])
p("M03", "The result does not depend on threads, scheduling or strategy",
  "With the same operands, parameters and instruction-set path, a multiplication produces bit-for-bit the same destination whatever the maximum thread count, thread-count strategy, spin duration, tuning and thread interleaving. Repeating it on a warm context gives the same bits as on a fresh one.",
  ["schedules", "configurations", "histories"],
  "all thread counts, strategies and interleavings of the synchronisation operations of a multi-threaded multiplication, on fresh and reused contexts",
  "Tests run on whatever interleaving the machine produces, mostly with threads that never contend, and compare within tolerance.",
  ["ruy/trmul.cc", "ruy/thread_pool.cc", "ruy/block_map.cc"],
  [("TrMulTask block reservation", "ruy/trmul.cc"), ("ThreadPool::Execute barrier", "ruy/thread_pool.cc")],
  observe=["destination buffer after ruy::Mul under a controlled scheduler"])
p("M04", "A multiplication touches only the memory it was given",
  "A multiplication writes exactly the destination's entries: the gaps between rows or columns of a strided destination, the memory around it, both source matrices and the parameter buffers are left untouched. It never reads outside the extents of the source matrices or the declared capacity of the per-channel buffers.",
  ["inputs", "configurations"],
  "all shapes, strides, orders and paths, with every buffer placed directly against inaccessible memory on either side",
  "The tests check a strided destination's gap for a few shapes and never guard reads; an out-of-bounds vector load of a tail is invisible unless the page after it is unmapped.",
  ["ruy/kernel_avx.cc", "ruy/kernel_avx2_fma.cc", "ruy/kernel_avx512.cc", "ruy/pack_avx.cc", "ruy/pack_avx2_fma.cc", "ruy/pack_avx512.cc", "ruy/pack_x86.h", "ruy/create_trmul_params.h"],
  [("dst_tmp_buf for partial blocks", "ruy/kernel_avx*.cc"), ("zerobuf substitution for missing columns", "ruy/pack_x86.h"), ("EnsurePerChannelBuffersLargeEnough", "ruy/create_trmul_params.h")],
  observe=["guard bytes and guard pages around all buffers"])
p("M05", "Fixed-point rescaling rounds exactly, identically on every path",
  "For destinations narrower than 32 bit, an accumulator x with multiplier m * 2^(e-31) becomes floor(x*m*2^(e-31) + 1/2) exactly, for every non-negative m, e in [-31, 7] and accumulator such that x*2^max(e,0) and the rescaled value fit in 32 bits, before the zero point is added and the clamp applied. This holds on every instruction-set path, with one multiplier for all channels or one per channel.",
  ["inputs", "configurations"],
  "accumulators over the whole 32-bit range including halves and both signs, all exponents, extreme mantissas, uniform and per-channel, along both channel dimensions, on all paths",
  "Tests derive multipliers from random products so accumulators, exponents and mantissas are concentrated around typical values; exact ties and extreme shifts are rarely hit.",
  ["ruy/apply_multiplier.cc", "ruy/apply_multiplier.h", "ruy/kernel_avx.cc", "ruy/kernel_avx2_fma.cc", "ruy/kernel_avx512.cc", "ruy/mul_params.h"],
  [("MultiplyByQuantizedMultiplier", "ruy/apply_multiplier.cc"), ("vector rescaling in Kernel8bit*", "ruy/kernel_avx*.cc")],
  observe=["destination buffer after ruy::Mul with bias used to choose accumulators"])
p("M06", "Per-channel buffers of any capacity give the same result, and are reported",
  "Bias and per-channel multiplier buffers that hold just the declared number of channels (rounded up as declared by the caller) always suffice: results equal those obtained with generously padded buffers, and the caller's buffers are neither overrun nor modified. The performance advisory for buffer reallocation describes only the latest multiplication, and is reported exactly when the latest multiplication had to enlarge some buffer.",
  ["inputs", "histories", "configurations"],
  "channel counts around multiples of every kernel width x capacity roundings x channel dimension x path x which buffers are present x sequences of multiplications on one context",
  "The existing test checks one advisory scenario; it does not relate the advisory to history, capacity rounding and channel dimension, and does not guard the buffers.",
  ["ruy/create_trmul_params.h", "ruy/mul_params.h", "ruy/context.h", "ruy/frontend.cc"],
  [("EnsurePerChannelBuffersLargeEnough", "ruy/create_trmul_params.h"), ("clear_performance_advisories", "ruy/frontend.cc")],
  observe=["Context::performance_advisory after each Mul", "guard pages after the buffers"])
p("M07", "Packing an operand is lossless and confined to the requested columns",
  "Packing any column range of an operand stores every source value (with unsigned 8-bit values re-centred to signed) at the place the packed layout dictates, stores the operand's zero point at every depth beyond the operand's, and records for each column of the operand the sum of what was stored. It writes nothing belonging to other columns, so the union of any partition into ranges equals packing everything at once.",
  ["inputs", "configurations"],
  "all source shapes, orders, strides, zero points, source types, column-range partitions and packing paths",
  "Packing is only tested through whole multiplications where compensating errors and unread padding stay hidden; column-range partitions depend on the block map and thread count.",
  ["ruy/pack.h", "ruy/pack_common.h", "ruy/pack_x86.h", "ruy/pack_avx.cc", "ruy/pack_avx2_fma.cc", "ruy/pack_avx512.cc", "ruy/mat.h"],
  [("PackImpl specialisations", "ruy/pack.h, ruy/pack_x86.h"), ("Offset for packed layouts", "ruy/mat.h")],
  observe=["packed data and sums buffers after running the packing entry point"])
p("M08", "The caller's floating-point mode is restored; denormals flushed inside",
  "After a multiplication returns, the calling thread's floating-point control state is exactly what it was before, whatever it was, and multiplying exactly representable data raises no invalid-operation, division or overflow exception. While a multiplication runs, every participating thread flushes denormals, so denormal operands behave as zeros identically on every thread.",
  ["histories", "configurations"],
  "all initial rounding/denormal/exception-mask settings of the caller, thread counts, sequences of multiplications",
  "No test looks at the control register; results differ only for denormal data or non-default rounding modes.",
  ["ruy/denormal.h", "ruy/denormal.cc", "ruy/trmul.cc", "ruy/thread_pool.cc"],
  [("ScopedSuppressDenormals", "ruy/denormal.cc")],
  observe=["MXCSR before/after Mul and inside pack/kernel callbacks"])
p("M09", "Matrices of more than 2^31 elements are multiplied correctly",
  "A multiplication gives the exact result and stays within its buffers also when operands or destination contain 2^31 or more elements, or when a stride puts entries that far apart. Size never turns into a wrong address, an abort or a wrong result as long as each dimension and stride fits the interface.",
  ["inputs", "configurations"],
  "all shapes, strides and orders placing entries of either operand or the destination beyond 2^31 and 2^32 elements from the first, on every path, type combination and thread count, as far as memory (16 strides within 2^31 bytes) permits",
  "Tests use matrices of at most a few thousand entries per side; the overflow needs gigabytes of address space.",
  ["ruy/mat.h", "ruy/matrix.h", "ruy/pack_x86.h", "ruy/pack.h", "ruy/kernel_common.h", "ruy/block_map.cc"],
  [("Offset", "ruy/mat.h, ruy/matrix.h"), ("per-block source and packed pointers", "ruy/pack_x86.h"), ("MakeKernelParams", "ruy/kernel_common.h")],
  observe=["results and faults of multiplications over sparsely mapped address ranges"])
p("M10", "Float products of any data are as close as rounding permits",
  "For finite float or double data without overflow or underflow, every destination entry differs from the exact sum of products plus bias by at most the rounding of as many operations as there are non-zero terms, in units of the accumulator's precision, before clamping to the given bounds. A destination narrower than the accumulator adds one rounding of the final value; in particular a sum with a single term is correctly rounded.",
  ["inputs", "configurations"],
  "data of all magnitudes (full mantissas, cancellation, powers of two, sparse) x shapes x storage orders x strides x bias x clamps x paths x thread counts",
  "Tests compare with a loose tolerance derived from another path's result, and exact tests use small integers: losing a few mantissa bits of an operand, a product or the accumulator passes both.",
  ["ruy/kernel.h", "ruy/kernel_avx.cc", "ruy/kernel_avx2_fma.cc", "ruy/kernel_avx512.cc", "ruy/pack_avx.cc", "ruy/pack_avx2_fma.cc", "ruy/pack_avx512.cc", "ruy/apply_multiplier.h"],
  [("KernelFloat* functions", "ruy/kernel_avx*.cc"), ("Kernel<Path::kStandardCpp>", "ruy/kernel.h")],
  observe=["operands, bias, bounds and destination entries as exact integers"])
p("M11", "The reference multiplication computes the documented formula",
  "The unoptimised reference multiplication offered for comparison gives, for every type combination, shape, storage order, stride, zero point, bias, multiplier, clamp and channel dimension, exactly the destination the documented formula dictates, leaving everything else untouched.",
  ["inputs"],
  "type combinations x shapes x storage orders x strides x zero points x biases x multipliers x clamps x channel dimensions",
  "Tests use it as their oracle: an error in it, or one it shares with the paths it is compared with, is invisible to them.",
  ["ruy/reference_mul.h", "ruy/apply_multiplier.cc", "ruy/apply_multiplier.h", "ruy/matrix.h"],
  [("ReferenceMul", "ruy/reference_mul.h"), ("ApplyMultiplier", "ruy/apply_multiplier.h")],
  observe=["destination buffer after each call"])
p("T01", "Parallel execution runs each task once and is a full barrier",
  "When n tasks are submitted for parallel execution, each runs exactly once, task 0 on the calling thread and the others on n-1 distinct other threads, and the call returns only after all have finished with all their memory effects visible to the caller. This holds for every interleaving and every sequence of calls with varying n on the same pool.",
  ["schedules", "histories"],
  "all interleavings of callers and workers at synchronisation-operation granularity, for histories of calls with growing and shrinking task counts and any spin duration",
  "There is no thread-pool test; tests that use it run a handful of OS-chosen schedules on x86, whose strong memory ordering hides missing acquire/release.",
  ["ruy/thread_pool.cc", "ruy/thread_pool.h", "ruy/blocking_counter.cc", "ruy/wait.cc"],
  [("Thread state machine", "ruy/thread_pool.cc"), ("count_busy_threads_ acquire/release", "ruy/blocking_counter.cc")],
  state=[("state_", "worker state", "ruy/thread_pool.cc"), ("count_", "outstanding workers", "ruy/blocking_counter.h")],
  observe=["task begin/end, call/return events", "instrumented atomics, mutexes, condition variables"])
p("T02", "No lost wake-up: parallel calls and pool destruction always finish",
  "If every task terminates, then every parallel-execution call returns and destroying the pool returns with all worker threads finished, whatever the interleaving, the spin duration (including zero) and spurious wake-ups. An idle worker with no work stays blocked and never runs anything.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings with zero, short and long spin durations and arbitrarily placed spurious wake-ups, over construct/execute/destroy histories",
  "A lost wake-up needs a pre-emption inside a few-instruction window between the spin expiring, the condition check and the notification; tests practically never hit it.",
  ["ruy/thread_pool.cc", "ruy/blocking_counter.cc", "ruy/wait.cc", "ruy/wait.h"],
  [("notify under the mutex", "ruy/thread_pool.cc, ruy/blocking_counter.cc"), ("predicate wait loop", "ruy/wait.cc")],
  observe=["deadlock detection in the controlled scheduler", "thread exit events"])
p("T03", "Counter and condition waits return exactly when their condition holds",
  "Waiting on a condition returns only after that condition has been observed true by the waiter, and always returns once it is true and signalled, for every spin duration. A countdown of n releases its waiter exactly after the n-th decrement, reports 'last' to exactly that decrement, makes everything done before each decrement visible to the waiter, and can be reused for the next countdown.",
  ["schedules", "histories"],
  "all interleavings of a waiter with up to several decrementing threads, for repeated countdowns and spin durations",
  "The wait test uses real sleeps and real threads and checks only that the waits end.",
  ["ruy/wait.cc", "ruy/wait.h", "ruy/blocking_counter.cc", "ruy/blocking_counter.h"],
  [("Wait", "ruy/wait.cc"), ("BlockingCounter", "ruy/blocking_counter.cc")],
  observe=["Wait call/return, DecrementCount results"])
p("T04", "Every destination block is computed exactly once, by exactly one thread",
  "In every multiplication, each block of the destination is computed exactly once by exactly one thread, and all blocks have been computed when the multiplication returns. This holds for every interleaving, number of threads and block layout, whether or not operands were packed beforehand.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of the worker threads, for block grids of many shapes, traversal orders, thread counts and prepacked-operand combinations",
  "Recomputing a block is invisible in the result, and skipping one needs a particular thread count/block count relation; tests only see the result of a lucky schedule.",
  ["ruy/trmul.cc", "ruy/block_map.cc"],
  [("atomic block reservation", "ruy/trmul.cc")],
  state=[("atomic_block_id", "next unreserved block", "ruy/trmul.cc")],
  observe=["kernel invocations through the multiplication parameters' kernel entry point"])
p("T05", "No block is computed from data that is not completely packed",
  "A block computation starts only after both operand strips it consumes have been completely packed and that packing is visible to the computing thread. Each strip of an operand that was not packed beforehand is packed exactly once per multiplication, an operand packed beforehand is never repacked, and threads waiting for each other's packing always make progress.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of packing and computing threads for many block grids and thread counts, under the C++ memory model's happens-before rather than x86 ordering",
  "On x86 a missing acquire/release never shows, and reading a half-packed strip needs a pre-emption in the middle of packing.",
  ["ruy/trmul.cc"],
  [("PackingStatus compare-exchange and release store", "ruy/trmul.cc"), ("local_already_packed", "ruy/trmul.cc")],
  state=[("packing_status", "per-strip packing state", "ruy/trmul.cc"), ("local_already_packed", "per-thread knowledge", "ruy/trmul.cc")],
  observe=["pack and kernel begin/end with happens-before clocks"])
p("T06", "Multiplications are free of data races, also across contexts",
  "During a multi-threaded multiplication no two threads access the same memory without a happens-before ordering when one of the accesses is a write. The same holds for multiplications running concurrently on different contexts from different threads, which also do not affect each other's results.",
  ["schedules", "configurations"],
  "all pairs of unordered accesses in explored executions of one multi-threaded multiplication and of two concurrent ones on distinct contexts",
  "The tests never run two contexts concurrently and are not run under a race detector; races on x86 are benign most of the time.",
  ["ruy/trmul.cc", "ruy/thread_pool.cc", "ruy/ctx.cc", "ruy/prepare_packed_matrices.cc", "ruy/allocator.cc", "ruy/tune.cc"],
  [("per-thread resources", "ruy/ctx.cc"), ("acquire/release protocol", "ruy/trmul.cc, ruy/thread_pool.cc")],
  observe=["instrumented loads and stores with vector clocks"])
p("T07", "The number of threads used respects the context's limit and strategy",
  "A multiplication uses at least one thread and never more threads than the context's maximum nor than there are blocks of work; with the default maximum of one, no thread is ever created. Under the default strategy it uses one thread per full 32768 scalar products (small ones stay single-threaded, the largest ones reach those limits), and forcing the maximum uses as many threads as the work can be split for, up to the maximum.",
  ["inputs", "configurations", "histories"],
  "all shapes, maxima, strategies and histories of changing maxima on one context",
  "Tests never count the threads used; excess threads change nothing in the result.",
  ["ruy/trmul.cc", "ruy/block_map.cc", "ruy/ctx.cc", "ruy/thread_pool.cc"],
  [("GetTentativeThreadCount", "ruy/trmul.cc"), ("MakeBlockMap thread_count", "ruy/block_map.cc")],
  observe=["threads created and threads running tasks per Mul"])
p("B01", "Blocks tile the destination exactly, aligned to the kernel size",
  "For every destination shape, depth, kernel size, element sizes, thread count and cache sizes, the blocks cover every destination entry, overlap nowhere, are non-empty, start at multiples of the kernel size, and extend past the destination only by less than one kernel. The thread count chosen is at least one, at most the requested one, and at most the number of blocks.",
  ["inputs", "configurations"],
  "all shapes from 1x1 to very elongated and very large, depths, kernel sizes, scalar sizes, thread counts and cache parameters",
  "The test covers square and rectangular samples for two fixed cache sizes; the split into large and small blocks depends on every remainder.",
  ["ruy/block_map.cc", "ruy/block_map.h"],
  [("MakeBlockMap", "ruy/block_map.cc"), ("GetBlockMatrixCoords", "ruy/block_map.cc")],
  observe=["MakeBlockMap, GetBlockMatrixCoords results"])
p("B02", "Every traversal order visits every block exactly once",
  "For every block grid and traversal order, the mapping from sequence index to block is a bijection between 0..count-1 and the blocks. When the traversal is declared obviously linear beforehand, the block map made for that problem is indeed traversed linearly.",
  ["inputs", "configurations"],
  "all grids 2^a x 2^b and all traversal orders, and all shapes for the shortcut decision",
  "Tests check one traversal per platform through random shapes; Z, U and Hilbert orders are selected only beyond cache-size thresholds.",
  ["ruy/block_map.cc", "ruy/block_map.h", "ruy/trmul.cc"],
  [("GetBlockByIndex and the fractal decoders", "ruy/block_map.cc"), ("IsObviouslyLinearTraversal", "ruy/block_map.h")],
  observe=["GetBlockByIndex results"])
p("K01", "Caching packed operands never changes a result",
  "As long as the caller keeps the data behind cached operands unchanged (or clears the cache after changing it), every multiplication with caching enabled on either or both operands gives exactly the result it would give with caching disabled. This holds for any history of multiplications that reuse the same data under different shapes, storage orders, strides, zero points, paths and sides, and under any cache pressure.",
  ["histories", "inputs", "configurations"],
  "all histories of multiplications over a small set of buffers viewed through different layouts, zero points and policies, with clears, path changes and small or exhausted cache budgets in between",
  "The tests exercise the cache with synthetic entries and one repeated multiplication; they never reuse one buffer under two layouts nor let one operand's insertion evict the other.",
  ["ruy/prepacked_cache.cc", "ruy/prepacked_cache.h", "ruy/prepare_packed_matrices.cc", "ruy/matrix.h"],
  [("cache key", "ruy/prepacked_cache.h"), ("PreparePackedMatrices", "ruy/prepare_packed_matrices.cc")],
  observe=["destination buffers across histories of ruy::Mul"])
p("K02", "The cache accounts for its memory exactly and respects its budget",
  "At all times the cache's reported size equals the bytes actually held for its entries, and after every insertion it is within the budget unless the newest entry alone exceeds it. Evicted and cleared entries' memory is released exactly once.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of lookups, insertions, evictions and clears, over matrices of all scalar types and sizes and any budget",
  "The tests use hand-made entries without per-column sums and only short sequences; an accounting error of a few bytes per eviction needs many evictions to show.",
  ["ruy/prepacked_cache.cc", "ruy/prepacked_cache.h", "ruy/system_aligned_alloc.cc"],
  [("EjectUntilRoomFor / EjectOne", "ruy/prepacked_cache.cc"), ("AllocateBuffers / FreeBuffers", "ruy/prepacked_cache.cc")],
  state=[("buffers_bytes_", "bytes accounted", "ruy/prepacked_cache.h")],
  observe=["BuffersBytes, MatrixCount, interposed aligned allocations"])
p("K03", "The cache evicts least recently used entries and only when it must",
  "Looking up an entry that was inserted and not since evicted or cleared always finds it, with the same buffers and contents; looking up anything else inserts it. When room is needed, entries leave in least-recently-used order and no more of them than necessary.",
  ["histories", "inputs"],
  "all sequences of lookups over a set of keys of varied sizes against any budget",
  "The tests check a handful of fixed sequences of two or three entries.",
  ["ruy/prepacked_cache.cc", "ruy/prepacked_cache.h"],
  [("timestamps and EjectOne", "ruy/prepacked_cache.cc")],
  observe=["Get results and buffer identities"])
p("K04", "Operands are cached exactly as their policy says, and clearing forgets all",
  "An operand whose policy is never-cache is never retained; an operand with an always-cache policy is packed once and reused until evicted or cleared; the intermediate policies retain exactly in the narrow-other-side cases they document. After the cache is cleared, no memory is retained and the next multiplication sees the current data.",
  ["histories", "inputs", "configurations"],
  "all policies on both sides x other-side widths around the thresholds x destination orders x histories with clears",
  "The tests count entries in a few policy scenarios with one kernel width.",
  ["ruy/prepare_packed_matrices.cc", "ruy/matrix.h", "ruy/ctx.cc"],
  [("ShouldCache", "ruy/prepare_packed_matrices.cc"), ("ClearPrepackedCache", "ruy/ctx.cc")],
  observe=["cache entry count and bytes after each Mul, results after mutation and clear"])
p("A01", "Scratch allocations are aligned, disjoint and valid until released",
  "Between two bulk releases, every allocation from the scratch allocator is at least as large as requested, aligned to 64 bytes, overlaps no other live allocation, and stays intact until the bulk release. This holds for any sequence of sizes and alias-avoidance hints, and allocations avoiding aliasing with an address indeed avoid its neighbourhood modulo 1024.",
  ["histories", "inputs"],
  "all sequences of plain and alias-avoiding allocations of any sizes interleaved with bulk releases",
  "The tests check a few monotone size sequences; alignment and overlap depend on the history of fallback blocks and consolidations.",
  ["ruy/allocator.cc", "ruy/allocator.h", "ruy/system_aligned_alloc.cc"],
  [("AllocateFast/AllocateSlow/FreeAll", "ruy/allocator.cc"), ("AllocateBytesAvoidingAliasingWith", "ruy/allocator.cc")],
  observe=["returned addresses, interposed system allocations"])
p("A02", "Scratch memory reaches a steady state, is never leaked, and survives OOM",
  "Repeating the same sequence of scratch allocations and bulk release needs no new system memory from the third round on, and destroying the allocator releases every system block exactly once. If system memory runs out at any point, an allocation request fails with null and never yields a pointer to memory that is not there.",
  ["histories", "fault_sequences"],
  "all allocation histories with a system-allocation failure injected at every possible point",
  "The tests never make system allocation fail and check steady state for one pattern.",
  ["ruy/allocator.cc", "ruy/system_aligned_alloc.cc"],
  [("FreeAll consolidation", "ruy/allocator.cc")],
  state=[("size_, ptr_, current_, fallback_blocks_", "bump region and fallbacks", "ruy/allocator.h")],
  observe=["interposed posix_memalign/free"])
p("A03", "Destroying a context releases every thread and byte it acquired",
  "After any history of multiplications, setting changes and cache clears, destroying a context leaves no thread running and no memory allocated on its behalf. A multiplication without caching leaves behind only scratch memory that the next one reuses: repeating a multiplication does not grow memory use.",
  ["histories", "configurations"],
  "all histories of multiplications, cache clears and setting changes on one context, with any thread count",
  "Tests do not measure leaks per history, nor growth across repetitions.",
  ["ruy/ctx.cc", "ruy/context.cc", "ruy/frontend.cc", "ruy/thread_pool.cc", "ruy/prepacked_cache.cc"],
  [("destructors of context, thread pool, cache, allocators", "ruy/ctx.cc, ruy/thread_pool.cc, ruy/prepacked_cache.cc")],
  observe=["interposed malloc/free, posix_memalign, thread create/exit"])
p("X01", "The best enabled path is used, and path settings behave as a sticky override",
  "Each multiplication runs on the most advanced path among those compiled for the call and enabled at run time, and reports it; the portable path is always available as fallback. Explicitly enabled paths stay in force until changed, resetting them restores detection (or the environment override), and a multiplication never changes the setting.",
  ["histories", "configurations"],
  "all subsets of paths compiled, enabled and detected, and all histories of setting, resetting and multiplying, with and without the environment override",
  "Tests cover a handful of settings with mocked detection.",
  ["ruy/ctx.cc", "ruy/ctx.h", "ruy/path.h", "ruy/create_trmul_params.h", "ruy/context.h"],
  [("GetRuntimeEnabledPaths/SetRuntimeEnabledPaths/SelectPath", "ruy/ctx.cc")],
  state=[("runtime_enabled_paths_", "override or detected set", "ruy/ctx_impl.h")],
  observe=["Context::last_used_path after each Mul, get_ctx runtime paths"])
p("X02", "A CPU path is offered only if the CPU reports everything it needs",
  "Run-time detection reports an instruction-set path as usable exactly when the processor reports every instruction-set extension that path is compiled with, and reports nothing beyond the portable path when CPU information is unavailable. Cache sizes reported are those of the smallest core: per processor the largest level private to one core and the last level, falling back to safe defaults when unknown.",
  ["configurations", "fault_sequences"],
  "all combinations of reported instruction-set extensions, cache topologies (missing levels, missing data, heterogeneous cores) and initialisation failure",
  "Tests see only the CPU they run on.",
  ["ruy/cpuinfo.cc", "ruy/cpuinfo.h", "ruy/ctx.cc", "ruy/cpu_cache_params.h"],
  [("DetectRuntimeEnabledPaths / RuntimeSupports", "ruy/ctx.cc"), ("QueryCacheParams", "ruy/cpuinfo.cc")],
  observe=["detected path set and cache parameters with a simulated processor description"])
p("X03", "Tuning follows explicit choice, else the current core, with bounded staleness",
  "An explicit tuning choice is always what multiplications use, on every thread. Without one, the tuning used reflects the kind of core observed at most a quarter second earlier, and the core is queried again no more often than that.",
  ["histories", "configurations"],
  "all interleavings of time steps, core migrations and explicit tuning changes",
  "The test only checks the two explicit values and one automatic call on the present machine.",
  ["ruy/tune.cc", "ruy/tune.h", "ruy/ctx.cc"],
  [("TuningResolver::Resolve", "ruy/tune.cc")],
  state=[("last_resolved_tuning_, last_resolved_timepoint_", "cached evaluation", "ruy/tune.h")],
  observe=["Resolve results with simulated clock and core kind"])
p("X04", "A context's settings read back and belong to that context alone",
  "Every setting of a context (tuning, thread limit, thread-count strategy, spin duration, enabled paths) reads back as last set, or as the documented default on a fresh context, whatever multiplications, cache clears and other settings came between. What a context reports about its last multiplication (path, advisories) and its settings never changes through anything done to another context.",
  ["histories", "configurations"],
  "all histories of creating, configuring, using, inspecting and destroying several contexts",
  "Tests use one context at a time and look at one setting right after setting it; state shared between contexts or reset by an unrelated call goes unnoticed.",
  ["ruy/context.h", "ruy/context.cc", "ruy/ctx.h", "ruy/ctx.cc", "ruy/ctx_impl.h", "ruy/thread_pool.h"],
  [("Context accessors", "ruy/context.cc"), ("Ctx accessors", "ruy/ctx.cc")],
  state=[("CtxImpl members", "settings and record of the last multiplication", "ruy/ctx_impl.h")],
  observe=["getters of every live context at any point of a history"])
p("X05", "Build options change speed, never results",
  "With any documented selection of optimisations at build time, with or without assertions, profiling or tracing, with other optimisation levels and with another compiler, multiplications give the same results, select the best path that exists in the build, and touch nothing but the destination. Paths whose code a selection leaves out are not chosen by detection.",
  ["configurations", "inputs"],
  "build configurations (optimisation sets, assertions, profiling, tracing, compilers and levels) x multiplications on every path present",
  "Tests are built in one configuration; the code behind the other ones is not compiled, let alone run.",
  ["ruy/opt_set.h", "ruy/kernel.h", "ruy/trmul.cc", "ruy/block_map.cc", "ruy/allocator.cc", "ruy/have_built_path_for_avx.cc", "ruy/have_built_path_for_avx2_fma.cc", "ruy/have_built_path_for_avx512.cc", "ruy/asm_helpers.h"],
  [("RUY_OPT", "ruy/opt_set.h"), ("HaveBuiltPathFor*", "ruy/have_built_path_for*.cc"), ("FAT_KERNEL loop", "ruy/kernel.h")],
  observe=["destination buffer, path used, advisory and surrounding memory after each call"])
p("R01", "Profile trees account for every sample exactly once",
  "A profile tree built from recorded samples gives each thread a root weighing exactly its number of samples, and each node a weight equal to the sum of its children, with one child per distinct label plus an 'other' child for time spent in the node itself. Queries for weights by label, collapsed trees and printed percentages agree with these weights, and children are listed heaviest first.",
  ["inputs"],
  "all sequences of recorded stacks over several threads and nested, repeated and parameterised labels",
  "The profiler test checks ratios of a real sampled run with tolerances.",
  ["ruy/profiler/treeview.cc", "ruy/profiler/treeview.h", "ruy/profiler/instrumentation.cc"],
  [("TreeView::Populate", "ruy/profiler/treeview.cc")],
  observe=["TreeView nodes after Populate"])
p("R02", "Sampled stacks are genuine: every sample is a state some thread was in",
  "Every sample taken while threads enter and leave profiled scopes is exactly the nesting of scopes some thread was in at that moment, with no torn, stale or mixed labels, for every interleaving of sampling, scope entry and exit, and thread start and exit. Stopping a profile stops sampling and lets profiled threads continue and exit freely.",
  ["schedules", "histories"],
  "all interleavings of the sampler with threads pushing, popping, starting and exiting",
  "The test relies on real time sampling; torn stacks need the sampler to hit a few-instruction window.",
  ["ruy/profiler/instrumentation.cc", "ruy/profiler/instrumentation.h", "ruy/profiler/profiler.cc", "ruy/profiler/profiler.h"],
  [("ThreadStack mutex and GlobalsAllThreadStacks", "ruy/profiler/instrumentation.cc"), ("sampling thread", "ruy/profiler/profiler.cc")],
  observe=["samples delivered to the user tree callback under a controlled scheduler"])
p("R03", "A trace tells what happened",
  "In a build with tracing, the trace a program leaves accounts for every multiplication it made: operands, destination, path, caching, threads and blocks are described as they were, scopes nest, and over all threads the packed strips and computed blocks make up each product exactly once, every strip packed before it is used. Destination file and format follow the environment variables that select them, and results are the ones of other builds.",
  ["programs", "inputs", "configurations"],
  "all programs of multiplications (types, shapes, orders, strides, zero points, policies, paths, thread counts, contexts, cache clearing) and output formats",
  "No test builds with tracing; a trace that is wrong about one line of thousands still looks plausible.",
  ["ruy/trace.h", "ruy/trmul.cc", "ruy/block_map.cc", "ruy/prepare_packed_matrices.cc", "ruy/thread_pool.cc", "ruy/pack.h", "ruy/kernel.h", "ruy/create_trmul_params.h"],
  [("AllThreadTraces, ThreadTrace", "ruy/trace.h"), ("RUY_TRACE_INFO, RUY_TRACE_SCOPE", "ruy/trace.h")],
  observe=["the trace written at exit, line by line, against the program's calls"])
p("V01", "Unsupported zero points are refused before any output is produced",
  "In checked builds a multiplication with a non-zero zero point on a float operand, a non-zero zero point alongside a 16-bit source, or both source zero points at their type's minimum (other than two unsigned 8-bit sources) is refused before the destination is touched, and so is a destination whose data was given as constant; every other zero-point combination is accepted.",
  ["inputs"],
  "all type combinations x all zero-point values of the operand types",
  "A death test covers single examples; the acceptance side and each type pair are not enumerated.",
  ["ruy/validate.h", "ruy/frontend.h"],
  [("ValidateZeroPoints", "ruy/validate.h")],
  observe=["process outcome and destination buffer in a forked child"])
p("V02", "Parameter objects keep what they are told and refuse contradictory modes",
  "The parameters object of a multiplication reports exactly the values last set (bias, clamp bounds, channel dimension, capacity rounding, and the multiplier in either its single or its per-channel form), starting from the documented defaults and surviving copies. In checked builds, setting one form of the multiplier while a value of the other form is still set is refused, as is a capacity rounding that is not a power of two; everything else is accepted.",
  ["histories"],
  "all sequences of setter calls, copies and resets on the parameters object for each destination type",
  "No test exercises sequences of setters; an inconsistent mode only shows as a wrong multiplier in some later multiplication.",
  ["ruy/mul_params.h", "ruy/size_util.h"],
  [("set_perchannel mode switch", "ruy/mul_params.h"), ("pot_log2", "ruy/size_util.h")],
  state=[("perchannel", "which form of the multiplier is active", "ruy/mul_params.h")],
  observe=["getters after every setter, and aborts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
