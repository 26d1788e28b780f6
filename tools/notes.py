SCHED = ("Trusts TLC, the runtime's models of threads/mutexes/condition variables/clock, and compiler "
         "instrumentation. Exhaustive for the model within its bounds; for the code, exhaustive up to the "
         "stated preemption bounds on the smallest scenarios and sampled beyond.")
SESS = ("Trusts TLC's arithmetic, the harness's guard pages and allocation counting. Sessions are sampled with boundary "
        "values, not enumerated; every recorded multiplication is decided exactly by the specification. ARM paths are "
        "not executed on this machine.")
COMP = ("Trusts TLC, the harness's interposed system calls and its recording of results. The model is exhaustive within its "
        "bounds and rejects the listed faulty designs; histories run on the real component are sampled with boundary "
        "values and each is decided exactly by the specification.")
NOTES = {
    "X04": ("TLA+ Settings: several contexts configured, used and inspected side by side; every report decided by TLC", COMP),
    "X05": ("TLA+ MulArith/Session: multiplications in five differently configured builds of the sources, recomputed by TLC", SESS),
    "M11": ("TLA+ MulArith/Session: exact result of every call of the reference multiplication recomputed by TLC", SESS),
    "M10": ("TLA+ Accuracy: multi-digit exact sums in the specification bound the rounding error of every sampled entry", SESS),
    "M09": ("TLA+ Session over sparsely mapped operands spanning more than 2^31 and 2^32 elements, every path", SESS),
    "M07": ("TLA+ Pack: contents of the packed form and sums after every packed column range, decided by TLC on every path", COMP),
    "V01": ("TLA+ Validate: acceptance or refusal of every zero-point combination tried on the real entry point, decided by TLC", COMP),
    "V02": ("TLA+ Validate: the parameters object as a state machine; real setter histories validated by TLC", COMP),
    "R01": ("TLA+ Profile: trees, queries, collapsed trees and printouts of real profiles with controlled sampling moments, "
            "decided by TLC", COMP),
    "R02": ("TLA+ Sampler model checked by TLC (with faulty designs rejected); executions of the real profiler under a "
            "controlled scheduler validated against ProfTrace (samples, happens-before, lifetimes)", SCHED),
    "R03": ("TLA+ Tracing: traces of programs run in a build with tracing, parsed line by line and validated by TLC against "
            "the calls the program made", COMP),
    "X02": ("TLA+ Detect: conclusions drawn by the real detection code from simulated processor descriptions, decided by TLC", COMP),
    "X03": ("TLA+ Tune: histories of the real tuning resolver and dispatcher on a simulated clock and processor, validated by TLC", COMP),
    "A01": ("TLA+ Scratch model checked by TLC; histories of the real allocator on an interposed system allocator validated "
            "against AllocTrace", COMP),
    "A02": ("TLA+ Scratch model (steady state, failures) checked by TLC; histories of the real allocator with a failure "
            "injected at every allocation validated against AllocTrace", COMP),
    "K02": ("TLA+ PackCache model checked by TLC; histories of the real cache on an interposed system allocator validated "
            "against CacheTrace", COMP),
    "K03": ("TLA+ PackCache model checked by TLC; histories of the real cache validated against CacheTrace", COMP),
    "B01": ("TLA+ BlockMap: every recorded block map must tile its destination, decided by TLC", COMP),
    "B02": ("TLA+ BlockMap: every recorded traversal must be a bijection, and linear where announced, decided by TLC", COMP),
    "M01": ("TLA+ MulArith/Session: exact result of every recorded multiplication recomputed by TLC on every path", SESS),
    "M02": ("TLA+ MulArith/Session over exactly representable float data, every path, validated by TLC", SESS),
    "M04": ("TLA+ Session: destination gaps and all other buffers unchanged, guard pages around every buffer", SESS),
    "M05": ("TLA+ Rescale (multi-digit exact arithmetic) against accumulators over the whole 32-bit range", SESS),
    "M06": ("TLA+ Session: per-channel capacities and the reallocation advisory over histories of multiplications", SESS),
    "M08": ("TLA+ Session: floating-point control word around multiplications, denormals counted as zeros", SESS),
    "K01": ("TLA+ Session with its model of the cache of packed operands; real histories validated by TLC", SESS),
    "K04": ("TLA+ Session cache model decides which data a stale or fresh operand must show; real histories validated",
            SESS),
    "X01": ("TLA+ Session path-selection model; real histories of settings and calls validated by TLC", SESS),
    "A03": ("TLA+ Session resource ledger: threads and blocks held, validated by TLC over context life cycles", SESS),
    "T01": ("TLA+ ThreadPool refines ForkJoin (TLC); executions of the real pool under a controlled scheduler "
            "validated against ForkJoin with happens-before", SCHED),
    "T02": ("TLA+ liveness of ThreadPool (TLC); deadlock/livelock-free executions of the real pool validated "
            "by TLC", SCHED),
    "T03": ("TLA+ Countdown; executions of the real counter and wait validated by TLC with happens-before", SCHED),
    "T04": ("TLA+ TrMul refines BlockCompute (TLC); executions of the real block scheduler under a controlled "
            "scheduler validated against BlockCompute", SCHED),
    "T05": ("TLA+ TrMul (pack/compute protocol) checked by TLC; executions of the real protocol validated with "
            "happens-before", SCHED),
    "T06": ("TLA+ happens-before over recorded synchronisation and memory accesses of whole multiplications on one "
            "or several contexts, validated by TLC", SCHED),
    "T07": ("TLA+ thread-count contract validated by TLC on recorded executions of the real dispatcher", SCHED),
    "M03": ("TLA+ trace validation: every scheduled execution of a whole multiplication must yield the "
            "single-threaded result", SCHED),
}
NOT_APPLICABLE = {}
