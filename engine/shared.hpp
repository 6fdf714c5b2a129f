// Counters shared by all path processes.
#pragma once
#include <atomic>
#include <cstdint>
struct Shared {
    std::atomic<uint64_t> paths, forks, queries, z3_calls, qcache_hits, solver_ns, max_query_ns, sat, unsat, unknown,
        instrs, checks, checks_symbolic, assumes, killed_by_assume, violations, incomplete, model_mismatch, natcalls, sampled, max_path_instrs, concretizations;
    std::atomic<int> slots;
    std::atomic<int> stop;
    std::atomic<int> nlabels;
    std::atomic<int> lock;
    struct Label { char kind; char name[160]; std::atomic<uint64_t> n; } labels[2048];
    uint8_t fexec[1 << 17];
};
extern Shared *G;
