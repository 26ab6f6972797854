// Deterministic simulator for a header-only numerical library: public interface.
//
// One simulated run = one process (forked) = one seed.  The simulator owns
//   * the OpenMP runtime       (sim_omp.cpp: team creation, barriers, locks, work sharing)
//   * caller threads           (run_callers)
//   * every memory access      (compiler-inserted __tsan_* calls: yield points, happens-before checks,
//                               bounds checks on simulated heap blocks)
//   * the heap                 (contents of fresh blocks, failure of the n-th allocation)
// and takes every decision from seeded generators, so that a run is a pure function of its plan.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed ^ 0xD1B54A32D192ED03ull)
    {
        // the state is a hash of the seed: streams of neighbouring seeds must not overlap
        uint64_t a = next();
        s = a ^ (seed * 0xFF51AFD7ED558CCDull);
        a = next();
        s ^= a << 1;
    }
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
};

enum Mode { SERIAL = 0, SPARSE = 1, MEDIUM = 2, DENSE = 3, PCT = 4, STALL = 5, EXPLICIT = 9 };

struct Decision {
    uint64_t step;
    int tid;
};

// How one operation is to be run.
struct Ctl {
    uint64_t seed = 1; // schedule + heap contents
    int team = 1; // team size granted by the OpenMP runtime (upper bound if `shrink`)
    int shrink = 0; // 1: the runtime may grant fewer members, per region
    int mode = SERIAL;
    int64_t fail = -1; // index of the first allocation of this operation that fails (-1: none)
    int64_t nfail = 1; // how many consecutive allocations fail from there
    int ww_ok = 0; // conversions documented to overwrite: concurrent plain stores to one location allowed
    std::vector<Decision> dec; // used with mode == EXPLICIT
};

struct Res {
    enum Kind { OK, BAD_ALLOC, THROWN } kind = OK;
    std::string what;
    uint64_t steps = 0, allocs = 0, switches = 0, regions = 0;
    bool fault_fired = false;
    bool ok() const { return kind == OK; }
};

// Violation raised by an oracle: ends the run.
struct Violation : std::runtime_error {
    std::string cls;
    Violation(const std::string& c, const std::string& m) : std::runtime_error(m), cls(c) {}
};
[[noreturn]] void violate(const std::string& cls, const std::string& msg);

// Run code under test. Harness code (oracles) runs outside.
Res run(const Ctl& ctl, const std::function<void()>& f);
// Run several caller threads concurrently under the seeded scheduler.
Res run_callers(const Ctl& ctl, const std::vector<std::function<void()>>& fs);

// Observation hash (determinism gate)
void mix(uint64_t v);
void mix_double(double v);
void mix_bytes(const void* p, size_t n);
void count(const char* name, uint64_t n = 1); // reach counters / probes

// While alive, allocations of harness code are placed in the simulated heap (bounds-checked, garbage-filled).
extern bool harness_heap;
struct OnHeap {
    bool old;
    OnHeap() : old(harness_heap) { harness_heap = true; }
    ~OnHeap() { harness_heap = old; }
};

// Suspend / resume simulation inside an operation (oracle code).
bool armed_off();
void armed_on(bool);

// is this address inside a live simulated heap block
bool heap_live(const void* p, size_t n);
uint64_t heap_live_blocks();

// One step of a plan
struct Op {
    std::string name;
    uint64_t seed = 0; // data
    std::vector<int64_t> a;
    Ctl ctl;
};

struct Plan {
    std::string world, prop;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t get(const std::string& k, int64_t d = 0) const
    {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
};

// To be supplied by each world.
extern const char* world_name;
void world_generate(Plan& plan, Rng& rng); // fill cfg and ops; plan.prop and plan.seed are set
void world_execute(const Plan& plan); // throws Violation

// Helpers for worlds
Ctl random_ctl(Rng& rng, bool team, bool faults);
extern int current_op; // index of the operation being executed, set by the world
Ctl op_ctl(const Plan& plan, size_t i); // sets current_op

} // namespace sim
