// Public API of the model-checking runtime. Harnesses include only this (plus repo headers).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>

namespace mc
{
struct Opts
{
    int preempt = 2;      // max preemptions (schedule deviations) per execution
    int fault = 0;        // max non-default environment answers (choose_fault)
    int crash = 0;        // max crashes
    int spurious = 0;     // max spurious failures of weak compare-exchange
    int stale = 0;        // max stale reads of atomics (weak memory)
    int timejump = 0;     // max early firings of timed waits while others could still run
    double seconds = 60;  // safety cap for the scenario
    uint64_t spin = 2000; // forced (free) switch after this many atomic operations in a row
    uint64_t max_steps = 2000000;
    bool det = false;     // at blocking points the lowest fiber goes on (only preemptions are explored)
    bool races = true;    // report happens-before data races on heap/global memory
};

struct Scenario
{
    const char* name;
    Opts quick;
    Opts thorough;
    void (*body)();
    Scenario* next;
    Scenario(const char* n, Opts q, Opts t, void (*b)()) noexcept;
};

bool thorough() noexcept;
// harness nondeterminism: explored exhaustively, costs no deviation
int choose(int n) noexcept;
// environment answer: 0 is the default, any other costs one fault deviation
int choose_fault(int n) noexcept;
[[noreturn]] void fail(const char* sig, const char* fmt, ...) noexcept __attribute__((format(printf, 2, 3)));
// a recorded finding: counted and execution goes on if it is listed as known, otherwise like fail()
void finding(const char* sig, const char* fmt, ...) noexcept __attribute__((format(printf, 2, 3)));
// prune: this execution is not of interest (its subtree below the choices made so far is done)
[[noreturn]] void prune() noexcept;
void log(const char* fmt, ...) noexcept __attribute__((format(printf, 1, 2)));
bool replaying() noexcept;
// record an observed outcome (distinct count is reported)
void outcome(uint64_t h) noexcept;
inline uint64_t mix(uint64_t a, uint64_t b) noexcept
{
    a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2);
    a *= 0xff51afd7ed558ccdULL;
    return a ^ (a >> 32);
}
// visited-state set shared by all workers; returns true if h was new
bool state(uint64_t h) noexcept;
// explicit-state exploration inside one execution: counts a transition, false when the exploration has to stop
bool transition() noexcept;
// the exploration was cut off (reported as not exhaustive)
void incomplete() noexcept;

int spawn(std::function<void()> f) noexcept;
void join(int fid) noexcept;
void joinAll() noexcept;
int self() noexcept;
// wait until no other fiber can make progress (all done, blocked, sleeping or polling)
void quiesce() noexcept;
bool done(int fid) noexcept;
bool blocked(int fid) noexcept;  // blocked on a lock/semaphore/condition
bool crashed(int fid) noexcept;
void yield() noexcept;
// explicit visible step (scheduling point) on a harness-level object
void point() noexcept;
// run f with scheduling (and crash points) disabled
struct Atomic
{
    Atomic() noexcept;
    ~Atomic() noexcept;
};
// no race checking for plain accesses in [p,p+n); they become scheduling points instead
void promote(const volatile void* p, size_t n) noexcept;
// plain accesses in this range are not race checked and not visible
void ignore(const volatile void* p, size_t n) noexcept;
// plain writes in [p,p+n) are crash points of mortal fibers (atomics always are)
void crashable(const volatile void* p, size_t n) noexcept;
// name an object for deadlock messages
void name(const volatile void* p, size_t n, const char* what) noexcept;
// fiber may die at each of its visible steps; returns in other fibers via crashed(fid)
void mortal(int fid) noexcept;
void immortal(int fid) noexcept;
// the fiber stops for good (its process died)
void kill(int fid) noexcept;
// every fiber gets thread-local variables of its own (zero-initialised); call before the first spawn
void threadLocals() noexcept;
// number of fibers so far (ids are 0..fibers()-1)
int fibers() noexcept;
// what the calling fiber is doing (static string), for deadlock and livelock messages
void context(const char* what) noexcept;
uint64_t now_ns() noexcept;
void advance(uint64_t ns) noexcept;
// number of atomic ops executed so far
uint64_t steps() noexcept;
// raw memory from the deterministic arena (zeroed)
void* raw(size_t n, size_t align = 64) noexcept;
template <typename T, typename... A>
T* make(A&&... a)
{
    return new (raw(sizeof(T), alignof(T) < 64 ? 64 : alignof(T))) T(static_cast<A&&>(a)...);
}
} // namespace mc

#define MC_CHECK(c, sig, ...)                                                                                          \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(c))                                                                                                      \
            ::mc::fail(sig, __VA_ARGS__);                                                                              \
    } while (0)

#define MC_SCENARIO(nm, q, t)                                                                                          \
    static void mc_body_##nm();                                                                                        \
    static ::mc::Scenario mc_scn_##nm(#nm, q, t, &mc_body_##nm);                                                       \
    static void mc_body_##nm()
