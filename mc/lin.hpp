// Wing & Gong linearizability check by exhaustive search over the (small) set of overlapping calls.
#pragma once
#include "mc.hpp"
#include <vector>

namespace lin
{
struct Clock
{
    uint64_t t{0};
};
inline uint64_t& now()
{
    static uint64_t t = 0;
    return t;
}
template <typename Op>
struct Call
{
    Op op;
    uint64_t call{0}, ret{~0ULL}; // ret==~0: never returned (crashed/pending)
};
// Model must be copyable; step(model, op) applies op and returns true iff op's recorded result is allowed.
// Pending calls may or may not have taken effect (effect with any result: stepPending).
template <typename Model, typename Op, typename Step>
bool search(const Model& m, std::vector<Call<Op>>& h, std::vector<bool>& done, size_t left, const Step& step, uint64_t& budget)
{
    if (left == 0)
        return true;
    if (budget-- == 0)
        mc::fail("harness", "linearizability search budget exhausted");
    uint64_t minRet = ~0ULL;
    for (size_t i = 0; i < h.size(); ++i)
        if (!done[i] && h[i].ret < minRet)
            minRet = h[i].ret;
    for (size_t i = 0; i < h.size(); ++i)
    {
        if (done[i] || h[i].call > minRet)
            continue;
        Model c = m;
        if (!step(c, h[i].op))
            continue;
        done[i] = true;
        if (search(c, h, done, left - 1, step, budget))
            return true;
        done[i] = false;
    }
    return false;
}
template <typename Model, typename Op, typename Step>
bool linearizable(const Model& init, std::vector<Call<Op>>& h, const Step& step)
{
    std::vector<bool> done(h.size(), false);
    uint64_t budget = 2000000;
    return search(init, h, done, h.size(), step, budget);
}
} // namespace lin
