// Multi-producer/multi-consumer lock-free queue with and without resizing.
#include "ioxsup.hpp"
#include "lin.hpp"
#include "iox/detail/mpmc_lockfree_queue.hpp"
#include "iox/detail/mpmc_resizeable_lockfree_queue.hpp"
#include <deque>
#include <set>

namespace
{
mc::Opts B(int p, double s)
{
    mc::Opts o;
    o.preempt = p;
    o.seconds = s;
    o.spin = 60;
    return o;
}
struct Big
{
    uint64_t a{0}, b{0};
    Big() = default;
    explicit Big(uint64_t v)
        : a(v)
        , b(~v)
    {
    }
    bool sane() const
    {
        return b == ~a;
    }
};
enum K
{
    ENQ,
    DEQ,
    EVICT,
    EMPTY
};
struct Op
{
    int k;
    uint64_t v;
};
struct Rec
{
    std::vector<lin::Call<Op>> h;
    uint64_t call()
    {
        mc::Atomic a;
        return ++lin::now();
    }
    void ret(uint64_t c, std::initializer_list<Op> ops)
    {
        mc::Atomic a;
        uint64_t r = ++lin::now();
        for (auto& o : ops)
        {
            h.push_back({o, c, r});
            mc::log("%s %llu", o.k == ENQ ? "enq" : o.k == DEQ ? "deq" : o.k == EVICT ? "evict" : "empty", (unsigned long long)o.v);
        }
    }
    std::string show()
    {
        std::string s;
        for (auto& c : h)
        {
            char b[80];
            snprintf(b, sizeof b, "[%llu-%llu %s %llu] ", (unsigned long long)c.call, (unsigned long long)c.ret,
                     c.op.k == ENQ ? "push" : c.op.k == DEQ ? "pop" : c.op.k == EVICT ? "evict" : "empty", (unsigned long long)c.op.v);
            s += b;
        }
        return s;
    }
    // capacity<0: not part of the model
    void check(int capacity)
    {
        std::set<uint64_t> in, out;
        for (auto& c : h)
        {
            if (c.op.k == ENQ)
                in.insert(c.op.v);
        }
        for (auto& c : h)
            if (c.op.k == DEQ || c.op.k == EVICT)
            {
                MC_CHECK(in.count(c.op.v), "phantom", "element %llu was never pushed: %s", (unsigned long long)c.op.v, show().c_str());
                MC_CHECK(out.insert(c.op.v).second, "duplicate", "element %llu left twice: %s", (unsigned long long)c.op.v, show().c_str());
            }
        MC_CHECK(in == out, "lost", "an element was lost: %s", show().c_str());
        bool l = lin::linearizable(std::deque<uint64_t>(), h, [capacity](std::deque<uint64_t>& d, const Op& o) {
            switch (o.k)
            {
            case ENQ:
                if (capacity >= 0 && (int)d.size() >= capacity)
                    return false;
                d.push_back(o.v);
                return true;
            case EVICT:
                if (capacity >= 0 && (int)d.size() != capacity)
                    return false;
                // fallthrough
            case DEQ:
                if (d.empty() || d.front() != o.v)
                    return false;
                d.pop_front();
                return true;
            default:
                return d.empty();
            }
        });
        MC_CHECK(l, "not-fifo", "no sequential FIFO history explains %s", show().c_str());
        uint64_t x = 0;
        for (auto& c : h)
            x = mc::mix(x, c.op.k * 100 + c.op.v);
        mc::outcome(x);
    }
};
template <typename Q>
struct Drv
{
    Q* q;
    Rec* r;
    void push(uint64_t v)
    {
        auto c = r->call();
        auto e = q->push(Big(v));
        if (e.has_value())
        {
            MC_CHECK(e->sane(), "torn-value", "evicted a value that was never pushed");
            r->ret(c, {{EVICT, e->a}, {ENQ, v}});
        }
        else
            r->ret(c, {{ENQ, v}});
    }
    bool tryPush(uint64_t v)
    {
        auto c = r->call();
        bool ok = q->tryPush(Big(v));
        if (ok)
            r->ret(c, {{ENQ, v}});
        return ok;
    }
    bool pop()
    {
        auto c = r->call();
        auto e = q->pop();
        if (e.has_value())
        {
            MC_CHECK(e->sane(), "torn-value", "popped a value that was never pushed");
            r->ret(c, {{DEQ, e->a}});
            return true;
        }
        r->ret(c, {{EMPTY, 0}});
        return false;
    }
};
template <typename Q>
void finish(Drv<Q> d, uint64_t cap, int model)
{
    uint64_t n = d.q->size();
    MC_CHECK(n <= cap, "size", "size %llu exceeds the capacity %llu", (unsigned long long)n, (unsigned long long)cap);
    MC_CHECK(d.q->empty() == (n == 0), "size", "empty() contradicts size()");
    uint64_t k = 0;
    while (d.pop())
        ++k;
    MC_CHECK(k == n, "size", "size() was %llu but %llu elements were there", (unsigned long long)n, (unsigned long long)k);
    d.r->check(model);
    // the full capacity is usable again
    for (uint64_t i = 0; i < cap; ++i)
        MC_CHECK(d.q->tryPush(Big(500 + i)), "capacity-lost", "only %llu of %llu slots are usable", (unsigned long long)i, (unsigned long long)cap);
    MC_CHECK(!d.q->tryPush(Big(900)), "capacity-exceeded", "push into the full queue was accepted");
    for (uint64_t i = 0; i < cap; ++i)
    {
        auto e = d.q->pop();
        MC_CHECK(e.has_value() && e->a == 500 + i && e->sane(), "not-fifo", "order lost after the run");
    }
    MC_CHECK(!d.q->pop().has_value(), "phantom", "element left in an empty queue");
}
// program: per thread string of ops: P push(evict) T tryPush G pop
template <uint64_t CAP>
void run(int pre, std::initializer_list<const char*> progs)
{
    lin::now() = 0;
    using Q = iox::concurrent::MpmcLockFreeQueue<Big, CAP>;
    Drv<Q> d{mc::make<Q>(), new Rec};
    // non-initial (wrapped) states
    int rot = mc::choose(2);
    for (int i = 0; i < rot; ++i)
    {
        d.push(50 + i);
        d.pop();
    }
    for (int i = 0; i < pre; ++i)
        d.push(60 + i);
    int t = 0;
    for (auto* p : progs)
    {
        ++t;
        mc::spawn([=]() mutable {
            int n = 0;
            for (const char* s = p; *s; ++s)
            {
                uint64_t v = t * 10 + (n++);
                if (*s == 'P')
                    d.push(v);
                else if (*s == 'T')
                    d.tryPush(v);
                else
                    d.pop();
            }
        });
    }
    mc::joinAll();
    finish(d, CAP, CAP);
}
// resizable: additional ops '0'..'9' = setCapacity
template <uint64_t CAP>
void runR(uint64_t cap0, int pre, std::initializer_list<const char*> progs)
{
    lin::now() = 0;
    using Q = iox::concurrent::MpmcResizeableLockFreeQueue<Big, CAP>;
    Drv<Q> d{mc::make<Q>(cap0), new Rec};
    for (int i = 0; i < pre; ++i)
        d.push(60 + i);
    struct Caps
    {
        int setters{0};
        int fails{0};
        std::vector<uint64_t> wanted;
    };
    auto* caps = new Caps;
    int resizers = 0;
    for (auto* p : progs)
        for (const char* s = p; *s; ++s)
            if (*s >= '0' && *s <= '9')
            {
                ++resizers;
                break;
            }
    int t = 0;
    for (auto* p : progs)
    {
        ++t;
        mc::spawn([=]() mutable {
            int n = 0;
            for (const char* s = p; *s; ++s)
            {
                uint64_t v = t * 10 + (n++);
                if (*s == 'P')
                    d.push(v);
                else if (*s == 'T')
                    d.tryPush(v);
                else if (*s == 'G')
                    d.pop();
                else
                {
                    uint64_t want = *s - '0';
                    auto* removed = new std::vector<uint64_t>;
                    auto c = d.r->call();
                    bool ok = d.q->setCapacity(want, [=](const Big& b) {
                        MC_CHECK(b.sane(), "torn-value", "removed a value that was never pushed");
                        removed->push_back(b.a);
                    });
                    for (auto x : *removed)
                        d.r->ret(c, {{DEQ, x}});
                    mc::Atomic a;
                    if (ok)
                        caps->wanted.push_back(want);
                    else
                        caps->fails++;
                    MC_CHECK(ok == (want <= CAP) || resizers > 1, "resize", "setCapacity(%llu) returned %d", (unsigned long long)want, ok);
                }
            }
        });
    }
    mc::joinAll();
    uint64_t cap = d.q->capacity();
    bool legal = caps->wanted.empty() ? cap == cap0 : false;
    for (auto w : caps->wanted)
        legal |= w == cap;
    if (resizers == 1 && !caps->wanted.empty())
        legal = cap == caps->wanted.back();
    MC_CHECK(legal, "resize", "capacity is %llu which nobody set", (unsigned long long)cap);
    MC_CHECK(resizers < 2 || caps->wanted.size() > 0, "resize", "no concurrent setCapacity succeeded");
    finish(d, cap, -1);
    // growing again still works
    MC_CHECK(d.q->setCapacity(CAP) && d.q->capacity() == CAP, "resize", "cannot restore the maximum capacity");
    for (uint64_t i = 0; i < CAP; ++i)
        MC_CHECK(d.q->tryPush(Big(i)), "capacity-lost", "slot lost by resizing");
}
} // namespace

MC_SCENARIO(cap1_2prod_1cons, B(3, 40), B(4, 200)) { run<1>(mc::choose(2), {"P", "P", "G"}); }
MC_SCENARIO(cap1_2t, B(4, 40), B(6, 200)) { run<1>(mc::choose(2), {"PT", "GG"}); }
MC_SCENARIO(cap2_2t_pushpop, B(4, 40), B(6, 200)) { run<2>(mc::choose(3), {"PP", "GG"}); }
MC_SCENARIO(cap2_2prod, B(3, 40), B(6, 200)) { run<2>(mc::choose(3), {"PP", "PG"}); }
MC_SCENARIO(cap2_2cons_1prod, B(3, 40), B(4, 300)) { run<2>(1 + mc::choose(2), {"P", "G", "G"}); }
MC_SCENARIO(cap2_3t, B(3, 40), B(4, 300)) { run<2>(1 + mc::choose(2), {"PG", "T", "G"}); }
MC_SCENARIO(resize_shrink, B(4, 40), B(6, 200)) { runR<2>(2, mc::choose(3), {"PP", "1"}); }
MC_SCENARIO(resize_grow, B(4, 40), B(6, 200)) { runR<2>(1, mc::choose(2), {"PP", "2"}); }
MC_SCENARIO(resize_zero, B(4, 40), B(6, 200)) { runR<2>(2, mc::choose(3), {"G", "02"}); }
MC_SCENARIO(resize_popper, B(2, 40), B(3, 200)) { runR<2>(2, 1 + mc::choose(2), {"P", "G", "1"}); }
MC_SCENARIO(resize_two, B(3, 40), B(5, 200)) { runR<2>(2, mc::choose(3), {"1", "2"}); }
MC_SCENARIO(resize_shrink_grow, B(4, 40), B(6, 200)) { runR<2>(2, mc::choose(3), {"PG", "12"}); }
