// Single-producer/single-consumer queues: SpscSofi (overflowing) and SpscFifo.
#include "ioxsup.hpp"
#include "lin.hpp"
#include "iox/detail/spsc_fifo.hpp"
#include "iox/detail/spsc_sofi.hpp"
#include <deque>

namespace
{
using iox::concurrent::SpscFifo;
using iox::concurrent::SpscSofi;

struct Op
{
    int kind; // 0 push 1 pop
    uint64_t in{0};
    bool ok{false};
    uint64_t out{0};
};
using H = std::vector<lin::Call<Op>>;
struct Hist
{
    H h;
    size_t begin(Op o)
    {
        mc::Atomic a;
        h.push_back({o, ++lin::now(), ~0ULL});
        return h.size() - 1;
    }
    void end(size_t i, bool ok, uint64_t out)
    {
        mc::Atomic a;
        h[i].op.ok = ok;
        h[i].op.out = out;
        h[i].ret = ++lin::now();
        mc::log("%s(%llu) -> %d %llu", h[i].op.kind ? "pop" : "push", (unsigned long long)h[i].op.in, ok, (unsigned long long)out);
    }
};
uint64_t histHash(const H& h)
{
    uint64_t x = 1;
    for (auto& c : h)
        x = mc::mix(x, c.op.kind * 1000 + c.op.in * 100 + c.op.ok * 50 + c.op.out);
    return x;
}
std::string show(const H& h)
{
    std::string s;
    for (auto& c : h)
    {
        char b[96];
        snprintf(b, sizeof b, "[%llu-%llu %s %llu->%d,%llu] ", (unsigned long long)c.call, (unsigned long long)c.ret,
                 c.op.kind ? "pop" : "push", (unsigned long long)c.op.in, c.op.ok, (unsigned long long)c.op.out);
        s += b;
    }
    return s;
}

struct Big
{
    uint64_t a, b, c; // c = a ^ b checks for tearing
    static Big of(uint64_t v)
    {
        return Big{v, v * 7919, v ^ (v * 7919)};
    }
    bool sane() const
    {
        return b == a * 7919 && c == (a ^ b);
    }
};

// ---- SoFi against an overflowing FIFO of the given capacity
template <uint64_t CAP>
void sofi(int pre, int pushes, int pops, bool promote)
{
    lin::now() = 0;
    auto* q = mc::make<SpscSofi<Big, CAP>>();
    if (promote)
        mc::promote(q, sizeof(*q));
    auto* hist = new Hist;
    uint64_t next = 1;
    auto push = [=](uint64_t v) {
        size_t i = hist->begin({0, v});
        Big out{0, 0, 0};
        bool ok = q->push(Big::of(v), out);
        MC_CHECK(ok || out.sane(), "torn-value", "overflow returned a value that was never pushed: %llu", (unsigned long long)out.a);
        hist->end(i, ok, ok ? 0 : out.a);
    };
    auto pop = [=]() {
        size_t i = hist->begin({1, 0});
        Big out{0, 0, 0};
        bool ok = q->pop(out);
        MC_CHECK(!ok || out.sane(), "torn-value", "pop returned a value that was never pushed: %llu", (unsigned long long)out.a);
        hist->end(i, ok, ok ? out.a : 0);
        return ok;
    };
    // non-initial state: pre pushes followed by pops so that positions wrap
    int prePush = pre, prePop = pre > 1 ? mc::choose(pre) : 0;
    for (int i = 0; i < prePush; ++i)
        push(next++);
    for (int i = 0; i < prePop; ++i)
        pop();
    uint64_t base = next;
    int f1 = mc::spawn([=] {
        for (int i = 0; i < pushes; ++i)
            push(base + (uint64_t)i);
    });
    int f2 = mc::spawn([=] {
        for (int i = 0; i < pops; ++i)
            pop();
    });
    mc::join(f1);
    mc::join(f2);
    while (pop())
    {
    }
    struct M
    {
        std::deque<uint64_t> d;
    };
    bool lin = lin::linearizable(M{}, hist->h, [](M& m, const Op& o) {
        if (o.kind == 0)
        {
            m.d.push_back(o.in);
            if (m.d.size() > CAP)
            {
                uint64_t x = m.d.front();
                m.d.pop_front();
                return !o.ok && o.out == x;
            }
            return o.ok;
        }
        if (m.d.empty())
            return !o.ok;
        uint64_t x = m.d.front();
        if (!o.ok || o.out != x)
            return false;
        m.d.pop_front();
        return true;
    });
    MC_CHECK(lin, "not-fifo", "no sequential overflowing-FIFO history explains %s", show(hist->h).c_str());
    mc::outcome(histHash(hist->h));
}

template <uint64_t CAP>
void fifo(int pre, int pushes, int pops)
{
    lin::now() = 0;
    auto* q = mc::make<SpscFifo<Big, CAP>>();
    auto* hist = new Hist;
    uint64_t next = 1;
    auto push = [=](uint64_t v) {
        size_t i = hist->begin({0, v});
        bool ok = q->push(Big::of(v));
        hist->end(i, ok, 0);
    };
    auto pop = [=]() {
        size_t i = hist->begin({1, 0});
        auto r = q->pop();
        bool ok = r.has_value();
        MC_CHECK(!ok || r->sane(), "torn-value", "pop returned a value that was never pushed");
        hist->end(i, ok, ok ? r->a : 0);
        return ok;
    };
    int prePop = pre > 0 ? mc::choose(pre + 1) : 0;
    for (int i = 0; i < pre; ++i)
        push(next++);
    for (int i = 0; i < prePop; ++i)
        pop();
    uint64_t base = next;
    int f1 = mc::spawn([=] {
        for (int i = 0; i < pushes; ++i)
            push(base + (uint64_t)i);
    });
    int f2 = mc::spawn([=] {
        for (int i = 0; i < pops; ++i)
            pop();
    });
    mc::join(f1);
    mc::join(f2);
    MC_CHECK(q->size() <= CAP, "size", "size %llu exceeds the capacity", (unsigned long long)q->size());
    uint64_t sz = q->size(), n = 0;
    MC_CHECK(q->empty() == (sz == 0), "size", "empty() contradicts size()");
    while (pop())
        ++n;
    MC_CHECK(n == sz, "size", "size() said %llu but %llu elements were there", (unsigned long long)sz, (unsigned long long)n);
    struct M
    {
        std::deque<uint64_t> d;
    };
    bool lin = lin::linearizable(M{}, hist->h, [](M& m, const Op& o) {
        if (o.kind == 0)
        {
            if (m.d.size() >= CAP)
                return !o.ok;
            m.d.push_back(o.in);
            return o.ok;
        }
        if (m.d.empty())
            return !o.ok;
        uint64_t x = m.d.front();
        if (!o.ok || o.out != x)
            return false;
        m.d.pop_front();
        return true;
    });
    MC_CHECK(lin, "not-fifo", "no sequential bounded-FIFO history explains %s", show(hist->h).c_str());
    mc::outcome(histHash(hist->h));
}
mc::Opts B(int p, double s)
{
    mc::Opts o;
    o.preempt = p;
    o.seconds = s;
    return o;
}
} // namespace

MC_SCENARIO(sofi_cap1_overflow, B(4, 40), B(6, 200)) { sofi<1>(mc::choose(2), 3, 3, true); }
MC_SCENARIO(sofi_cap2_overflow, B(4, 40), B(5, 300)) { sofi<2>(mc::choose(4), 3, 3, true); }
MC_SCENARIO(sofi_no_overflow_strict, B(4, 40), B(5, 200)) { sofi<4>(0, 3, 3, false); }
MC_SCENARIO(fifo_cap1, B(4, 40), B(6, 200)) { fifo<1>(mc::choose(2), 3, 3); }
MC_SCENARIO(fifo_cap2, B(4, 40), B(6, 300)) { fifo<2>(mc::choose(3), 3, 3); }
