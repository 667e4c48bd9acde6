// Exclusive ownership and exact reclamation of memory chunks under concurrency.
#include "mem.hpp"
#include "lin.hpp"
#include "iceoryx_posh/internal/mepoo/shm_safe_unmanaged_chunk.hpp"
#include "iox/detail/mpmc_loffli.hpp"
#include <set>
using namespace iox::mepoo;
using sup::B;

namespace
{
struct Op
{
    int kind; // 0 alloc 1 free
    bool ok{false};
};
struct Rec
{
    std::vector<lin::Call<Op>> h;
    size_t begin(int k)
    {
        mc::Atomic a;
        h.push_back({{k}, ++lin::now(), ~0ULL});
        return h.size() - 1;
    }
    void end(size_t i, bool ok)
    {
        mc::Atomic a;
        h[i].op.ok = ok;
        h[i].ret = ++lin::now();
        mc::log("%s -> %d", h[i].op.kind ? "free" : "alloc", ok);
    }
    // allocation fails only if all N are in use at some moment of the call
    void check(int N)
    {
        bool l = lin::linearizable(0, h, [N](int& used, const Op& o) {
            if (o.kind == 1)
            {
                --used;
                return o.ok;
            }
            if (used >= N)
                return !o.ok;
            if (o.ok)
                ++used;
            return o.ok;
        });
        MC_CHECK(l, "spurious-exhaustion", "an allocation failed although a chunk was free, or succeeded although none was");
    }
};

// ---- free list ----
void loffli(uint32_t cap, int threads, int rounds)
{
    lin::now() = 0;
    using L = iox::concurrent::MpmcLoFFLi;
    auto* l = mc::make<L>();
    auto n = L::requiredIndexMemorySize(cap);
    auto* m = static_cast<uint32_t*>(mc::raw(n));
    l->init(m, cap);
    mc::promote(m, n);
    auto* owner = new std::vector<int>(cap, -1);
    auto* rec = new Rec;
    // start from a permuted state
    uint32_t a, b;
    if (cap > 1 && mc::choose(2))
    {
        l->pop(a);
        l->pop(b);
        l->push(a);
        l->push(b);
    }
    for (int t = 0; t < threads; ++t)
        mc::spawn([=] {
            for (int r = 0; r < rounds; ++r)
            {
                uint32_t i = 77;
                size_t e = rec->begin(0);
                bool ok = l->pop(i);
                rec->end(e, ok);
                if (!ok)
                    continue;
                {
                    mc::Atomic at;
                    MC_CHECK(i < cap, "bad-index", "index %u of %u", i, cap);
                    MC_CHECK((*owner)[i] == -1, "double-owner", "index %u handed to %d while %d owns it", i, t, (*owner)[i]);
                    (*owner)[i] = t;
                }
                {
                    mc::Atomic at;
                    (*owner)[i] = -1;
                }
                e = rec->begin(1);
                ok = l->push(i);
                rec->end(e, ok);
                MC_CHECK(ok, "lost-index", "push of an owned index was refused");
            }
        });
    mc::joinAll();
    rec->check((int)cap);
    std::set<uint32_t> s;
    for (uint32_t k = 0; k < cap; ++k)
    {
        uint32_t i;
        MC_CHECK(l->pop(i), "lost-index", "only %u of %u indices are left", k, cap);
        MC_CHECK(i < cap && s.insert(i).second, "double-owner", "index %u twice", i);
    }
    MC_CHECK(!l->pop(a), "double-owner", "more indices than capacity");
    MC_CHECK(!l->push(cap), "bad-index", "out of range index accepted");
    for (auto i : s)
    {
        MC_CHECK(l->push(i), "lost-index", "push refused");
        MC_CHECK(!l->push(i), "double-free", "a second push of the same index was accepted");
    }
    uint64_t h = 0;
    for (auto& c : rec->h)
        h = mc::mix(h, c.op.kind * 2 + c.op.ok);
    mc::outcome(h);
}

ChunkSettings settings(uint32_t size)
{
    return ChunkSettings::create(size, 8U).value();
}
void fill(void* p, uint64_t v)
{
    auto* u = static_cast<volatile uint64_t*>(p);
    u[0] = v;
    u[1] = ~v;
}
void expectFill(void* p, uint64_t v, const char* who)
{
    auto* u = static_cast<volatile uint64_t*>(p);
    MC_CHECK(u[0] == v && u[1] == ~v, "overwritten", "%s: the content of an owned chunk changed", who);
}

// ---- allocate / release from several threads ----
void allocRelease(sup::Mem* m, int threads, int rounds, uint32_t size, int N)
{
    lin::now() = 0;
    m->promoteMgmt();
    auto* rec = new Rec;
    for (int t = 0; t < threads; ++t)
        mc::spawn([=] {
            for (int r = 0; r < rounds; ++r)
            {
                size_t e = rec->begin(0);
                auto res = m->mgr.getChunk(settings(size));
                rec->end(e, !res.has_error());
                if (res.has_error())
                    continue;
                uint64_t tag = (uint64_t)t * 16 + r + 1;
                {
                    auto& c = res.value();
                    fill(c.getUserPayload(), tag);
                    MC_CHECK(c.getChunkHeader()->userPayloadSize() == size, "overwritten", "chunk header changed");
                    expectFill(c.getUserPayload(), tag, "owner");
                }
                e = rec->begin(1);
                res.value() = SharedChunk();
                rec->end(e, true);
            }
        });
    mc::joinAll();
    rec->check(N);
    m->checkAllFree("at the end");
    uint64_t h = 0;
    for (auto& c : rec->h)
        h = mc::mix(h, c.op.kind * 2 + c.op.ok);
    mc::outcome(h);
}

// ---- one chunk shared by several holders; the last one frees it; a third thread reuses it ----
void shared(int holders, bool viaUnmanaged)
{
    auto* m = mc::make<sup::Mem>(std::initializer_list<sup::PoolSpec>{{16, 1}});
    m->promoteMgmt();
    auto res = m->mgr.getChunk(settings(16));
    auto* slots = new std::vector<SharedChunk>(holders);
    fill(res.value().getUserPayload(), 42);
    for (int i = 0; i < holders; ++i)
        (*slots)[i] = res.value();
    res.value() = SharedChunk();
    auto* liveHolders = new int(holders);
    for (int i = 0; i < holders; ++i)
        mc::spawn([=] {
            if (viaUnmanaged)
            {
                ShmSafeUnmanagedChunk u(std::move((*slots)[i]));
                auto c = u.cloneToSharedChunk();
                expectFill(c.getUserPayload(), 42, "holder");
                auto d = u.releaseToSharedChunk();
                c = SharedChunk();
                expectFill(d.getUserPayload(), 42, "holder");
                {
                    mc::Atomic a;
                    --*liveHolders;
                }
            }
            else
            {
                SharedChunk c((*slots)[i]);
                (*slots)[i] = SharedChunk();
                expectFill(c.getUserPayload(), 42, "holder");
                SharedChunk d(std::move(c));
                expectFill(d.getUserPayload(), 42, "holder");
                {
                    mc::Atomic a;
                    --*liveHolders;
                }
            }
        });
    auto* got = new int(0);
    mc::spawn([=] {
        for (int k = 0; k < 2; ++k)
        {
            auto r = m->mgr.getChunk(settings(16));
            if (!r.has_error())
            {
                {
                    mc::Atomic a;
                    MC_CHECK(*liveHolders == 0, "double-owner", "a chunk with live holders was handed out again");
                }
                fill(r.value().getUserPayload(), 7);
                expectFill(r.value().getUserPayload(), 7, "new owner");
                ++*got;
            }
        }
    });
    mc::joinAll();
    m->checkAllFree("at the end");
    mc::outcome(*got);
}
} // namespace

MC_SCENARIO(freelist_2t, B(4, 30), B(6, 200)) { loffli(1 + mc::choose(3), 2, 2); }
MC_SCENARIO(freelist_3t, B(3, 40), B(4, 300)) { loffli(1 + mc::choose(2), 3, 1); }
MC_SCENARIO(pool_2t_1chunk, B(3, 30), B(5, 200))
{
    allocRelease(mc::make<sup::Mem>(std::initializer_list<sup::PoolSpec>{{16, 1}}), 2, 2, 16, 1);
}
MC_SCENARIO(pool_2t_2chunks, B(2, 30), B(4, 200))
{
    allocRelease(mc::make<sup::Mem>(std::initializer_list<sup::PoolSpec>{{16, 2}, {32, 1}}), 2, 2, 16, 2);
}
MC_SCENARIO(pool_3t, B(2, 30), B(3, 300))
{
    allocRelease(mc::make<sup::Mem>(std::initializer_list<sup::PoolSpec>{{16, 2}}), 3, 1, 16, 2);
}
MC_SCENARIO(shared_2h, B(2, 30), B(4, 200)) { shared(2, false); }
MC_SCENARIO(shared_2h_unmanaged, B(2, 30), B(4, 200)) { shared(2, true); }
