// Publish/subscribe on the real ports: delivery order, integrity, overflow accounting.
#include "ports.hpp"
#include <deque>
using namespace sup;

namespace
{
struct Op
{
    int k; // 0 send 1 take
    int64_t v;
};
struct World
{
    Mem* mem;
    std::vector<lin::Call<Op>> h;
    std::vector<std::vector<uint64_t>> got;
    uint64_t sent{0};
    size_t begin(int k)
    {
        mc::Atomic a;
        h.push_back({{k, -1}, ++lin::now(), ~0ULL});
        return h.size() - 1;
    }
    void end(size_t i, int64_t v)
    {
        mc::Atomic a;
        h[i].op.v = v;
        h[i].ret = ++lin::now();
        mc::log("%s %lld", h[i].op.k ? "take ->" : "sent", (long long)v);
    }
};
// Several publishers: making room (dropping the oldest sample of a full queue) and inserting are two separate atomic
// steps of one send; nothing else may be dropped.
struct MQ
{
    std::deque<int64_t> q;
    std::vector<int64_t> reserved;
};
void checkLinMulti(World* w, size_t cap)
{
    std::vector<lin::Call<Op>> h;
    for (auto& c : w->h)
    {
        h.push_back(c);
        if (c.op.k == 0)
        {
            h.push_back(c);
            h.back().op.k = 2;
        }
    }
    bool l = lin::linearizable(MQ(), h, [cap](MQ& m, const Op& o) {
        switch (o.k)
        {
        case 0:
            if (m.q.size() + m.reserved.size() >= cap)
            {
                if (m.q.size() < cap)
                    return false;
                m.q.pop_front();
            }
            m.reserved.push_back(o.v);
            return true;
        case 2:
            for (size_t i = 0; i < m.reserved.size(); ++i)
                if (m.reserved[i] == o.v)
                {
                    m.reserved.erase(m.reserved.begin() + i);
                    m.q.push_back(o.v);
                    return true;
                }
            return false;
        default:
            if (m.q.empty())
                return o.v < 0;
            if (o.v != m.q.front())
                return false;
            m.q.pop_front();
            return true;
        }
    });
    MC_CHECK(l, "not-linearizable", "the received samples are not those of a bounded queue that drops its oldest sample when full");
}
// bounded overflow queue shared by one publisher and one subscriber
void checkLin(World* w, size_t cap)
{
    bool l = lin::linearizable(std::deque<int64_t>(), w->h, [cap](std::deque<int64_t>& q, const Op& o) {
        if (o.k == 0)
        {
            q.push_back(o.v);
            if (q.size() > cap)
                q.pop_front();
            return true;
        }
        if (q.empty())
            return o.v < 0;
        if (o.v != q.front())
            return false;
        q.pop_front();
        return true;
    });
    MC_CHECK(l, "not-linearizable", "the received samples are not those of a bounded queue that drops its oldest sample when full");
}
struct Taker
{
    World* w;
    Sub* s;
    int hold; // how many samples are held at once
    bool lin;
    std::deque<std::pair<const mepoo::ChunkHeader*, uint64_t>> held;
    std::vector<uint64_t>* got;
    bool one()
    {
        size_t c = lin ? w->begin(1) : 0;
        auto r = s->user->tryGetChunk();
        if (r.has_error())
        {
            MC_CHECK(r.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE, "spurious-limit", "holding %zu samples is reported as too many", held.size());
            if (lin)
                w->end(c, -1);
            return false;
        }
        uint64_t v = valueOf(r.value());
        if (lin)
            w->end(c, v);
        mc::log("sub%p takes %llu", (void*)s, (unsigned long long)v);
        got->push_back(v);
        held.push_back({r.value(), v});
        while ((int)held.size() > hold)
            rel();
        return true;
    }
    void rel()
    {
        MC_CHECK(valueOf(held.front().first) == held.front().second, "overwritten", "a sample changed while it was held");
        s->user->releaseChunk(held.front().first);
        held.pop_front();
    }
    void all()
    {
        while (!held.empty())
            rel();
    }
};
void order(const std::vector<uint64_t>& got)
{
    uint64_t last[16];
    bool have[16] = {};
    for (auto v : got)
    {
        auto p = v >> 4;
        MC_CHECK(!have[p] || v > last[p], "order", "samples of one publisher out of order or duplicated");
        last[p] = v;
        have[p] = true;
    }
}
// nPub publishers send n samples each; subscriber takes `takes` times concurrently, then drains
void stream(int nPub, int nSub, size_t cap, int n, int takes, int hold, int promoteAll, bool multi = true)
{
    lin::now() = 0;
    auto* w = mc::make<World>();
    w->mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), static_cast<uint32_t>(nPub * 2 + nSub * (cap + 1 + hold) + 1)}});
    w->mem->promoteMgmt();
    std::vector<Pub*> pubs;
    std::vector<Sub*> subs;
    for (int i = 0; i < nPub; ++i)
        pubs.push_back(mc::make<Pub>(&w->mem->mgr, i, pubOpts(0, false)));
    for (int i = 0; i < nSub; ++i)
    {
        subs.push_back(mc::make<Sub>(multi, false, subOpts(cap, 0, false)));
        if (promoteAll)
            mc::promote(subs.back()->data, sizeof(SubscriberPortData));
    }
    for (auto* p : pubs)
        p->offer();
    for (auto* s : subs)
        nPub > 1 ? s->connect({pubs[0], pubs[1]}) : s->connect({pubs[0]});
    w->got.resize(nSub);
    bool lin = nSub == 1;
    for (auto* p : pubs)
        mc::spawn([=] {
            for (int i = 0; i < n; ++i)
            {
                auto* h = p->alloc();
                MC_CHECK(h, "no-chunk", "allocation failed although the pool is large enough");
                uint64_t v = (p->id << 4) + i;
                static_cast<Sample*>(h->userPayload())->set(v);
                size_t c = lin ? w->begin(0) : 0;
                if (lin)
                    w->h[c].op.v = v;
                p->user->sendChunk(h);
                if (lin)
                    w->end(c, v);
            }
        });
    std::vector<Taker*> takers;
    for (int i = 0; i < nSub; ++i)
    {
        auto* t = mc::make<Taker>(Taker{w, subs[i], hold, lin, {}, &w->got[i]});
        takers.push_back(t);
        mc::spawn([=] {
            for (int k = 0; k < takes; ++k)
                t->one();
        });
    }
    mc::joinAll();
    for (int i = 0; i < nSub; ++i)
    {
        while (takers[i]->one())
            ;
        takers[i]->all();
        order(w->got[i]);
        bool lost = subs[i]->user->hasLostChunksSinceLastCall();
        bool gap = w->got[i].size() < static_cast<size_t>(n * nPub);
        MC_CHECK(lost == gap, "loss-flag", "subscriber %d received %zu of %d samples but reports loss=%d", i, w->got[i].size(), n * nPub, lost);
        MC_CHECK(!subs[i]->user->hasLostChunksSinceLastCall(), "loss-flag", "the loss indication is not reset");
        MC_CHECK(w->got[i].size() >= std::min<size_t>(cap, n * nPub), "lost", "fewer samples than the queue holds were received");
        if ((int)cap >= n * nPub)
            MC_CHECK(!gap, "lost", "samples lost although the queue never was full");
    }
    if (lin)
        multi ? checkLinMulti(w, cap) : checkLin(w, cap);
    uint64_t hh = 1;
    for (auto& gv : w->got)
    {
        for (auto v : gv)
            hh = mc::mix(hh, v);
        hh = mc::mix(hh, 999);
    }
    mc::outcome(hh);
    for (auto* p : pubs)
        p->roudi->releaseAllChunks();
    for (auto* s : subs)
        s->roudi->releaseAllChunks();
    w->mem->checkAllFree("after the run");
}
// unsubscribe and resubscribe while the publisher is sending
void resub(bool multi)
{
    lin::now() = 0;
    auto* w = mc::make<World>();
    w->mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), 8}});
    w->mem->promoteMgmt();
    auto* p = mc::make<Pub>(&w->mem->mgr, 0, pubOpts(0, false));
    auto* s = mc::make<Sub>(multi, false, subOpts(4, 0, false));
    p->offer();
    s->connect({p});
    MC_CHECK(s->user->getSubscriptionState() == SubscribeState::SUBSCRIBED, "state", "not subscribed");
    struct St
    {
        int sentAtUnsub{-1}, sentAtResub{-1}, started{0}, done{0};
    };
    auto* st = new St;
    mc::spawn([=] {
        for (int i = 0; i < 3; ++i)
        {
            st->started = i + 1;
            MC_CHECK(p->send(i), "no-chunk", "allocation failed");
            st->done = i + 1;
        }
    });
    w->got.resize(1);
    auto* t = mc::make<Taker>(Taker{w, s, 1, false, {}, &w->got[0]});
    std::vector<uint64_t>* second = new std::vector<uint64_t>;
    mc::spawn([=] {
        s->user->unsubscribe();
        s->discover({p});
        int afterUnsub;
        {
            mc::Atomic a;
            afterUnsub = st->started; // later ones are not delivered
        }
        while (t->one())
            ;
        t->all();
        for (auto v : w->got[0])
            MC_CHECK((int)v < afterUnsub, "late-delivery", "sample %d delivered after the subscription ended", (int)v);
        int before;
        {
            mc::Atomic a;
            before = st->done;
        }
        s->connect({p});
        {
            mc::Atomic a;
            st->sentAtResub = st->started;
        }
        t->got = second;
        (void)before;
    });
    mc::joinAll();
    while (t->one())
        ;
    t->all();
    order(w->got[0]);
    order(*second);
    // everything sent after the re-subscription is delivered
    size_t expect = 3 - st->sentAtResub;
    MC_CHECK(second->size() >= expect, "lost", "only %zu samples after re-subscription, at least %zu were sent", second->size(), expect);
    for (size_t i = 0; i < second->size(); ++i)
        MC_CHECK((*second)[second->size() - 1 - i] == 2 - i, "gap", "gap in the received samples without overflow");
    p->roudi->releaseAllChunks();
    s->roudi->releaseAllChunks();
    w->mem->checkAllFree("after the run");
}
// sequential: all histories of allocate/send/release/take/release on one publisher and one subscriber with exhaustion
void histories(int depth)
{
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), 5}});
    const size_t cap = 2;
    const size_t hist = 1;
    auto* p = mc::make<Pub>(&mem->mgr, 0, pubOpts(hist, false));
    auto* s = mc::make<Sub>(false, false, subOpts(cap, 0, false));
    p->offer();
    s->connect({p});
    std::deque<mepoo::ChunkHeader*> loaned;
    std::deque<uint64_t> q;
    std::deque<std::pair<const mepoo::ChunkHeader*, uint64_t>> held;
    uint64_t n = 0;
    bool lost = false, refused = false;
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(6);
        switch (op)
        {
        case 0:
        {
            auto* h = p->alloc();
            mc::log("loan -> %p", (void*)h);
            MC_CHECK(!h || loaned.size() < MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY, "limit", "more loans than allowed");
            // distinct chunks in use: loans, queue, held, history, previous
            std::vector<uint64_t> live;
            for (auto v : q)
                live.push_back(v);
            for (auto& x : held)
                live.push_back(x.second);
            if (n > 0)
                live.push_back(n - 1);
            std::sort(live.begin(), live.end());
            live.erase(std::unique(live.begin(), live.end()), live.end());
            bool limit = loaned.size() >= MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY;
            MC_CHECK(h || limit || loaned.size() + live.size() >= 5, "spurious-exhaustion", "loan failed with %zu loans and %zu live samples of 5 chunks",
                     loaned.size(), live.size());
            refused |= !h;
            if (h)
            {
                for (auto* o : loaned)
                    MC_CHECK(o != h, "double-loan", "one chunk loaned twice");
                for (auto& x : held)
                    MC_CHECK(x.first != h, "double-owner", "a held sample is loaned again");
                loaned.push_back(h);
            }
            break;
        }
        case 1:
        case 2:
        {
            if (loaned.empty())
                mc::prune();
            auto* h = op == 1 ? loaned.front() : loaned.back();
            if (op == 2 && loaned.size() == 1)
                mc::prune();
            op == 1 ? loaned.pop_front() : loaned.pop_back();
            static_cast<Sample*>(h->userPayload())->set(n);
            p->user->sendChunk(h);
            MC_CHECK(h->sequenceNumber() == n, "sequence", "sequence number %llu instead of %llu", (unsigned long long)h->sequenceNumber(),
                     (unsigned long long)n);
            mc::log("send %llu", (unsigned long long)n);
            q.push_back(n++);
            if (q.size() > cap)
            {
                q.pop_front();
                lost = true;
            }
            break;
        }
        case 3:
            if (loaned.empty())
                mc::prune();
            p->user->releaseChunk(loaned.front());
            loaned.pop_front();
            mc::log("release loan");
            break;
        case 4:
        {
            MC_CHECK(s->user->hasNewChunks() == !q.empty(), "has-data", "hasNewChunks wrong");
            auto r = s->user->tryGetChunk();
            if (q.empty())
                MC_CHECK(r.has_error() && r.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE, "phantom", "took a sample from an empty queue");
            else if (held.size() >= MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY)
            {
                // one extra slot may exist; the sample is dropped and the error reported, or it is delivered
                if (r.has_error())
                {
                    MC_CHECK(r.error() == ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL, "limit", "wrong error");
                    q.pop_front();
                    refused = true;
                    mc::log("take: too many");
                    break;
                }
            }
            if (!r.has_error())
            {
                auto v = valueOf(r.value());
                MC_CHECK(v == q.front(), "order", "took %llu instead of %llu", (unsigned long long)v, (unsigned long long)q.front());
                q.pop_front();
                held.push_back({r.value(), v});
                mc::log("take %llu", (unsigned long long)v);
            }
            else
                MC_CHECK(q.empty(), "lost", "take failed although samples are queued");
            break;
        }
        case 5:
            if (held.empty())
                mc::prune();
            MC_CHECK(valueOf(held.front().first) == held.front().second, "overwritten", "held sample changed");
            s->user->releaseChunk(held.front().first);
            held.pop_front();
            mc::log("release");
            break;
        }
        for (auto& x : held)
            MC_CHECK(valueOf(x.first) == x.second, "overwritten", "held sample changed");
        auto pc = p->user->tryGetPreviousChunk();
        MC_CHECK(pc.has_value() == (n > 0) || n == 0, "previous", "previous chunk missing");
    }
    MC_CHECK(s->user->hasLostChunksSinceLastCall() == lost, "loss-flag", "loss indication wrong");
    MC_CHECK(sup::errors().count == 0 || refused, "error", "an error was reported for legal use");
    while (!held.empty())
    {
        s->user->releaseChunk(held.front().first);
        held.pop_front();
    }
    p->roudi->releaseAllChunks();
    s->roudi->releaseAllChunks();
    mem->checkAllFree("after the run");
}
// every loss is indicated by a call that returns after it happened, however the calls interleave with the losses
void lossIndication(bool multi, int n, int calls)
{
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{256, 8}});
    auto* p = mc::make<Pub>(&mem->mgr, 0, pubOpts(0, false));
    auto* s = mc::make<Sub>(multi, false, subOpts(1, 0, false));
    p->offer();
    s->connect({p});
    p->send(1);
    auto* started = mc::make<std::atomic<int>>(0);
    auto* covered = mc::make<int>(0);
    int f = mc::spawn([=] {
        for (int i = 0; i < n; ++i)
        {
            started->fetch_add(1, std::memory_order_relaxed);
            MC_CHECK(p->send((uint64_t)(2 + i)), "loan", "no chunk");
        }
    });
    int g = mc::spawn([=] {
        for (int i = 0; i < calls; ++i)
            if (s->user->hasLostChunksSinceLastCall())
            {
                *covered = started->load(std::memory_order_relaxed);
                MC_CHECK(*covered > 0, "loss-flag", "loss indicated although nothing was sent");
            }
    });
    mc::join(f);
    mc::join(g);
    bool last = s->user->hasLostChunksSinceLastCall();
    MC_CHECK(last || *covered == n, "loss-flag", "the last loss was never indicated");
    MC_CHECK(!s->user->hasLostChunksSinceLastCall(), "loss-flag", "the loss indication is not reset");
    mc::outcome((uint64_t)(*covered * 2 + last));
}
} // namespace

static mc::Opts S(int p, double s)
{
    auto o = B(p, s);
    o.spin = 250;
    return o;
}
// multi-producer queues (the default many-to-many build)
MC_SCENARIO(one_to_one_cap1, S(3, 60), S(4, 300)) { stream(1, 1, 1, 2, 2, 1, 1); }
MC_SCENARIO(one_to_one_cap2, S(2, 60), S(4, 300)) { stream(1, 1, 2, 3, 2, 1, 1); }
MC_SCENARIO(one_to_one_no_overflow_strict, S(2, 60), S(4, 300)) { stream(1, 1, 3, 3, 3, 0, 0); }
MC_SCENARIO(one_to_two, S(2, 60), S(3, 300)) { stream(1, 2, 2, 2, 2, 0, 0); }
MC_SCENARIO(two_to_one_cap1, S(2, 60), S(3, 300)) { stream(2, 1, 1, 2, 1, 0, 1); }
MC_SCENARIO(two_to_one_cap4_strict, S(2, 60), S(3, 300)) { stream(2, 1, 4, 2, 1, 0, 0); }
// single-producer queues (the one-to-many build)
MC_SCENARIO(sp_one_to_one_cap1, S(3, 60), S(5, 300)) { stream(1, 1, 1, 3, 2, 1, 1, false); }
MC_SCENARIO(sp_one_to_one_cap2, S(2, 60), S(5, 300)) { stream(1, 1, 2, 3, 2, 1, 1, false); }
MC_SCENARIO(sp_one_to_one_no_overflow_strict, S(2, 60), S(5, 300)) { stream(1, 1, 3, 3, 3, 0, 0, false); }
MC_SCENARIO(resubscribe_sp, B(3, 60), B(4, 300)) { resub(false); }
MC_SCENARIO(resubscribe_mp, B(3, 60), B(4, 300)) { resub(true); }
MC_SCENARIO(loss_indication_mp, S(3, 60), S(6, 300)) { lossIndication(true, 2, 2); }
MC_SCENARIO(loss_indication_sp, S(3, 60), S(6, 300)) { lossIndication(false, 2, 2); }
MC_SCENARIO(api_histories, B(0, 60), B(0, 400)) { histories(mc::thorough() ? 12 : 10); }
