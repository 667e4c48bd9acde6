// Blocking publishers: nothing is lost, the publisher continues as soon as the consumer made room or left.
#include "ports.hpp"
using namespace sup;

namespace
{
// like B but the busy-waiting publisher is scheduled away quickly
mc::Opts S(int p, double s)
{
    auto o = B(p, s);
    o.spin = 400;
    return o;
}
struct Take
{
    Sub* s;
    std::vector<uint64_t> got;
    bool one()
    {
        auto r = s->user->tryGetChunk();
        if (r.has_error())
        {
            MC_CHECK(r.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE, "spurious-limit", "receive error");
            return false;
        }
        auto v = valueOf(r.value());
        got.push_back(v);
        mc::log("sub%p takes %llu", (void*)s, (unsigned long long)v);
        s->user->releaseChunk(r.value());
        return true;
    }
};
// publisher 0 sends n samples, the other one n-1
int total(int nPub, int n)
{
    return nPub > 1 ? n + n - 1 : n;
}
void complete(const std::vector<uint64_t>& got, int nPub, int n, const char* who)
{
    MC_CHECK(got.size() == static_cast<size_t>(total(nPub, n)), "lost", "%s received %zu of %d samples", who, got.size(), total(nPub, n));
    std::vector<int> next(nPub, 0);
    for (auto v : got)
    {
        auto p = v >> 4;
        MC_CHECK((int)(v & 15) == next[p], "order", "%s received sample %llu of publisher %llu instead of %d", who, (unsigned long long)(v & 15),
                 (unsigned long long)p, next[p]);
        next[p]++;
    }
}
// all subscribers block: every sample arrives exactly once, in order
void allBlocking(int nPub, int nSub, size_t cap, int n, bool discardingSub = false)
{
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), static_cast<uint32_t>(nPub * 2 + nSub * (cap + 2) + 2)}});
    mem->promoteMgmt();
    std::vector<Pub*> pubs;
    std::vector<Take*> subs;
    for (int i = 0; i < nPub; ++i)
    {
        pubs.push_back(mc::make<Pub>(&mem->mgr, i, pubOpts(0, true)));
        pubs.back()->offer();
    }
    for (int i = 0; i < nSub; ++i)
    {
        auto* s = mc::make<Sub>(true, true, subOpts(cap, 0, true));
        nPub > 1 ? s->connect({pubs[0], pubs[1]}) : s->connect({pubs[0]});
        subs.push_back(mc::make<Take>(Take{s, {}}));
    }
    Take* disc = nullptr;
    if (discardingSub)
    {
        auto* s = mc::make<Sub>(true, false, subOpts(1, 0, false));
        mc::promote(s->data, sizeof(SubscriberPortData));
        nPub > 1 ? s->connect({pubs[0], pubs[1]}) : s->connect({pubs[0]});
        disc = mc::make<Take>(Take{s, {}});
    }
    for (auto* p : pubs)
        mc::spawn([=] {
            for (int i = 0; i < n - (int)p->id; ++i)
                MC_CHECK(p->send((p->id << 4) + i), "no-chunk", "allocation failed although the pool is large enough");
        });
    for (auto* t : subs)
        mc::spawn([=] {
            int k = 0;
            while (k < total(nPub, n))
                if (t->one())
                    ++k;
                else
                    mc::yield();
        });
    mc::joinAll();
    for (auto* t : subs)
    {
        MC_CHECK(!t->one(), "duplicate", "more samples than sent");
        complete(t->got, nPub, n, "blocking subscriber");
        uint64_t hh = 1;
        for (auto v : t->got)
            hh = mc::mix(hh, v);
        mc::outcome(hh);
        MC_CHECK(!t->s->user->hasLostChunksSinceLastCall(), "loss-flag", "loss reported although nothing was lost");
    }
    if (disc)
    {
        while (disc->one())
            ;
        MC_CHECK(!disc->got.empty() && disc->got.back() == (uint64_t)n - 1, "lost", "the discarding subscriber does not have the newest sample");
    }
    for (auto* p : pubs)
        p->roudi->releaseAllChunks();
    for (auto* t : subs)
        t->s->roudi->releaseAllChunks();
    if (disc)
        disc->s->roudi->releaseAllChunks();
    mem->checkAllFree("after the run");
}
// a blocked publisher continues when the slow subscriber unsubscribes; the other one still gets everything once
void leave(int nPub, bool other, bool byOffer)
{
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), 12}});
    mem->promoteMgmt();
    const int n = nPub > 1 || other ? 2 : 3;
    std::vector<Pub*> pubs;
    for (int i = 0; i < nPub; ++i)
    {
        pubs.push_back(mc::make<Pub>(&mem->mgr, i, pubOpts(0, true)));
        pubs.back()->offer();
    }
    auto* slow = mc::make<Sub>(true, true, subOpts(1, 0, true));
    nPub > 1 ? slow->connect({pubs[0], pubs[1]}) : slow->connect({pubs[0]});
    Take* o = nullptr;
    if (other)
    {
        auto* s = mc::make<Sub>(true, true, subOpts(1, 0, true));
        nPub > 1 ? s->connect({pubs[0], pubs[1]}) : s->connect({pubs[0]});
        o = mc::make<Take>(Take{s, {}});
    }
    std::vector<int> pf;
    for (auto* p : pubs)
        pf.push_back(mc::spawn([=] {
            for (int i = 0; i < n - (int)p->id; ++i)
                MC_CHECK(p->send((p->id << 4) + i), "no-chunk", "allocation failed");
        }));
    // RouDi: takes the slow subscriber away
    mc::spawn([=] {
        if (byOffer)
        {
            // the subscriber port is destroyed: RouDi unsubscribes on its behalf and drops what is queued
            slow->roudi->releaseAllChunks();
        }
        slow->user->unsubscribe();
        nPub > 1 ? slow->discover({pubs[0], pubs[1]}) : slow->discover({pubs[0]});
    });
    if (o)
        mc::spawn([=] {
            int k = 0;
            while (k < total(nPub, n))
                if (o->one())
                    ++k;
                else
                    mc::yield();
        });
    mc::joinAll(); // a publisher blocked forever is reported as livelock
    Take t{slow, {}};
    while (t.one())
        ;
    for (size_t i = 0; i < t.got.size(); ++i)
        if (nPub == 1 && !byOffer)
            MC_CHECK(t.got[i] == i, "order", "the leaving subscriber has a gap");
    MC_CHECK(t.got.size() <= 1, "overfull", "more samples queued than the capacity");
    if (o)
        complete(o->got, nPub, n, "remaining subscriber");
    for (auto* p : pubs)
        p->roudi->releaseAllChunks();
    slow->roudi->releaseAllChunks();
    if (o)
        o->s->roudi->releaseAllChunks();
    mem->checkAllFree("after the run");
}
// a subscriber which connects while a publisher is blocked by another one gets every sample from some point on exactly
// once, and nothing is lost for the slow one
void join(int history, bool lateBlocks)
{
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), 12}});
    mem->promoteMgmt();
    const int n = 3;
    auto* pub = mc::make<Pub>(&mem->mgr, 0, pubOpts(history, true));
    pub->offer();
    auto* slow = mc::make<Sub>(true, true, subOpts(1, 0, true));
    slow->connect({pub});
    Take* st = mc::make<Take>(Take{slow, {}});
    auto* late = mc::make<Sub>(true, lateBlocks, subOpts(4, history, lateBlocks));
    if (!lateBlocks)
        mc::promote(late->data, sizeof(SubscriberPortData));
    Take* lt = mc::make<Take>(Take{late, {}});
    bool* in = mc::make<bool>(false);
    mc::ignore(in, 1);
    int pf = mc::spawn([=] {
        for (int i = 0; i < n; ++i)
            MC_CHECK(pub->send(i), "no-chunk", "allocation failed");
    });
    (void)pf;
    mc::spawn([=] {
        late->connect({pub});
        *in = true;
    });
    mc::spawn([=] {
        // takes its time: the publisher retries several times with the new subscriber in the list
        int k = 0;
        while (k < n)
        {
            for (int i = 0; i < 3; ++i)
                mc::yield();
            if (st->one())
                ++k;
        }
    });
    mc::joinAll();
    MC_CHECK(!st->one(), "duplicate", "more samples than sent");
    complete(st->got, 1, n, "slow subscriber");
    while (lt->one())
        ;
    MC_CHECK(lt->got.size() <= (size_t)n, "duplicate", "the joining subscriber received %zu samples, %d were sent", lt->got.size(), n);
    for (size_t i = 0; i < lt->got.size(); ++i)
        MC_CHECK(lt->got[i] == n - lt->got.size() + i, "order", "the joining subscriber received sample %lu at place %zu of %zu", (unsigned long)lt->got[i], i, lt->got.size());
    MC_CHECK(!late->user->hasLostChunksSinceLastCall() && !slow->user->hasLostChunksSinceLastCall(), "loss-flag", "loss reported although nothing was lost");
    mc::outcome(lt->got.size());
    pub->roudi->releaseAllChunks();
    slow->roudi->releaseAllChunks();
    late->roudi->releaseAllChunks();
    mem->checkAllFree("after the run");
}
// incompatible policies must not block: a discarding publisher never waits
void discardingPublisher()
{
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), 6}});
    mem->promoteMgmt();
    auto* p = mc::make<Pub>(&mem->mgr, 0, pubOpts(0, false));
    p->offer();
    auto* s = mc::make<Sub>(true, false, subOpts(1, 0, false));
    mc::promote(s->data, sizeof(SubscriberPortData));
    s->connect({p});
    mc::spawn([=] {
        for (int i = 0; i < 3; ++i)
            MC_CHECK(p->send(i), "no-chunk", "allocation failed");
    });
    mc::joinAll();
    Take t{s, {}};
    while (t.one())
        ;
    MC_CHECK(t.got.size() == 1 && t.got[0] == 2, "lost", "newest sample missing");
}
} // namespace

MC_SCENARIO(one_to_one_cap1, S(2, 60), S(4, 300)) { allBlocking(1, 1, 1, 3); }
MC_SCENARIO(one_to_one_cap2, S(2, 60), S(4, 300)) { allBlocking(1, 1, 2, 3); }
MC_SCENARIO(one_to_two_cap1, S(1, 60), S(2, 300)) { allBlocking(1, 2, 1, 2); }
MC_SCENARIO(two_to_one_cap1, S(1, 60), S(2, 300)) { allBlocking(2, 1, 1, 2); }
MC_SCENARIO(mixed_policies, S(2, 60), S(3, 300)) { allBlocking(1, 1, 1, 3, true); }
MC_SCENARIO(blocked_then_unsubscribe, S(3, 60), S(5, 300)) { leave(1, false, mc::choose(2)); }
MC_SCENARIO(blocked_then_unsubscribe_other_stays, S(1, 60), S(2, 300)) { leave(1, true, mc::choose(2)); }
MC_SCENARIO(two_blocked_then_unsubscribe, S(1, 60), S(2, 300)) { leave(2, false, mc::choose(2)); }
MC_SCENARIO(discarding_never_waits, S(0, 60), S(0, 60)) { discardingPublisher(); }
MC_SCENARIO(join_while_blocked, S(1, 60), S(2, 600)) { join(0, true); }
MC_SCENARIO(join_while_blocked_history, S(1, 60), S(2, 600)) { join(2, true); }
MC_SCENARIO(join_while_blocked_discarding, S(1, 60), S(2, 600)) { join(1, false); }
