// Late joiners: the history is delivered exactly, without gap or duplicate against the live samples.
#include "ports.hpp"
#include <deque>
using namespace sup;

namespace
{
mc::Opts S(int p, double s)
{
    auto o = B(p, s);
    o.spin = 400;
    return o;
}
std::vector<uint64_t> drain(Sub* s, std::vector<uint64_t> r = {})
{
    for (;;)
    {
        auto c = s->user->tryGetChunk();
        if (c.has_error())
            return r;
        r.push_back(valueOf(c.value()));
        s->user->releaseChunk(c.value());
    }
}
// n samples are sent while a subscriber joins
void join(uint64_t hist, uint64_t req, bool multi, bool two)
{
    const int n = 3;
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), 14}});
    mem->promoteMgmt();
    auto* p = mc::make<Pub>(&mem->mgr, 0, pubOpts(hist, false));
    p->offer();
    struct St
    {
        int started{0}, done{0};
        int doneAtJoin[2]{0, 0}, startedAtJoined[2]{0, 0};
    };
    auto* st = new St;
    // one sample was sent before
    p->send(0);
    st->started = st->done = 1;
    mc::spawn([=] {
        for (int i = 1; i < n + 1; ++i)
        {
            {
                mc::Atomic a;
                st->started = i + 1;
            }
            MC_CHECK(p->send(i), "no-chunk", "allocation failed");
            {
                mc::Atomic a;
                st->done = i + 1;
            }
        }
    });
    std::vector<Sub*> subs;
    for (int i = 0; i < 1 + two; ++i)
        subs.push_back(mc::make<Sub>(multi, false, subOpts(4, req, false)));
    mc::spawn([=] {
        for (size_t i = 0; i < subs.size(); ++i)
        {
            {
                mc::Atomic a;
                st->doneAtJoin[i] = st->done;
            }
            subs[i]->connect({p});
            {
                mc::Atomic a;
                st->startedAtJoined[i] = st->started;
            }
        }
    });
    mc::joinAll();
    auto eff = std::min(hist, req);
    for (size_t i = 0; i < subs.size(); ++i)
    {
        auto got = drain(subs[i]);
        // contiguous up to the newest
        for (size_t k = 0; k < got.size(); ++k)
            MC_CHECK(got[got.size() - 1 - k] == n - k, "gap", "subscriber %zu received %zu samples with a gap or duplicate (position %zu: %llu)", i,
                     got.size(), got.size() - 1 - k, (unsigned long long)got[got.size() - 1 - k]);
        // first sample: between what was complete when joining began and what had begun when joining ended
        mc::outcome(mc::mix(i, got.size()));
        int first = n + 1 - static_cast<int>(got.size());
        int lo = std::max(0, st->doneAtJoin[i] - (int)eff);
        int hi = std::max(0, st->startedAtJoined[i] - (int)eff);
        MC_CHECK(first <= hi, "history-short", "joined between %d and %d samples with history %d but first received sample is %d", st->doneAtJoin[i],
                 st->startedAtJoined[i], (int)eff, first);
        MC_CHECK(first >= lo, "history-long", "joined between %d and %d samples with history %d but first received sample is %d", st->doneAtJoin[i],
                 st->startedAtJoined[i], (int)eff, first);
    }
    for (auto* s : subs)
        s->roudi->releaseAllChunks();
    p->roudi->releaseAllChunks();
    mem->checkAllFree("after the run");
}
// a subscriber joins while the publisher is blocked on another one
void joinWhileBlocked(uint64_t hist, uint64_t req)
{
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), 14}});
    mem->promoteMgmt();
    auto* p = mc::make<Pub>(&mem->mgr, 0, pubOpts(hist, true));
    p->offer();
    auto* slow = mc::make<Sub>(true, true, subOpts(1, 0, true));
    slow->connect({p});
    p->send(0);
    struct St
    {
        int started{1}, done{1};
        int doneAtJoin{0}, startedAtJoined{0};
    };
    auto* st = new St;
    auto* late = mc::make<Sub>(true, false, subOpts(4, req, false));
    mc::spawn([=] {
        for (int i = 1; i < 3; ++i)
        {
            {
                mc::Atomic a;
                st->started = i + 1;
            }
            MC_CHECK(p->send(i), "no-chunk", "allocation failed");
            {
                mc::Atomic a;
                st->done = i + 1;
            }
        }
    });
    mc::spawn([=] {
        {
            mc::Atomic a;
            st->doneAtJoin = st->done;
        }
        late->connect({p});
        {
            mc::Atomic a;
            st->startedAtJoined = st->started;
        }
    });
    auto* sg = new std::vector<uint64_t>;
    mc::spawn([=] {
        while (sg->size() < 3)
        {
            auto b = sg->size();
            *sg = drain(slow, *sg);
            if (sg->size() == b)
                mc::yield();
        }
    });
    mc::joinAll();
    auto eff = std::min(hist, req);
    auto got = drain(late);
    for (size_t k = 0; k < got.size(); ++k)
        MC_CHECK(got[got.size() - 1 - k] == 2 - k, "gap", "late joiner received %zu samples with a gap or duplicate", got.size());
    int first = 3 - static_cast<int>(got.size());
    MC_CHECK(first <= std::max(0, st->startedAtJoined - (int)eff), "history-short", "late joiner misses sample(s) before %d", first);
    MC_CHECK(first >= std::max(0, st->doneAtJoin - (int)eff) - 0, "history-long", "late joiner got too much history");
    for (size_t k = 0; k < sg->size(); ++k)
        MC_CHECK((*sg)[k] == k, "gap", "blocking subscriber has a gap");
    slow->roudi->releaseAllChunks();
    late->roudi->releaseAllChunks();
    p->roudi->releaseAllChunks();
    mem->checkAllFree("after the run");
}
// sequential: all histories of send / (stop) offer / subscribe / unsubscribe with every history setting
void histories(int depth)
{
    const uint64_t hist = mc::choose(3);
    const uint64_t req = mc::choose(4);
    const bool multi = mc::choose(2);
    const size_t cap = 1 + mc::choose(3);
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), 10}});
    auto* p = mc::make<Pub>(&mem->mgr, 0, pubOpts(hist, false));
    auto* s = mc::make<Sub>(multi, false, subOpts(cap, req, false));
    bool offered = false, sub = false;
    std::deque<uint64_t> h, q;
    uint64_t n = 0;
    auto enq = [&](uint64_t v) {
        q.push_back(v);
        if (q.size() > cap)
            q.pop_front();
    };
    auto replay = [&] {
        size_t k = std::min<size_t>(req, h.size());
        for (size_t i = h.size() - k; i < h.size(); ++i)
            enq(h[i]);
    };
    for (int d = 0; d < depth; ++d)
    {
        switch (mc::choose(5))
        {
        case 0:
            MC_CHECK(p->send(n), "no-chunk", "allocation failed");
            mc::log("send %llu", (unsigned long long)n);
            if (offered && sub)
                enq(n);
            h.push_back(n++);
            if (h.size() > hist)
                h.pop_front();
            break;
        case 1:
            offered ? p->user->stopOffer() : p->user->offer();
            offered = !offered;
            mc::log("offer=%d", offered);
            {
                auto m = p->roudi->tryGetCaProMessage();
                MC_CHECK(m.has_value(), "capro", "no message");
                auto r = s->roudi->dispatchCaProMessageAndGetPossibleResponse(*m);
                if (r.has_value())
                {
                    auto a = p->roudi->dispatchCaProMessageAndGetPossibleResponse(*r);
                    if (a.has_value())
                        (void)s->roudi->dispatchCaProMessageAndGetPossibleResponse(*a);
                }
            }
            if (offered && sub)
                replay();
            break;
        case 2:
            sub ? s->user->unsubscribe() : s->user->subscribe();
            sub = !sub;
            mc::log("subscribed=%d", sub);
            s->discover({p});
            if (sub)
            {
                q.clear();
                if (offered)
                    replay();
            }
            break;
        case 3:
        {
            auto c = s->user->tryGetChunk();
            MC_CHECK(c.has_error() == q.empty(), "lost", "take returned %s but %zu samples are expected", c.has_error() ? "nothing" : "a sample",
                     q.size());
            if (!c.has_error())
            {
                MC_CHECK(valueOf(c.value()) == q.front(), "order", "took %llu instead of %llu", (unsigned long long)valueOf(c.value()),
                         (unsigned long long)q.front());
                q.pop_front();
                s->user->releaseChunk(c.value());
            }
            break;
        }
        case 4:
            MC_CHECK(p->user->hasSubscribers() == (offered && sub), "subscribers", "hasSubscribers wrong");
            MC_CHECK((s->user->getSubscriptionState() == SubscribeState::SUBSCRIBED) == (multi ? sub : offered && sub), "state", "subscription state wrong");
            MC_CHECK(s->user->hasNewChunks() == !q.empty(), "has-data", "hasNewChunks wrong");
            break;
        }
    }
    auto rest = drain(s);
    MC_CHECK(rest == std::vector<uint64_t>(q.begin(), q.end()), "lost", "the remaining samples differ from the expected ones");
    s->roudi->releaseAllChunks();
    p->roudi->releaseAllChunks();
    mem->checkAllFree("after the run");
}
} // namespace
MC_SCENARIO(join_h1_r1, S(3, 60), S(5, 300)) { join(1, 1, false, false); }
MC_SCENARIO(join_h2_r2_mp, S(3, 60), S(5, 300)) { join(2, 2, true, false); }
MC_SCENARIO(join_h2_r1, S(3, 60), S(5, 300)) { join(2, 1, false, false); }
MC_SCENARIO(join_h0_r1, S(3, 60), S(5, 300)) { join(0, 1, false, false); }
MC_SCENARIO(join_two, S(3, 60), S(5, 300)) { join(2, 2, false, true); }
MC_SCENARIO(join_while_blocked, S(1, 60), S(2, 300)) { joinWhileBlocked(1, 1); }
MC_SCENARIO(settings_and_histories, S(0, 60), S(0, 300)) { histories(mc::thorough() ? 7 : 6); }
