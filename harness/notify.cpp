// Notifications: whatever is notified is seen by a waiting listener / wait set, and nothing else is.
#include "ports.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/condition_listener.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/condition_notifier.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
using namespace sup;
using namespace iox::units::duration_literals;

namespace
{
struct WS : WaitSet<4>
{
    explicit WS(ConditionVariableData& d)
        : WaitSet<4>(d)
    {
    }
};
ConditionVariableData* cv()
{
    return mc::make<ConditionVariableData>(RuntimeName_t("app"));
}
// a user class with a state and an event, as the attorney expects it
class Origin
{
  public:
    std::atomic<bool> state{false};
    TriggerHandle ev, st;
    void enableEvent(TriggerHandle&& h) noexcept { ev = std::move(h); }
    void disableEvent() noexcept { ev.reset(); }
    void enableState(TriggerHandle&& h) noexcept { st = std::move(h); }
    void disableState() noexcept { st.reset(); }
    void invalidateTrigger(const uint64_t id) noexcept
    {
        if (ev.getUniqueId() == id)
            ev.invalidate();
        if (st.getUniqueId() == id)
            st.invalidate();
    }
    bool isSet() const noexcept { return state.load(); }
    WaitSetIsConditionSatisfiedCallback getCallbackForIsStateConditionSatisfied() const noexcept
    {
        return WaitSetIsConditionSatisfiedCallback(iox::in_place, *this, &Origin::isSet);
    }
};
mc::Opts S(int p, double s)
{
    auto o = B(p, s);
    o.spin = 400;
    return o;
}
mc::Opts T(int p, int jumps, double s)
{
    auto o = S(p, s);
    o.timejump = jumps;
    return o;
}
// notifiers publish data and notify; the listener must come to see the last data of each without being woken otherwise
void listener(int nNot, int rounds, bool timed, const std::vector<uint64_t>& idx)
{
    auto* c = cv();
    auto* l = mc::make<ConditionListener>(*c);
    struct D
    {
        std::atomic<int> ann{0};
        uint64_t plain[3]{};
    };
    auto* data = new D[4];
    auto* cnt = new int[4]();
    for (int i = 0; i < nNot; ++i)
        mc::spawn([=] {
            ConditionNotifier n(*c, idx[i]);
            for (int r = 1; r <= rounds; ++r)
            {
                if (rounds == 1)
                    for (auto& x : data[i].plain)
                        x = r; // must be visible to the woken listener without further synchronisation
                data[i].ann.store(r, std::memory_order_relaxed);
                n.notify();
            }
        });
    mc::spawn([=] {
        for (;;)
        {
            bool all = true;
            for (int i = 0; i < nNot; ++i)
                all = all && cnt[i] == rounds;
            if (all)
                break;
            auto v = timed ? l->timedWait(10_ms) : l->wait();
            MC_CHECK(timed || !v.empty(), "empty-wakeup", "wait() returned without any notification");
            for (size_t a = 0; a < v.size(); ++a)
                for (size_t b = a + 1; b < v.size(); ++b)
                    MC_CHECK(v[a] < v[b], "order", "notification indices not sorted and unique");
            for (auto e : v)
            {
                int i = -1;
                for (int k = 0; k < nNot; ++k)
                    if (idx[k] == e)
                        i = k;
                MC_CHECK(i >= 0, "phantom", "index %d was never notified", (int)e);
                int x = data[i].ann.load(std::memory_order_relaxed);
                MC_CHECK(x > 0, "phantom", "index %d reported before it was notified", (int)e);
                if (rounds == 1)
                    for (auto& y : data[i].plain)
                        MC_CHECK(y == 1, "stale", "data written before the notification is not visible");
                cnt[i] = x;
            }
        }
    });
    mc::joinAll();
    MC_CHECK(true, "x", "x");
    // at most one unconsumed notification per index may be left, and only for notified ones
    auto v = l->timedWait(0_ns);
    for (auto e : v)
        MC_CHECK(std::find(idx.begin(), idx.begin() + nNot, e) != idx.begin() + nNot, "phantom", "left-over index never notified");
    MC_CHECK(l->timedWait(0_ns).empty(), "phantom", "notification reported twice");
}
// events triggered by other threads while a state of the same wait set stays satisfied
void waitset(int events, bool withState, int stateAt, bool timed, int retrig)
{
    auto* c = cv();
    auto* w = mc::make<WS>(*c);
    auto* ut = new UserTrigger[3];
    auto* o = new Origin;
    for (int i = 0, k = 0; i < events + withState; ++i)
    {
        // attach order decides the index
        bool ok = (withState && i == stateAt) ? !w->attachState(*o, 100U).has_error() : !w->attachEvent(ut[k], static_cast<uint64_t>(k)).has_error();
        MC_CHECK(ok, "attach", "attach failed");
        k += !(withState && i == stateAt);
    }
    struct Cnt
    {
        std::atomic<int> done{0};
    };
    auto* trig = new Cnt[3];
    for (int i = 0; i < events; ++i)
        mc::spawn([=] {
            for (int r = 0; r < retrig; ++r)
            {
                trig[i].done.fetch_add(1, std::memory_order_relaxed);
                ut[i].trigger();
            }
        });
    if (withState)
        mc::spawn([=] {
            o->state = true;
            o->st.trigger();
        });
    mc::spawn([=] {
        int seen[3] = {};
        int stateSeen = 0, rounds = 0, empty = 0;
        for (;;)
        {
            bool all = true;
            for (int i = 0; i < events; ++i)
                all = all && seen[i] == retrig;
            if (withState && !stateSeen)
                all = false;
            if (all)
                break;
            auto v = timed ? w->timedWait(10_ms) : w->wait();
            MC_CHECK(timed || !v.empty(), "empty-wakeup", "wait() returned nothing");
            bool dup[4] = {};
            bool progress = false;
            for (auto* n : v)
            {
                auto id = n->getNotificationId();
                int slot = id == 100 ? 3 : static_cast<int>(id);
                MC_CHECK(!dup[slot], "duplicate", "one attachment reported twice in one vector");
                dup[slot] = true;
                if (id == 100)
                {
                    MC_CHECK(o->state.load(), "phantom", "state reported although not satisfied");
                    progress = progress || !stateSeen;
                    stateSeen++;
                }
                else
                {
                    MC_CHECK(n->doesOriginateFrom(&ut[id]), "origin", "wrong origin");
                    int t = trig[id].done.load(std::memory_order_relaxed);
                    MC_CHECK(t > 0, "phantom", "event %d reported before it was triggered", (int)id);
                    seen[id] = t;
                    progress = true;
                }
            }
            // the state stays satisfied, so wait() does not block any more: nothing else may be starved by that
            if (!progress)
            {
                if (++rounds > 2)
                {
                    mc::quiesce();
                    if (++empty > 3)
                        mc::fail("lost", "an event triggered long ago is not reported although wait() keeps returning");
                }
            }
        }
        if (withState)
        {
            // still satisfied and already known: wait() must not block
            auto v = w->wait();
            bool f = false;
            for (auto* n : v)
                f = f || n->getNotificationId() == 100;
            MC_CHECK(f, "state-lost", "a satisfied state is not reported any more");
        }
    });
    mc::joinAll();
    for (int i = 0; i < 3; ++i)
        w->detachEvent(ut[i]);
    if (withState)
        w->detachState(*o);
    MC_CHECK(w->size() == 0, "size", "size after detaching everything");
}
// subscribers attached to a wait set: every sample wakes the waiting thread
void data(bool state, int subs, bool blocking)
{
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), 12}});
    mem->promoteMgmt();
    auto* c = cv();
    auto* l = mc::make<ConditionListener>(*c);
    (void)state;
    const int n = 2;
    std::vector<Pub*> ps;
    std::vector<Sub*> ss;
    for (int i = 0; i < subs; ++i)
    {
        auto* p = mc::make<Pub>(&mem->mgr, i, pubOpts(0, blocking));
        p->offer();
        auto* s = mc::make<Sub>(true, blocking, subOpts(blocking ? 1 : 3, 0, blocking));
        s->connect({p});
        ps.push_back(p);
        ss.push_back(s);
    }
    // one of them already has data when it is attached: the user attaches, then looks
    for (int i = 0; i < subs; ++i)
        mc::spawn([=] {
            for (int k = 0; k < n; ++k)
                MC_CHECK(ps[i]->send(k), "no-chunk", "allocation failed");
        });
    mc::spawn([=] {
        std::vector<int> got(subs, 0);
        for (int i = 0; i < subs; ++i)
            ss[i]->user->setConditionVariable(*c, i);
        auto take = [&](int i) {
            for (;;)
            {
                auto r = ss[i]->user->tryGetChunk();
                if (r.has_error())
                    break;
                MC_CHECK((int)valueOf(r.value()) == got[i], "order", "sample out of order");
                got[i]++;
                ss[i]->user->releaseChunk(r.value());
            }
        };
        for (int i = 0; i < subs; ++i)
            take(i);
        for (;;)
        {
            bool all = true;
            for (auto g : got)
                all = all && g == n;
            if (all)
                break;
            auto v = l->wait();
            for (auto e : v)
            {
                MC_CHECK(e < (unsigned)subs, "phantom", "unknown index");
                take(e);
            }
        }
    });
    mc::joinAll();
    for (auto* s : ss)
    {
        s->user->unsetConditionVariable();
        s->roudi->releaseAllChunks();
    }
    for (auto* p : ps)
        p->roudi->releaseAllChunks();
    mem->checkAllFree("after the run");
}
// a subscriber which does not take its samples is notified about every further one, also when its queue overflows
void overflow()
{
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{sizeof(Sample), 12}});
    mem->promoteMgmt();
    auto* c = cv();
    auto* l = mc::make<ConditionListener>(*c);
    int cap = 1 + mc::choose(2);
    auto* p = mc::make<Pub>(&mem->mgr, 0, pubOpts(0, false));
    p->offer();
    auto* s = mc::make<Sub>(true, false, subOpts(cap, 0, false));
    mc::promote(s->data, sizeof(SubscriberPortData));
    s->connect({p});
    int before = mc::choose(4); // samples already queued when the listener is attached
    int k = 0;
    for (; k < before; ++k)
        MC_CHECK(p->send(k), "no-chunk", "allocation failed");
    int idx = mc::choose(2) * 3;
    s->user->setConditionVariable(*c, (uint64_t)idx);
    MC_CHECK(l->timedWait(0_ns).empty(), "phantom", "a notification without a new sample");
    for (int i = 0; i < 4; ++i, ++k)
    {
        MC_CHECK(p->send(k), "no-chunk", "allocation failed");
        auto v = l->timedWait(0_ns);
        MC_CHECK(v.size() == 1 && v[0] == idx, "lost", "no notification about sample %d with a queue of capacity %d", k, cap);
        MC_CHECK(l->timedWait(0_ns).empty(), "phantom", "notification reported twice");
        if (mc::choose(2))
        {
            auto r = s->user->tryGetChunk();
            MC_CHECK(!r.has_error(), "no-data", "no sample after a notification");
            s->user->releaseChunk(r.value());
        }
    }
    s->user->unsetConditionVariable();
    MC_CHECK(p->send(k), "no-chunk", "allocation failed");
    MC_CHECK(l->timedWait(0_ns).empty(), "phantom", "a notification after the detachment");
    s->roudi->releaseAllChunks();
    p->roudi->releaseAllChunks();
    mem->checkAllFree("after the run");
}
// destruction wakes a waiting thread
void destroy(bool listenerOnly, bool withTrigger)
{
    auto* c = cv();
    auto* w = mc::make<WS>(*c);
    auto* l = mc::make<ConditionListener>(*c);
    auto* ut = new UserTrigger;
    if (!listenerOnly)
        MC_CHECK(!w->attachEvent(*ut, 1U).has_error(), "attach", "attach failed");
    int wt = mc::spawn([=] {
        for (int i = 0; i < 2; ++i)
        {
            auto n = listenerOnly ? l->wait().size() : w->wait().size();
            if (n == 0)
                return;
        }
    });
    mc::spawn([=] { listenerOnly ? l->destroy() : w->markForDestruction(); });
    if (withTrigger)
        mc::spawn([=] { listenerOnly ? ConditionNotifier(*c, 0).notify() : ut->trigger(); });
    mc::joinAll();
    MC_CHECK(mc::done(wt), "stuck", "waiter did not return");
    // and it never blocks again
    if (listenerOnly)
        (void)l->wait();
    else
        (void)w->wait();
}
} // namespace
MC_SCENARIO(listener_1x2, S(6, 60), S(8, 300)) { listener(1, 2, false, {2}); }
MC_SCENARIO(listener_2x1, S(4, 60), S(5, 300)) { listener(2, 1, false, {0, 3}); }
MC_SCENARIO(listener_2x2, S(3, 60), S(4, 300)) { listener(2, 2, false, {3, 1}); }
MC_SCENARIO(listener_3x1, S(2, 60), S(3, 300)) { listener(3, 1, false, {1, 0, 2}); }
MC_SCENARIO(listener_timed, T(3, 1, 60), T(3, 2, 300)) { listener(2, 1, true, {0, 1}); }
MC_SCENARIO(waitset_events, S(4, 60), S(3, 300)) { waitset(2, false, 0, false, 1); }
MC_SCENARIO(waitset_retrigger, S(4, 60), S(4, 300)) { waitset(1, false, 0, false, 2); }
MC_SCENARIO(waitset_state_first, S(3, 60), S(3, 300)) { waitset(1, true, 0, false, 1); }
MC_SCENARIO(waitset_state_last, S(3, 60), S(3, 300)) { waitset(1, true, 1, false, 1); }
MC_SCENARIO(waitset_state_mid, S(2, 60), S(3, 300)) { waitset(2, true, 1, false, 1); }
MC_SCENARIO(waitset_timed, T(3, 1, 60), T(3, 2, 300)) { waitset(1, true, 1, true, 1); }
MC_SCENARIO(data_one, S(2, 60), S(4, 300)) { data(false, 1, false); }
MC_SCENARIO(data_two, S(1, 60), S(3, 300)) { data(false, 2, false); }
MC_SCENARIO(data_blocking, S(2, 60), S(3, 300)) { data(false, 1, true); }
MC_SCENARIO(data_overflow, S(0, 60), S(0, 300)) { overflow(); }
MC_SCENARIO(destroy_listener, S(5, 60), S(6, 300)) { destroy(true, true); }
MC_SCENARIO(destroy_waitset, S(5, 60), S(6, 300)) { destroy(false, true); }
