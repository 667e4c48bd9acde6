// Wait set life cycle: all histories of attach / detach / trigger / wait / destruction against a reference model.
#include "ports.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
using namespace sup;
using namespace iox::units::duration_literals;

namespace
{
template <uint64_t N>
struct WS : WaitSet<N>
{
    explicit WS(ConditionVariableData& d)
        : WaitSet<N>(d)
    {
    }
};
class Origin
{
  public:
    bool state{false};
    TriggerHandle st;
    void enableState(TriggerHandle&& h) noexcept { st = std::move(h); }
    void disableState() noexcept { st.reset(); }
    void invalidateTrigger(const uint64_t id) noexcept
    {
        if (st.getUniqueId() == id)
            st.invalidate();
    }
    bool isSet() const noexcept { return state; }
    WaitSetIsConditionSatisfiedCallback getCallbackForIsStateConditionSatisfied() const noexcept
    {
        return WaitSetIsConditionSatisfiedCallback(iox::in_place, *this, &Origin::isSet);
    }
};
struct Ctx
{
    int id;
    int calls{0};
};
void evCb(UserTrigger* const, Ctx* const c) { c->calls++; }
void stCb(Origin* const, Ctx* const c) { c->calls++; }

// objects 0..nEv-1 are events, the rest states; sets 0..nWs-1
void histories(int nEv, int nSt, int nWs, int depth, bool destroyOps)
{
    constexpr uint64_t CAP = 2;
    const int n = nEv + nSt;
    ConditionVariableData* cvd[2];
    WS<CAP>* ws[2];
    for (int i = 0; i < nWs; ++i)
    {
        cvd[i] = mc::make<ConditionVariableData>(RuntimeName_t("app"));
        ws[i] = mc::make<WS<CAP>>(*cvd[i]);
    }
    UserTrigger* ev[3];
    Origin* st[3];
    Ctx ctx[3];
    int at[3];     // wait set index or -1
    bool pend[3];  // event triggered since attached and not reported
    for (int i = 0; i < n; ++i)
    {
        at[i] = -1;
        pend[i] = false;
        ctx[i].id = i;
        if (i < nEv)
            ev[i] = mc::make<UserTrigger>();
        else
            st[i] = mc::make<Origin>();
    }
    auto sizeOf = [&](int w) {
        uint64_t k = 0;
        for (int i = 0; i < n; ++i)
            k += at[i] == w;
        return k;
    };
    auto wait = [&](int w) {
        auto v = ws[w]->timedWait(0_ns);
        bool seen[3] = {};
        for (auto* x : v)
        {
            auto id = x->getNotificationId() - 10;
            MC_CHECK(id < (uint64_t)n, "phantom", "unknown notification id");
            MC_CHECK(!seen[id], "duplicate", "reported twice in one vector");
            seen[id] = true;
            int before = ctx[id].calls;
            MC_CHECK((*x)() && ctx[id].calls == before + 1, "callback", "the callback of the notification was not called");
            MC_CHECK(at[id] == w, "phantom", "object %d is reported by wait set %d but attached to %d", (int)id, w, at[id]);
            MC_CHECK(static_cast<int>(id) < nEv ? x->doesOriginateFrom(ev[id]) : x->doesOriginateFrom(st[id]), "origin", "wrong origin");
        }
        for (int i = 0; i < n; ++i)
        {
            bool exp = at[i] == w && (i < nEv ? pend[i] : st[i]->state);
            MC_CHECK(seen[i] == exp, exp ? "lost" : "phantom", "object %d %s", i,
                     exp ? "is triggered but not reported" : "is reported although it was not triggered since it was attached");
            if (i < nEv && at[i] == w)
                pend[i] = false;
        }
    };
    const int nOps = n * nWs + n + n + nWs + (destroyOps ? nWs + n : 0);
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(nOps);
        if (op < n * nWs)
        {
            int i = op / nWs, w = op % nWs;
            bool already = at[i] == w;
            bool full = sizeOf(w) == CAP;
            auto r = i < nEv ? ws[w]->attachEvent(*ev[i], 10U + i, createNotificationCallback(evCb, ctx[i]))
                             : ws[w]->attachState(*st[i], 10U + i, createNotificationCallback(stCb, ctx[i]));
            mc::log("attach %d to %d: %d", i, w, !r.has_error());
            MC_CHECK(r.has_error() == (already || full), "attach", "attach of object %d to wait set %d %s", i, w,
                     r.has_error() ? "failed" : "succeeded although it is full or attached already");
            if (r.has_error())
            {
                MC_CHECK(r.error() == (already ? WaitSetError::ALREADY_ATTACHED : WaitSetError::WAIT_SET_FULL), "attach", "wrong error");
            }
            else
            {
                at[i] = w; // an origin is attached to at most one wait set; the previous attachment ends
                pend[i] = false;
            }
            continue;
        }
        op -= n * nWs;
        if (op < n)
        {
            mc::log("detach %d", op);
            op < nEv ? ws[0]->detachEvent(*ev[op]) : ws[0]->detachState(*st[op]);
            at[op] = -1;
            pend[op] = false;
            continue;
        }
        op -= n;
        if (op < n)
        {
            if (op < nEv)
            {
                mc::log("trigger %d", op);
                ev[op]->trigger();
                pend[op] = at[op] >= 0;
            }
            else
            {
                st[op]->state = !st[op]->state;
                mc::log("state %d = %d", op, st[op]->state);
                if (st[op]->state)
                    st[op]->st.trigger();
            }
            continue;
        }
        op -= n;
        if (op < nWs)
        {
            mc::log("wait %d", op);
            wait(op);
            continue;
        }
        op -= nWs;
        if (op < nWs)
        {
            mc::log("recreate wait set %d", op);
            ws[op]->~WS<CAP>();
            cvd[op] = mc::make<ConditionVariableData>(RuntimeName_t("app"));
            ws[op] = mc::make<WS<CAP>>(*cvd[op]);
            for (int i = 0; i < n; ++i)
                if (at[i] == op)
                {
                    at[i] = -1;
                    pend[i] = false;
                }
            continue;
        }
        op -= nWs;
        mc::log("recreate object %d", op);
        if (op < nEv)
        {
            ev[op]->~UserTrigger();
            ev[op] = new (ev[op]) UserTrigger();
        }
        else
        {
            st[op]->~Origin();
            st[op] = new (st[op]) Origin();
        }
        at[op] = -1;
        pend[op] = false;
    }
    for (int w = 0; w < nWs; ++w)
    {
        MC_CHECK(ws[w]->size() == sizeOf(w), "size", "wait set %d reports size %d instead of %d", w, (int)ws[w]->size(), (int)sizeOf(w));
        wait(w);
        wait(w);
    }
    // everything is usable again
    for (int i = 0; i < n; ++i)
        i < nEv ? ws[0]->detachEvent(*ev[i]) : ws[0]->detachState(*st[i]);
    for (int w = 0; w < nWs; ++w)
        MC_CHECK(ws[w]->size() == 0, "size", "not empty after detaching everything");
    for (int i = 0; i < 2; ++i)
    {
        auto r = i < nEv ? ws[0]->attachEvent(*ev[i], 10U + i) : ws[0]->attachState(*st[i], 10U + i);
        MC_CHECK(!r.has_error(), "attach", "a slot was lost");
    }
}
// one origin with several events and states that differ only in the enumerator or only in the enumeration
enum class EvA : EventEnumIdentifier { X, Y };
enum class EvB : EventEnumIdentifier { X };
enum class StA : StateEnumIdentifier { X, Y };
enum class StB : StateEnumIdentifier { X };
class Multi
{
  public:
    TriggerHandle h[8]; // plain event, A::X, A::Y, B::X, plain state, A::X, A::Y, B::X
    bool on[8] = {};
    void enableEvent(TriggerHandle&& t) noexcept { h[0] = std::move(t); }
    void enableEvent(TriggerHandle&& t, const EvA e) noexcept { h[1 + (int)e] = std::move(t); }
    void enableEvent(TriggerHandle&& t, const EvB) noexcept { h[3] = std::move(t); }
    void disableEvent() noexcept { h[0].reset(); }
    void disableEvent(const EvA e) noexcept { h[1 + (int)e].reset(); }
    void disableEvent(const EvB) noexcept { h[3].reset(); }
    void enableState(TriggerHandle&& t) noexcept { h[4] = std::move(t); }
    void enableState(TriggerHandle&& t, const StA e) noexcept { h[5 + (int)e] = std::move(t); }
    void enableState(TriggerHandle&& t, const StB) noexcept { h[7] = std::move(t); }
    void disableState() noexcept { h[4].reset(); }
    void disableState(const StA e) noexcept { h[5 + (int)e].reset(); }
    void disableState(const StB) noexcept { h[7].reset(); }
    void invalidateTrigger(const uint64_t id) noexcept
    {
        for (auto& t : h)
            if (t.isValid() && t.getUniqueId() == id)
                t.invalidate();
    }
    template <int I>
    bool is() const noexcept { return on[I]; }
    using CB = WaitSetIsConditionSatisfiedCallback;
    CB getCallbackForIsStateConditionSatisfied() const noexcept { return CB(iox::in_place, *this, &Multi::is<4>); }
    CB getCallbackForIsStateConditionSatisfied(const StA e) const noexcept { return e == StA::X ? CB(iox::in_place, *this, &Multi::is<5>) : CB(iox::in_place, *this, &Multi::is<6>); }
    CB getCallbackForIsStateConditionSatisfied(const StB) const noexcept { return CB(iox::in_place, *this, &Multi::is<7>); }
};
void muCb(Multi* const, Ctx* const c) { c->calls++; }
void typed(int depth, std::initializer_list<int> objs)
{
    constexpr uint64_t CAP = 4;
    auto* cvd = mc::make<ConditionVariableData>(RuntimeName_t("app"));
    auto* ws = mc::make<WS<CAP>>(*cvd);
    auto* o = mc::make<Multi>();
    Ctx ctx[8];
    bool at[8] = {}, pend[8] = {};
    const int n = (int)objs.size();
    auto cnt = [&] {
        uint64_t k = 0;
        for (bool b : at)
            k += b;
        return k;
    };
    auto attach = [&](int i) {
        auto cb = createNotificationCallback(muCb, ctx[i]);
        uint64_t id = 10U + (unsigned)i;
        switch (i)
        {
        case 0: return ws->attachEvent(*o, id, cb);
        case 1: return ws->attachEvent(*o, EvA::X, id, cb);
        case 2: return ws->attachEvent(*o, EvA::Y, id, cb);
        case 3: return ws->attachEvent(*o, EvB::X, id, cb);
        case 4: return ws->attachState(*o, id, cb);
        case 5: return ws->attachState(*o, StA::X, id, cb);
        case 6: return ws->attachState(*o, StA::Y, id, cb);
        default: return ws->attachState(*o, StB::X, id, cb);
        }
    };
    auto detach = [&](int i) {
        switch (i)
        {
        case 0: return ws->detachEvent(*o);
        case 1: return ws->detachEvent(*o, EvA::X);
        case 2: return ws->detachEvent(*o, EvA::Y);
        case 3: return ws->detachEvent(*o, EvB::X);
        case 4: return ws->detachState(*o);
        case 5: return ws->detachState(*o, StA::X);
        case 6: return ws->detachState(*o, StA::Y);
        default: return ws->detachState(*o, StB::X);
        }
    };
    auto wait = [&] {
        auto v = ws->timedWait(0_ns);
        bool seen[8] = {};
        for (auto* x : v)
        {
            auto id = x->getNotificationId() - 10;
            MC_CHECK(id < 8 && !seen[id], "duplicate", "unknown notification or reported twice");
            seen[id] = true;
            int before = ctx[id].calls;
            MC_CHECK((*x)() && ctx[id].calls == before + 1 && x->doesOriginateFrom(o) && x->getOrigin<Multi>() == o, "callback", "wrong callback or origin");
        }
        for (int i = 0; i < 8; ++i)
        {
            bool exp = at[i] && (i < 4 ? pend[i] : o->on[i]);
            MC_CHECK(seen[i] == exp, exp ? "lost" : "phantom", "object %d %s", i, exp ? "is triggered but not reported" : "is reported although it was not triggered");
            pend[i] = false;
        }
    };
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(3 * n + 1);
        int i = op < 3 * n ? objs.begin()[op % n] : 0;
        if (op < n)
        {
            bool full = cnt() == CAP;
            auto r = attach(i);
            mc::log("attach %d: %d", i, !r.has_error());
            MC_CHECK(r.has_error() == (at[i] || full), "attach", "attach of %d %s", i, r.has_error() ? "failed" : "succeeded");
            if (r.has_error())
                MC_CHECK(r.error() == (at[i] ? WaitSetError::ALREADY_ATTACHED : WaitSetError::WAIT_SET_FULL), "attach", "wrong error");
            else
            {
                at[i] = true;
                pend[i] = false;
            }
        }
        else if (op < 2 * n)
        {
            mc::log("detach %d", i);
            detach(i);
            at[i] = pend[i] = false;
        }
        else if (op < 3 * n)
        {
            mc::log("trigger %d", i);
            if (i < 4)
            {
                o->h[i].trigger();
                pend[i] = at[i];
            }
            else if ((o->on[i] = !o->on[i]))
                o->h[i].trigger();
        }
        else
        {
            mc::log("wait");
            wait();
        }
    }
    MC_CHECK(ws->size() == cnt(), "size", "size is %d instead of %d", (int)ws->size(), (int)cnt());
    wait();
    for (int i : objs)
        if (at[i])
        {
            bool ev = i < 4;
            o->h[i].trigger();
            if (ev)
                pend[i] = true;
            wait();
        }
    ws->~WS<CAP>();
    for (auto& h : o->h)
    {
        MC_CHECK(!h.isValid(), "lifetime", "a handle of the destroyed wait set is still in use");
        h.trigger();
    }
}
mc::Opts H(double s)
{
    auto o = B(0, s);
    return o;
}
} // namespace
MC_SCENARIO(two_events, H(60), H(300)) { histories(2, 0, 1, mc::thorough() ? 8 : 7, false); }
MC_SCENARIO(event_and_state, H(60), H(300)) { histories(1, 1, 1, mc::thorough() ? 9 : 8, false); }
MC_SCENARIO(three_objects, H(60), H(300)) { histories(2, 1, 1, mc::thorough() ? 8 : 7, false); }
MC_SCENARIO(two_sets, H(60), H(300)) { histories(1, 1, 2, mc::thorough() ? 7 : 6, true); }
MC_SCENARIO(lifetime, H(60), H(300)) { histories(2, 1, 1, mc::thorough() ? 7 : 6, true); }
MC_SCENARIO(typed_events, H(60), H(300)) { typed(mc::thorough() ? 7 : 6, {0, 1, 2, 3}); }
MC_SCENARIO(typed_states, H(60), H(300)) { typed(mc::thorough() ? 7 : 6, {4, 5, 6, 7}); }
MC_SCENARIO(typed_mixed, H(60), H(300)) { typed(mc::thorough() ? 6 : 5, {0, 1, 3, 4, 5, 6}); }
