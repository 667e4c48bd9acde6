// The listener: callbacks run for every event, never for another one, never after detach, and nothing deadlocks.
#include "ports.hpp"
#include "iceoryx_posh/popo/listener.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
using namespace sup;

namespace
{
struct L : Listener
{
    explicit L(ConditionVariableData& d)
        : Listener(d)
    {
    }
};
ConditionVariableData* cv()
{
    return mc::make<ConditionVariableData>(RuntimeName_t("app"));
}
mc::Opts S(int p, double s)
{
    auto o = B(p, s);
    o.spin = 400;
    return o;
}
struct Ctx
{
    UserTrigger* self{nullptr};
    L* l{nullptr};
    std::atomic<int> triggered{0};  // announced triggers
    std::atomic<int> handled{0};    // highest announced trigger a completed callback has seen
    std::atomic<int> running{0};
    std::atomic<int> calls{0};
    std::atomic<bool> forbidden{true};
    bool detachInside{false}, retrigger{false};
    bool reused{false}; // its slot belonged to another event before: a notification of that one may still be under way
    uint64_t payload{0};
};
void cb(UserTrigger* const t, Ctx* const c)
{
    MC_CHECK(!c->forbidden.load(std::memory_order_relaxed), "callback-forbidden", "callback runs although the event is not attached");
    MC_CHECK(t == c->self, "origin", "callback called with the wrong origin");
    c->running.store(1, std::memory_order_relaxed);
    int s = c->triggered.load(std::memory_order_relaxed);
    MC_CHECK(s > 0 || c->reused, "phantom", "callback runs although the event was never triggered");
    mc::point();
    int n = c->calls.fetch_add(1, std::memory_order_relaxed) + 1;
    if (c->detachInside)
    {
        c->l->detachEvent(*t);
    }
    if (c->retrigger && n == 1)
    {
        c->triggered.store(s + 1, std::memory_order_relaxed);
        t->trigger();
    }
    c->running.store(0, std::memory_order_relaxed);
    c->handled.store(s, std::memory_order_relaxed);
}
void attach(L* l, UserTrigger* t, Ctx* c)
{
    c->self = t;
    c->l = l;
    c->forbidden.store(false, std::memory_order_relaxed);
    mc::name(t, sizeof *t, "trigger");
    mc::name(l, sizeof *l, "listener");
    auto r = l->attachEvent(*t, createNotificationCallback(cb, *c));
    MC_CHECK(!r.has_error(), "attach", "attach failed");
}
void fire(UserTrigger* t, Ctx* c, int n)
{
    c->triggered.store(n, std::memory_order_relaxed);
    t->trigger();
}
void waitHandled(Ctx* c, int n)
{
    while (c->handled.load(std::memory_order_relaxed) < n)
        mc::yield();
}
void end(L* l, std::initializer_list<Ctx*> cs)
{
    l->~L();
    for (auto* c : cs)
        MC_CHECK(c->running.load(std::memory_order_relaxed) == 0, "running", "callback still running after the listener was destroyed");
}
void triggers(int n, int each)
{
    auto* l = mc::make<L>(*cv());
    auto* t = new UserTrigger[3];
    auto* c = new Ctx[3];
    for (int i = 0; i < n; ++i)
        attach(l, &t[i], &c[i]);
    MC_CHECK(l->size() == (uint64_t)n, "size", "size");
    for (int i = 0; i < n; ++i)
        mc::spawn([=] {
            for (int k = 1; k <= each; ++k)
                fire(&t[i], &c[i], k);
            waitHandled(&c[i], each);
        });
    mc::join(2);
    for (int i = 1; i < n; ++i)
        mc::join(2 + i);
    for (int i = 0; i < n; ++i)
        MC_CHECK(c[i].calls <= each, "phantom", "more callbacks than triggers");
    end(l, {&c[0], &c[1], &c[2]});
}
// detach from one or two threads (and the callback itself) while the event is triggered
void detach(int threads, bool inside, bool retrig)
{
    auto* l = mc::make<L>(*cv());
    auto* t = new UserTrigger;
    auto* c = new Ctx;
    c->detachInside = inside;
    c->retrigger = retrig;
    attach(l, t, c);
    int a = mc::spawn([=] { fire(t, c, 1); });
    int ids[2] = {};
    for (int i = 0; i < threads; ++i)
        ids[i] = mc::spawn([=] {
            l->detachEvent(*t);
            // (a callback that detaches itself may still be on its way out)
            MC_CHECK(inside || c->running.load(std::memory_order_relaxed) == 0, "running", "callback still running after detachEvent returned");
            c->forbidden.store(true, std::memory_order_relaxed);
        });
    mc::join(a);
    for (int i = 0; i < threads; ++i)
        mc::join(ids[i]);
    if (!threads)
        while (l->size() != 0)
            mc::yield();
    MC_CHECK(l->size() == 0, "size", "event still attached");
    // the slot is usable again: fill the listener completely
    auto* t2 = new UserTrigger[8];
    auto* c2 = new Ctx[8];
    uint64_t k = 0;
    for (; k < 8; ++k)
    {
        c2[k].self = &t2[k];
        c2[k].l = l;
        c2[k].forbidden = false;
        c2[k].reused = true;
        if (l->attachEvent(t2[k], createNotificationCallback(cb, c2[k])).has_error())
            break;
    }
    MC_CHECK(k == l->capacity(), "slots", "only %d of %d slots are usable after detaching", (int)k, (int)l->capacity());
    fire(&t2[k - 1], &c2[k - 1], 1);
    waitHandled(&c2[k - 1], 1);
    end(l, {c, &c2[0], &c2[k - 1]});
}
// the listener is destroyed while the event is triggered
void destroy()
{
    auto* l = mc::make<L>(*cv());
    auto* t = new UserTrigger;
    auto* c = new Ctx;
    attach(l, t, c);
    int a = mc::spawn([=] {
        fire(t, c, 1);
        fire(t, c, 2);
    });
    int b = mc::spawn([=] {
        l->~L();
        MC_CHECK(c->running.load(std::memory_order_relaxed) == 0, "running", "callback still running after the listener was destroyed");
        c->forbidden.store(true, std::memory_order_relaxed);
    });
    mc::join(a);
    mc::join(b);
    t->~UserTrigger();
}
// the origin goes away while attached and triggered
void originGone()
{
    auto* l = mc::make<L>(*cv());
    auto* t = new UserTrigger;
    auto* c = new Ctx;
    attach(l, t, c);
    int a = mc::spawn([=] {
        fire(t, c, 1);
        t->~UserTrigger();
        MC_CHECK(c->running.load(std::memory_order_relaxed) == 0, "running", "callback still running after its origin was destroyed");
        c->forbidden.store(true, std::memory_order_relaxed);
    });
    mc::join(a);
    MC_CHECK(l->size() == 0, "size", "event still attached");
    end(l, {c});
}
// attach from two threads
void attach2(bool same)
{
    auto* l = mc::make<L>(*cv());
    auto* t = new UserTrigger[2];
    auto* c = new Ctx[2];
    auto* ok = new int[2]();
    int ids[2];
    for (int k = 0; k < 2; ++k)
    {
        c[k].self = &t[k];
        c[k].l = l;
        c[k].forbidden = false;
    }
    for (int i = 0; i < 2; ++i)
    {
        int k = same ? 0 : i;
        ids[i] = mc::spawn([=] {
            auto r = l->attachEvent(t[k], createNotificationCallback(cb, c[k]));
            ok[i] = !r.has_error();
            if (r.has_error())
                MC_CHECK(same && r.error() == ListenerError::EVENT_ALREADY_ATTACHED, "attach", "attach failed");
            else
            {
                fire(&t[k], &c[k], 1);
                waitHandled(&c[k], 1);
            }
        });
    }
    mc::join(ids[0]);
    mc::join(ids[1]);
    MC_CHECK(ok[0] + ok[1] == (same ? 1 : 2), "attach", "%d attachments succeeded", ok[0] + ok[1]);
    MC_CHECK(l->size() == (uint64_t)(same ? 1 : 2), "size", "size");
    end(l, {&c[0], &c[1]});
}
// the only free slot is the one being detached: its successor must not be affected by what is left of the detach
void reuse(bool triggered)
{
    auto* l = mc::make<L>(*cv());
    auto* t = new UserTrigger[9];
    auto* c = new Ctx[9];
    const uint64_t n = l->capacity();
    for (uint64_t i = 0; i < n; ++i)
        attach(l, &t[i], &c[i]);
    c[n].self = &t[n];
    c[n].l = l;
    c[n].reused = true;
    c[n].forbidden = false;
    int a = mc::spawn([=] {
        if (triggered)
            fire(&t[0], &c[0], 1);
        l->detachEvent(t[0]);
        MC_CHECK(c[0].running.load(std::memory_order_relaxed) == 0, "running", "callback still running after detachEvent returned");
        c[0].forbidden.store(true, std::memory_order_relaxed);
    });
    int b = mc::spawn([=] {
        for (;;)
        {
            auto r = l->attachEvent(t[n], createNotificationCallback(cb, c[n]));
            if (!r.has_error())
                break;
            MC_CHECK(r.error() == ListenerError::LISTENER_FULL, "attach", "attach failed");
            mc::yield();
        }
        fire(&t[n], &c[n], 1);
        waitHandled(&c[n], 1);
    });
    mc::join(a);
    mc::join(b);
    MC_CHECK(l->size() == n, "size", "%d events attached, %d expected", (int)l->size(), (int)n);
    // a slot is freed and usable once more
    l->detachEvent(t[n]);
    c[n].forbidden = true;
    c[0].forbidden = false;
    c[0].reused = true;
    int h = c[0].triggered.load() + 1;
    attach(l, &t[0], &c[0]);
    fire(&t[0], &c[0], h);
    waitHandled(&c[0], h);
    end(l, {&c[0], &c[n]});
}
// ---- life cycle: all histories of attach / detach / trigger / destruction, the listener thread runs to its wait after each
enum class EvA : EventEnumIdentifier
{
    X,
    Y
};
enum class EvB : EventEnumIdentifier
{
    X
};
class Origin
{
  public:
    TriggerHandle h[4]; // plain, A::X, A::Y, B::X
    void enableEvent(TriggerHandle&& t) noexcept { h[0] = std::move(t); }
    void enableEvent(TriggerHandle&& t, const EvA e) noexcept { h[1 + (int)e] = std::move(t); }
    void enableEvent(TriggerHandle&& t, const EvB) noexcept { h[3] = std::move(t); }
    void disableEvent() noexcept { h[0].reset(); }
    void disableEvent(const EvA e) noexcept { h[1 + (int)e].reset(); }
    void disableEvent(const EvB) noexcept { h[3].reset(); }
    void invalidateTrigger(const uint64_t id) noexcept
    {
        for (auto& t : h)
            if (t.isValid() && t.getUniqueId() == id)
                t.invalidate();
    }
};
struct Rec
{
    void* origin{nullptr};
    int calls{0};
    int which{0};
};
template <class T, int N>
void note(T* const o, Rec* const r)
{
    r->calls++;
    r->origin = o;
    r->which = N;
}
constexpr int NEV = 6; // five events of two origins of the same class, and a user trigger: more than there are slots
void histories(int nL, int depth, int nTrig, bool destroyOps)
{
    L* l[2] = {};
    auto fresh = [&](int k) { l[k] = mc::make<L>(*cv()); };
    for (int k = 0; k < nL; ++k)
        fresh(k);
    auto* o = new Origin[5];
    // (trigger ids are unique per listener only, so an origin attached to several listeners has a single event)
    auto on = [&](int i) { return nL == 1 ? i == 4 : i; };
    auto* u = mc::make<UserTrigger>();
    int at[NEV], cbk[NEV];
    auto* rec = new Rec[NEV * 2];
    for (int i = 0; i < NEV; ++i)
        at[i] = -1, cbk[i] = 0;
    auto org = [&](int i) -> void* { return i == 5 ? (void*)u : (void*)&o[on(i)]; };
    auto attach = [&](int i, int k, int c) {
        Rec& r = rec[2 * i + c];
        auto cbO = c ? createNotificationCallback(note<Origin, 1>, r) : createNotificationCallback(note<Origin, 0>, r);
        auto cbU = c ? createNotificationCallback(note<UserTrigger, 1>, r) : createNotificationCallback(note<UserTrigger, 0>, r);
        switch (i)
        {
        case 0: return l[k]->attachEvent(o[on(0)], cbO);
        case 1: return l[k]->attachEvent(o[on(1)], EvA::X, cbO);
        case 2: return l[k]->attachEvent(o[on(2)], EvA::Y, cbO);
        case 3: return l[k]->attachEvent(o[on(3)], EvB::X, cbO);
        case 4: return l[k]->attachEvent(o[on(4)], EvA::X, cbO);
        default: return l[k]->attachEvent(*u, cbU);
        }
    };
    auto detachE = [&](int i) {
        switch (i)
        {
        case 0: return l[0]->detachEvent(o[on(0)]);
        case 1: return l[0]->detachEvent(o[on(1)], EvA::X);
        case 2: return l[0]->detachEvent(o[on(2)], EvA::Y);
        case 3: return l[0]->detachEvent(o[on(3)], EvB::X);
        case 4: return l[0]->detachEvent(o[on(4)], EvA::X);
        default: return l[0]->detachEvent(*u);
        }
    };
    auto trigger = [&](int i) {
        for (int k = 0; k < NEV * 2; ++k)
            rec[k].calls = 0;
        i == 5 ? u->trigger() : o[on(i)].h[i == 4 ? 1 : i].trigger();
        mc::quiesce();
        for (int k = 0; k < NEV; ++k)
            for (int c = 0; c < 2; ++c)
            {
                int want = k == i && at[i] >= 0 && cbk[i] == c;
                Rec& r = rec[2 * k + c];
                MC_CHECK(r.calls <= want, "phantom", "event %d was triggered%s and the callback of event %d%s ran", i,
                         at[i] < 0 ? " (not attached)" : "", k, k == i && at[i] >= 0 ? " from an earlier attachment" : "");
                MC_CHECK(r.calls == want, "lost", "event %d is attached and was triggered, its callback did not run", i);
                if (want)
                {
                    MC_CHECK(r.origin == org(i), "origin", "callback called with the wrong origin");
                    MC_CHECK(r.which == c, "callback", "not the callback of the last attachment");
                }
            }
    };
    auto sizeOf = [&](int k) {
        uint64_t n = 0;
        for (int i = 0; i < NEV; ++i)
            n += at[i] == k;
        return n;
    };
    mc::quiesce();
    const int nOps = NEV * nL + NEV + nTrig + (destroyOps ? nL + 3 : 0);
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(nOps + 1);
        if (op == 0)
            break;
        --op;
        if (op < NEV * nL)
        {
            int i = op / nL, k = op % nL;
            bool already = at[i] == k, full = sizeOf(k) == L::capacity();
            int c = 1 - cbk[i];
            auto r = attach(i, k, c);
            mc::log("attach %d to %d: %d", i, k, !r.has_error());
            MC_CHECK(r.has_error() == (already || full), "attach", "attaching event %d to listener %d %s", i, k,
                     r.has_error() ? "failed" : "succeeded although it is full or the event is attached already");
            if (r.has_error())
                MC_CHECK(r.error() == (already ? ListenerError::EVENT_ALREADY_ATTACHED : ListenerError::LISTENER_FULL), "attach", "wrong error");
            else
            {
                at[i] = k; // attaching to another listener ends the previous attachment
                cbk[i] = c;
            }
        }
        else if ((op -= NEV * nL) < NEV)
        {
            mc::log("detach %d", op);
            detachE(op);
            at[op] = -1;
        }
        else if ((op -= NEV) < nTrig)
        {
            mc::log("trigger %d", 5 - op);
            trigger(5 - op);
        }
        else if ((op -= nTrig) < nL)
        {
            mc::log("recreate listener %d", op);
            l[op]->~L();
            fresh(op);
            for (int i = 0; i < NEV; ++i)
                if (at[i] == op)
                    at[i] = -1;
        }
        else
        {
            op -= nL;
            mc::log("recreate origin %d", op);
            if (op == 2)
            {
                u->~UserTrigger();
                new (u) UserTrigger();
            }
            else
            {
                o[op].~Origin();
                new (&o[op]) Origin();
            }
            for (int i = 0; i < NEV; ++i)
                if (org(i) == (op == 2 ? (void*)u : (void*)&o[op]))
                    at[i] = -1;
        }
        mc::quiesce();
    }
    for (int k = 0; k < nL; ++k)
        MC_CHECK(l[k]->size() == sizeOf(k), "size", "listener %d reports size %d instead of %d", k, (int)l[k]->size(), (int)sizeOf(k));
    for (int i = 0; i < NEV; ++i)
        trigger(i);
    // every slot is usable
    for (int i = 0; i < NEV; ++i)
    {
        detachE(i);
        at[i] = -1;
    }
    for (int i = 0; i < (int)L::capacity(); ++i)
    {
        MC_CHECK(!attach(NEV - 1 - i, 0, cbk[NEV - 1 - i]).has_error(), "slots", "only %d slots are usable", i);
        at[NEV - 1 - i] = 0;
    }
    MC_CHECK(attach(0, 0, 0).has_error(), "slots", "more events than slots");
    for (int i = 0; i < NEV; ++i)
        trigger(i);
    NotificationCallback<UserTrigger, Rec> none;
    auto r = l[0]->attachEvent(*u, none);
    MC_CHECK(r.has_error() && r.error() == ListenerError::EMPTY_EVENT_CALLBACK, "attach", "an empty callback was accepted");
    // after the listeners are gone triggering is harmless and the origins can be attached again
    for (int k = 0; k < nL; ++k)
    {
        l[k]->~L();
        memset((void*)l[k], 0xEE, sizeof(L));
    }
    for (int i = 0; i < NEV; ++i)
    {
        at[i] = -1;
        trigger(i);
    }
    fresh(0);
    mc::quiesce();
    for (int i = NEV - 1; i >= NEV - (int)L::capacity(); --i)
    {
        MC_CHECK(!attach(i, 0, 0).has_error(), "attach", "cannot attach to another listener after the first one was destroyed");
        at[i] = 0;
        cbk[i] = 0;
    }
    for (int i = 0; i < NEV; ++i)
        trigger(i);
    l[0]->~L();
}
mc::Opts H(double s)
{
    auto o = B(0, s);
    o.spin = 400;
    return o;
}
} // namespace
MC_SCENARIO(life_one, H(90), H(400)) { histories(1, mc::thorough() ? 6 : 5, 0, false); }
MC_SCENARIO(life_trigger, H(90), H(400)) { histories(1, mc::thorough() ? 5 : 4, 2, true); }
MC_SCENARIO(life_two, H(90), H(400)) { histories(2, mc::thorough() ? 4 : 3, 0, true); }
MC_SCENARIO(slot_reuse, S(2, 60), S(4, 300)) { reuse(false); }
MC_SCENARIO(slot_reuse_triggered, S(1, 60), S(2, 300)) { reuse(true); }
MC_SCENARIO(trigger_1x2, S(3, 60), S(5, 300)) { triggers(1, 2); }
MC_SCENARIO(trigger_2x1, S(2, 60), S(3, 300)) { triggers(2, 1); }
MC_SCENARIO(detach_one, S(2, 60), S(4, 300)) { detach(1, false, false); }
MC_SCENARIO(detach_two, S(1, 60), S(2, 300)) { detach(2, false, false); }
MC_SCENARIO(detach_inside, S(2, 60), S(4, 300)) { detach(0, true, false); }
MC_SCENARIO(detach_inside_and_outside, S(2, 60), S(3, 300)) { detach(1, true, false); }
MC_SCENARIO(detach_retrigger, S(2, 60), S(3, 300)) { detach(1, false, true); }
MC_SCENARIO(destroy_listener, S(3, 60), S(5, 300)) { destroy(); }
MC_SCENARIO(origin_gone, S(3, 60), S(5, 300)) { originGone(); }
MC_SCENARIO(attach_different, S(2, 60), S(3, 300)) { attach2(false); }
MC_SCENARIO(attach_same, S(2, 60), S(3, 300)) { attach2(true); }
