// C07: RouDi's discovery connects exactly the matching, offered and subscribed ports, and the published service registry
// says what is offered. Every operation sequence up to the depth runs on the real PortManager against a reference model;
// further scenarios run discovery concurrently to the applications under the controlled scheduler.
#include "roudi.hpp"
#include "ports.hpp"
#include <vector>

using namespace sup;
using mc::choose;

static Fixture* fx;
static SubscriberPortData* regSub; // an application's view of the service registry
extern "C" void mc_setup()
{
    fx = new Fixture(4, {{128, 24}});
    SubscriberOptions o;
    o.queueCapacity = 1;
    o.historyRequest = 1;
    o.subscribeOnCreate = true;
    auto r = fx->pm->acquireSubscriberPortData({SERVICE_DISCOVERY_SERVICE_NAME, SERVICE_DISCOVERY_INSTANCE_NAME, SERVICE_DISCOVERY_EVENT_NAME}, o, app(2), {});
    regSub = r.has_error() ? nullptr : r.value();
}

namespace
{
struct Kind
{
    int svc, app;
    bool wait;        // publisher: wait for consumer; subscriber: block producer
    uint64_t history; // publisher: capacity; subscriber: request
    bool require;     // subscriber requires history support
    bool onCreate;
};
struct PubM
{
    Kind k;
    PublisherPortData* d{nullptr};
    bool req{false}, eff{false}, dying{false};
    std::vector<int> hist;
};
struct SubM
{
    Kind k;
    SubscriberPortData* d{nullptr};
    bool req{false}, eff{false}, dying{false};
    std::vector<int> expect; // values that must be in the queue
};
struct SrvM
{
    Kind k;
    ServerPortData* d{nullptr};
    bool req{false}, eff{false}, dying{false};
};
struct World
{
    std::vector<PubM> pubs;
    std::vector<SubM> subs;
    std::vector<SrvM> srvs;
    int next{1};
    int connected{0};
    bool regHolds{false};

    bool compatible(const PubM& p, const SubM& s) const
    {
        return p.k.svc == s.k.svc && !(!p.k.wait && s.k.wait) && (!s.k.require || p.k.history > 0);
    }
    bool conn(const PubM& p, const SubM& s) const { return p.d && s.d && p.eff && s.eff && compatible(p, s); }
    void link(PubM& p, SubM& s)
    {
        // history is delivered on connection
        size_t n = s.k.history < p.hist.size() ? s.k.history : p.hist.size();
        for (size_t i = p.hist.size() - n; i < p.hist.size(); ++i)
            s.expect.push_back(p.hist[i]);
    }
    void discPub(PubM& p)
    {
        if (!p.d || p.req == p.eff)
            return;
        p.eff = p.req;
        if (p.eff)
            for (auto& s : subs)
                if (conn(p, s))
                    link(p, s);
    }
    void discSub(SubM& s)
    {
        if (!s.d || s.req == s.eff)
            return;
        s.eff = s.req;
        if (s.eff)
            for (auto& p : pubs)
                if (conn(p, s))
                    link(p, s);
    }
    template <class T, class C>
    uint32_t count(C& list)
    {
        uint32_t n = 0;
        for (auto& x : list)
        {
            (void)x;
            ++n;
        }
        return n;
    }
    uint32_t live(int kind) const
    {
        uint32_t n = 0;
        if (kind == 0)
            for (auto& p : pubs)
                n += p.d != nullptr;
        if (kind == 1)
            for (auto& p : subs)
                n += p.d != nullptr;
        if (kind == 2)
            for (auto& p : srvs)
                n += p.d != nullptr;
        return n;
    }
    void createPub(PubM& p)
    {
        auto o = pubOpts(p.k.history, p.k.wait);
        o.offerOnCreate = p.k.onCreate;
        auto r = fx->pm->acquirePublisherPortData(svc(p.k.svc), o, app(p.k.app), &fx->user->mgr, {});
        bool room = live(0) + fx->internalPublishers < MAX_PUBLISHERS;
        MC_CHECK(r.has_error() == !room, "port-pool", "creating a publisher %s with %u of %u ports in use", room ? "failed" : "succeeded", live(0) + fx->internalPublishers, (unsigned)MAX_PUBLISHERS);
        if (r.has_error())
            return;
        for (auto& q : pubs)
            MC_CHECK(q.d != r.value(), "port-pool", "a publisher port in use was handed out again");
        p.d = r.value();
        p.req = p.k.onCreate;
        p.eff = p.dying = false;
        p.hist.clear();
        discPub(p);
    }
    void createSub(SubM& s)
    {
        auto o = subOpts(4, s.k.history, s.k.wait);
        o.requiresPublisherHistorySupport = s.k.require;
        o.subscribeOnCreate = s.k.onCreate;
        auto r = fx->pm->acquireSubscriberPortData(svc(s.k.svc), o, app(s.k.app), {});
        bool room = live(1) + 1 < MAX_SUBSCRIBERS;
        MC_CHECK(r.has_error() == !room, "port-pool", "creating a subscriber %s", room ? "failed" : "succeeded although the pool is exhausted");
        if (r.has_error())
            return;
        for (auto& q : subs)
            MC_CHECK(q.d != r.value(), "port-pool", "a subscriber port in use was handed out again");
        s.d = r.value();
        s.req = s.k.onCreate;
        s.eff = s.dying = false;
        s.expect.clear();
        discSub(s);
    }
    void createSrv(SrvM& s)
    {
        ServerOptions o;
        o.requestQueueCapacity = 2;
        o.offerOnCreate = s.k.onCreate;
        auto r = fx->pm->acquireServerPortData(svc(s.k.svc), o, app(s.k.app), &fx->user->mgr, {});
        bool unique = true;
        for (auto& q : srvs)
            if (q.d && q.k.svc == s.k.svc)
            {
                if (q.dying)
                    q.d = nullptr, q.eff = q.req = false; // replaced right away
                else
                    unique = false;
            }
        bool room = live(2) < MAX_SERVERS;
        MC_CHECK(r.has_error() == !(room && unique), "port-pool", "creating a server %s (unique %d room %d)", r.has_error() ? "failed" : "succeeded", unique, room);
        if (r.has_error())
            return;
        s.d = r.value();
        s.req = s.k.onCreate;
        s.eff = s.req;
        s.dying = false;
    }
    void checkStates(const char* when)
    {
        for (auto& s : subs)
            if (s.d)
            {
                SubscriberPortUser u(s.d);
                MC_CHECK((u.getSubscriptionState() == SubscribeState::SUBSCRIBED) == s.eff, "state", "%s: subscription state is wrong", when);
            }
        for (auto& p : pubs)
            if (p.d)
            {
                PublisherPortUser u(p.d);
                bool has = false;
                for (auto& s : subs)
                    has = has || conn(p, s);
                MC_CHECK(u.isOffered() == p.req, "state", "%s: isOffered is wrong", when);
                MC_CHECK(u.hasSubscribers() == has, "connection", "%s: hasSubscribers is %d", when, !has);
            }
    }
    // what is in the queue of s must be exactly the expected values (per publisher in order; publishers may interleave)
    void drain(SubM& s, const char* when)
    {
        SubscriberPortUser u(s.d);
        std::vector<int> got;
        for (;;)
        {
            auto c = u.tryGetChunk();
            if (c.has_error())
                break;
            got.push_back((int)valueOf(c.value()));
            u.releaseChunk(c.value());
        }
        auto want = s.expect;
        s.expect.clear();
        for (int v : got)
        {
            bool found = false;
            for (size_t i = 0; i < want.size() && !found; ++i)
                if (want[i] == v)
                {
                    want.erase(want.begin() + i);
                    found = true;
                }
            MC_CHECK(found, "wrong-delivery", "%s: subscriber %d received sample %d it must not get", when, int(&s - subs.data()), v);
        }
        MC_CHECK(want.empty(), "missing-delivery", "%s: subscriber %d did not receive sample %d", when, int(&s - subs.data()), want.empty() ? 0 : want[0]);
    }
    void probe(const char* when)
    {
        checkStates(when);
        for (auto& s : subs)
            if (s.d)
                drain(s, when);
        for (auto& p : pubs)
            if (p.d)
            {
                PublisherPortUser u(p.d);
                auto r = u.tryAllocateChunk(sizeof(Sample), alignof(Sample), CHUNK_NO_USER_HEADER_SIZE, CHUNK_NO_USER_HEADER_ALIGNMENT);
                MC_CHECK(!r.has_error(), "leak", "%s: no chunk for publishing although at most a few are in use", when);
                int v = next++;
                static_cast<Sample*>(r.value()->userPayload())->set((uint64_t)v);
                u.sendChunk(r.value());
                p.hist.push_back(v);
                if (p.hist.size() > p.k.history)
                    p.hist.erase(p.hist.begin());
                for (auto& s : subs)
                    if (conn(p, s))
                    {
                        s.expect.push_back(v);
                        ++connected;
                    }
            }
        for (auto& s : subs)
            if (s.d)
                drain(s, when);
        checkRegistry(when);
    }
    void expectedEntry(int i, uint32_t& np, uint32_t& ns) const
    {
        np = ns = 0;
        for (auto& p : pubs)
            np += p.d && p.eff && p.k.svc == i;
        for (auto& s : srvs)
            ns += s.d && s.eff && s.k.svc == i;
    }
    void compare(const ServiceRegistry& r, const char* when, bool published)
    {
        for (int i = 0; i < 3; ++i)
        {
            uint32_t np, ns, entries = 0;
            expectedEntry(i, np, ns);
            auto sd = svc(i);
            r.find(make_optional<capro::IdString_t>(sd.getServiceIDString()), make_optional<capro::IdString_t>(sd.getInstanceIDString()),
                   make_optional<capro::IdString_t>(sd.getEventIDString()), [&](const ServiceRegistry::ServiceDescriptionEntry& e) {
                       ++entries;
                       MC_CHECK((e.publisherCount > 0) == (np > 0) && (e.serverCount > 0) == (ns > 0), published ? "registry-stale" : "registry",
                                "%s: the %s registry lists service %d with %d publishers and %d servers, offered are %u and %u", when,
                                published ? "published" : "internal", i, (int)e.publisherCount, (int)e.serverCount, np, ns);
                       if (!published)
                           MC_CHECK(e.publisherCount == np && e.serverCount == ns, "registry", "%s: the registry counts %d publishers and %d servers of service %d, offered are %u and %u",
                                    when, (int)e.publisherCount, (int)e.serverCount, i, np, ns);
                   });
            MC_CHECK(entries == ((np + ns > 0) ? 1u : 0u), published ? "registry-stale" : "registry", "%s: %u entries of service %d in the %s registry, offered by %u publishers and %u servers",
                     when, entries, i, published ? "published" : "internal", np, ns);
        }
    }
    const ServiceRegistry* latest{nullptr};
    const mepoo::ChunkHeader* latestChunk{nullptr};
    void checkRegistry(const char* when)
    {
        compare(fx->pm->serviceRegistry(), when, false);
        SubscriberPortUser u(regSub);
        auto c = u.tryGetChunk();
        if (!c.has_error())
        {
            if (latestChunk)
                u.releaseChunk(latestChunk);
            latestChunk = c.value();
            latest = static_cast<const ServiceRegistry*>(latestChunk->userPayload());
        }
        MC_CHECK(latest != nullptr, "registry-stale", "%s: the registry was never published", when);
        compare(*latest, when, true);
    }
    void discovery()
    {
        fx->pm->doDiscovery();
        for (auto& p : pubs)
        {
            discPub(p);
            if (p.d && p.dying)
                p.d = nullptr, p.eff = p.req = false;
        }
        for (auto& s : subs)
        {
            discSub(s);
            if (s.d && s.dying)
                s.d = nullptr, s.eff = s.req = false;
        }
        for (auto& s : srvs)
        {
            s.eff = s.req;
            if (s.d && s.dying)
                s.d = nullptr, s.eff = s.req = false;
        }
    }
    void kill(int a)
    {
        fx->pm->deletePortsOfProcess(app(a));
        for (auto& p : pubs)
            if (p.d && p.k.app == a)
                p.d = nullptr, p.eff = p.req = false;
        for (auto& s : subs)
            if (s.d && s.k.app == a)
                s.d = nullptr, s.eff = s.req = false;
        for (auto& s : srvs)
            if (s.d && s.k.app == a)
                s.d = nullptr, s.eff = s.req = false;
    }
    // operations per object: 0 create/destroy, 1 toggle
    void op(int o, bool apps)
    {
        int n = 0;
        for (auto& p : pubs)
        {
            if (o == n++)
            {
                if (!p.d)
                    createPub(p);
                else if (!p.dying)
                {
                    mc::log("destroy pub");
                    PublisherPortUser(p.d).destroy();
                    p.dying = true;
                }
                else
                    mc::prune();
                return;
            }
            if (o == n++)
            {
                if (!p.d || p.dying)
                    mc::prune();
                PublisherPortUser u(p.d);
                p.req ? u.stopOffer() : u.offer();
                p.req = !p.req;
                return;
            }
        }
        for (auto& s : subs)
        {
            if (o == n++)
            {
                if (!s.d)
                    createSub(s);
                else if (!s.dying)
                {
                    SubscriberPortUser(s.d).destroy();
                    s.dying = true;
                }
                else
                    mc::prune();
                return;
            }
            if (o == n++)
            {
                if (!s.d || s.dying)
                    mc::prune();
                SubscriberPortUser u(s.d);
                if (!s.req)
                    s.expect.clear(); // subscribing starts with an empty queue
                s.req ? u.unsubscribe() : u.subscribe();
                s.req = !s.req;
                return;
            }
        }
        for (auto& s : srvs)
        {
            if (o == n++)
            {
                if (!s.d)
                    createSrv(s);
                else if (!s.dying)
                {
                    ServerPortUser(*s.d).destroy();
                    s.dying = true;
                }
                else
                    mc::prune();
                return;
            }
            if (o == n++)
            {
                if (!s.d || s.dying)
                    mc::prune();
                ServerPortUser u(*s.d);
                s.req ? u.stopOffer() : u.offer();
                s.req = !s.req;
                return;
            }
        }
        if (o == n++)
        {
            discovery();
            probe("after discovery");
            return;
        }
        if (apps && o == n++)
        {
            kill(0);
            checkStates("after cleaning up a process");
            return;
        }
        mc::fail("harness", "bad op");
    }
    int ops(bool apps) const { return int(2 * (pubs.size() + subs.size() + srvs.size()) + 1 + (apps ? 1 : 0)); }
    void finish()
    {
        discovery();
        probe("at the end");
        kill(0);
        kill(1);
        discovery();
        probe("after all processes are gone");
        for (uint32_t i = 0; i < fx->user->mgr.getNumberOfMemPools(); ++i)
            MC_CHECK(fx->user->mgr.getMemPoolInfo(i).m_usedChunks == 0, "leak", "%u chunks are still in use after all ports are gone", fx->user->mgr.getMemPoolInfo(i).m_usedChunks);
        MC_CHECK(count<int>(fx->mem->pool->getPublisherPortDataList()) == fx->internalPublishers, "port-pool", "publisher ports leaked");
        MC_CHECK(count<int>(fx->mem->pool->getSubscriberPortDataList()) == 1, "port-pool", "subscriber ports leaked");
        MC_CHECK(count<int>(fx->mem->pool->getServerPortDataList()) == 0, "port-pool", "server ports leaked");
        mc::outcome((uint64_t)connected);
    }
};
void run(World& w, int depth, bool apps)
{
    for (int i = 0; i < depth; ++i)
    {
        int o = choose(w.ops(apps));
        mc::log("op %d", o);
        w.op(o, apps);
    }
    w.finish();
}
PubM pub(Kind k)
{
    PubM p;
    p.k = k;
    return p;
}
SubM sub(Kind k)
{
    SubM p;
    p.k = k;
    return p;
}
SrvM srv(Kind k)
{
    SrvM p;
    p.k = k;
    return p;
}
mc::Opts D(double s)
{
    mc::Opts o;
    o.preempt = 0;
    o.seconds = s;
    return o;
}
int depth(int q, int t) { return mc::thorough() ? t : q; }
} // namespace

// all option combinations of one publisher and one subscriber
MC_SCENARIO(options, D(60), D(600))
{
    World w;
    w.pubs.push_back(pub({choose(2), 0, choose(2) == 1, (uint64_t)choose(3), false, choose(2) == 1}));
    w.subs.push_back(sub({0, 1, choose(2) == 1, (uint64_t)choose(2), choose(2) == 1, choose(2) == 1}));
    run(w, depth(5, 6), true);
}
MC_SCENARIO(two_publishers, D(60), D(600))
{
    World w;
    w.pubs.push_back(pub({0, 0, false, 1, false, true}));
    w.pubs.push_back(pub({0, 1, true, 0, false, false}));
    w.subs.push_back(sub({0, 1, false, 1, false, true}));
    run(w, depth(7, 8), true);
}
MC_SCENARIO(two_subscribers, D(60), D(600))
{
    World w;
    w.pubs.push_back(pub({0, 0, true, 2, false, false}));
    w.subs.push_back(sub({0, 0, true, 2, true, true}));
    w.subs.push_back(sub({0, 1, false, 0, false, false}));
    run(w, depth(7, 8), true);
}
MC_SCENARIO(services, D(60), D(600))
{
    World w;
    w.pubs.push_back(pub({0, 0, false, 1, false, true}));
    w.pubs.push_back(pub({1, 0, false, 1, false, true}));
    w.subs.push_back(sub({0, 1, false, 1, false, true}));
    w.subs.push_back(sub({1, 1, false, 1, false, false}));
    run(w, depth(5, 6), true);
}
MC_SCENARIO(registry, D(60), D(600))
{
    World w;
    w.pubs.push_back(pub({0, 0, false, 0, false, true}));
    w.pubs.push_back(pub({0, 1, false, 0, false, true}));
    w.srvs.push_back(srv({0, 0, false, 0, false, true}));
    w.srvs.push_back(srv({1, 1, false, 0, false, true}));
    run(w, depth(5, 6), true);
}
MC_SCENARIO(server_unique, D(60), D(600))
{
    World w;
    w.srvs.push_back(srv({0, 0, false, 0, false, true}));
    w.srvs.push_back(srv({0, 1, false, 0, false, false}));
    w.pubs.push_back(pub({0, 0, false, 0, false, true}));
    run(w, depth(7, 8), true);
}
// applications keep registry samples for a while: the registry memory may be exhausted, but the news must get through later
MC_SCENARIO(registry_shortage, D(60), D(600))
{
    World w;
    w.pubs.push_back(pub({0, 0, false, 0, false, true}));
    std::vector<const mepoo::ChunkHeader*> held;
    SubscriberPortUser u(regSub);
    int n = depth(10, 12);
    for (int i = 0; i < n; ++i)
    {
        int o = choose(3);
        mc::log("op %d", o);
        if (o == 0)
        {
            if (!w.pubs[0].d)
                w.createPub(w.pubs[0]);
            else
                w.op(1, false);
            w.discovery();
        }
        else if (o == 1)
        {
            auto c = u.tryGetChunk();
            if (!c.has_error())
            {
                held.push_back(c.value());
                w.latest = new ServiceRegistry(*static_cast<const ServiceRegistry*>(c.value()->userPayload()));
            }
            else
                mc::prune();
        }
        else
        {
            if (held.empty())
                mc::prune();
            u.releaseChunk(held.front());
            held.erase(held.begin());
        }
    }
    for (auto* h : held)
        u.releaseChunk(h);
    w.discovery();
    w.checkRegistry("after the shortage");
}

// ---- concurrent to the applications ----
namespace
{
mc::Opts C(int p, double s)
{
    mc::Opts o;
    o.preempt = p;
    o.seconds = s;
    o.spin = 400;
    return o;
}
struct Conc
{
    World w;
    Conc(Kind p, Kind s)
    {
        fx->user->promoteMgmt();
        w.pubs.push_back(pub(p));
        w.subs.push_back(sub(s));
        w.createPub(w.pubs[0]);
        w.createSub(w.subs[0]);
    }
    PublisherPortUser pubUser() { return PublisherPortUser(w.pubs[0].d); }
    SubscriberPortUser subUser() { return SubscriberPortUser(w.subs[0].d); }
    static bool send(PublisherPortUser& u, int v)
    {
        auto r = u.tryAllocateChunk(sizeof(Sample), alignof(Sample), CHUNK_NO_USER_HEADER_SIZE, CHUNK_NO_USER_HEADER_ALIGNMENT);
        if (r.has_error())
            return false;
        static_cast<Sample*>(r.value()->userPayload())->set((uint64_t)v);
        u.sendChunk(r.value());
        return true;
    }
    // drop everything received so far, then the usual checks in the final state
    void settle(bool pubReq, bool subReq)
    {
        w.pubs[0].req = pubReq;
        w.subs[0].req = subReq;
        fx->pm->doDiscovery();
        w.pubs[0].eff = pubReq;
        w.subs[0].eff = subReq;
        if (w.subs[0].d)
            SubscriberPortUser(w.subs[0].d).releaseQueuedChunks();
        for (auto& p : w.pubs)
            p.hist.clear();
        w.next = 100;
        w.probe("when everything is quiet");
    }
    void end()
    {
        w.kill(0);
        w.kill(1);
        w.discovery();
        for (uint32_t i = 0; i < fx->user->mgr.getNumberOfMemPools(); ++i)
            MC_CHECK(fx->user->mgr.getMemPoolInfo(i).m_usedChunks == 0, "leak", "%u chunks are still in use after all ports are gone", fx->user->mgr.getMemPoolInfo(i).m_usedChunks);
    }
};
} // namespace
// both sides change their mind while RouDi runs discovery
MC_SCENARIO(conc_toggle, C(5, 60), C(8, 600))
{
    Conc c({0, 0, false, 0, false, true}, {0, 1, false, 0, false, false});
    int pt = choose(2), st = 1 + choose(2);
    mc::spawn([&] {
        auto u = c.pubUser();
        for (int i = 0; i < pt; ++i)
            i % 2 ? u.offer() : u.stopOffer();
        Conc::send(u, 1);
    });
    mc::spawn([&] {
        auto u = c.subUser();
        for (int i = 0; i < st; ++i)
            i % 2 ? u.unsubscribe() : u.subscribe();
    });
    fx->pm->doDiscovery();
    fx->pm->doDiscovery();
    mc::joinAll();
    c.settle(pt == 0, st == 1);
    c.end();
}
// a publisher is removed (by its destruction or with its process) while the subscriber reads
MC_SCENARIO(conc_publisher_gone, C(3, 60), C(4, 600))
{
    Conc c({0, 0, false, 1, false, true}, {0, 1, false, 1, false, true});
    bool viaKill = choose(2) == 1;
    {
        auto u = c.pubUser();
        Conc::send(u, 1);
        Conc::send(u, 2);
        if (!viaKill)
            u.destroy();
    }
    mc::spawn([&] {
        auto u = c.subUser();
        int last = 0;
        for (int i = 0; i < 3; ++i)
        {
            auto r = u.tryGetChunk();
            if (r.has_error())
                continue;
            int v = (int)valueOf(r.value());
            MC_CHECK(v == last + 1, "wrong-delivery", "received sample %d after %d", v, last);
            last = v;
            mc::point();
            MC_CHECK((int)valueOf(r.value()) == v, "wrong-delivery", "sample %d changed while held", v);
            u.releaseChunk(r.value());
        }
        MC_CHECK(last == 2, "missing-delivery", "only samples up to %d were received although all were sent before the publisher was removed", last);
    });
    viaKill ? fx->pm->deletePortsOfProcess(app(0)) : fx->pm->doDiscovery();
    // the freed port and chunks are used again at once
    World w2;
    w2.pubs.push_back(pub({1, 0, false, 1, false, true}));
    w2.createPub(w2.pubs[0]);
    {
        PublisherPortUser u(w2.pubs[0].d);
        for (int i = 0; i < 3; ++i)
            Conc::send(u, 50 + i);
    }
    mc::joinAll();
    c.w.pubs[0].d = nullptr;
    c.end();
}
// a subscriber is removed while the publisher sends; another one stays
MC_SCENARIO(conc_subscriber_gone, C(4, 60), C(6, 600))
{
    Conc c({0, 0, true, 1, false, true}, {0, 1, false, 1, false, true});
    c.w.subs.push_back(sub({0, 2, false, 0, false, true}));
    c.w.createSub(c.w.subs[1]);
    bool viaKill = choose(2) == 1;
    if (!viaKill)
    {
        auto u = c.subUser();
        u.destroy();
    }
    mc::spawn([&] {
        auto u = c.pubUser();
        for (int i = 1; i <= 3; ++i)
            MC_CHECK(Conc::send(u, i), "leak", "no chunk to send");
    });
    viaKill ? fx->pm->deletePortsOfProcess(app(1)) : fx->pm->doDiscovery();
    World w2;
    w2.subs.push_back(sub({1, 1, false, 1, false, true}));
    w2.createSub(w2.subs[0]);
    mc::joinAll();
    w2.drain(w2.subs[0], "subscriber of another service");
    c.w.subs[0].d = nullptr;
    c.w.subs[1].expect = {1, 2, 3};
    c.w.drain(c.w.subs[1], "remaining subscriber");
    c.end();
}
// removing a publisher that waits for its slow subscriber unblocks it first
MC_SCENARIO(conc_unblock, C(3, 60), C(5, 600))
{
    Conc c({0, 0, true, 0, false, true}, {0, 1, true, 0, false, true});
    bool viaSub = choose(2) == 1;
    mc::spawn([&] {
        auto u = c.pubUser();
        for (int i = 1; i <= 6; ++i)
            Conc::send(u, i);
    });
    if (viaSub)
        fx->pm->deletePortsOfProcess(app(1));
    else
        fx->pm->unblockProcessShutdown(app(0));
    mc::joinAll();
    if (viaSub)
        c.w.subs[0].d = nullptr;
    c.end();
}
// only identical service descriptions match: every pair of descriptions differing in any of the three strings
MC_SCENARIO(matching, B(0, 60), B(0, 60))
{
    auto mk = [](int i) {
        return capro::ServiceDescription(capro::IdString_t(TruncateToCapacity, i & 1 ? "S" : "ST"), capro::IdString_t(TruncateToCapacity, i & 2 ? "S" : "I"), capro::IdString_t(TruncateToCapacity, i & 4 ? "E" : "EF"));
    };
    int a = choose(8), b = choose(8);
    bool pubFirst = choose(2) == 0, reqres = choose(2) == 1;
    auto A = mk(a), Bd = mk(b);
    MC_CHECK((A == Bd) == (a == b) && (A != Bd) == (a != b), "matching", "comparison of service descriptions %d %d", a, b);
    MC_CHECK(!(A < Bd && Bd < A) && ((A < Bd || Bd < A) == (a != b)), "matching", "order of service descriptions %d %d", a, b);
    bool connected = false;
    if (!reqres)
    {
        PublisherPortData* p = nullptr;
        SubscriberPortData* s = nullptr;
        for (int i = 0; i < 2; ++i)
            if ((i == 0) == pubFirst)
                p = fx->pm->acquirePublisherPortData(A, {}, app(0), &fx->user->mgr, {}).value();
            else
                s = fx->pm->acquireSubscriberPortData(Bd, {}, app(1), {}).value();
        fx->pm->doDiscovery();
        connected = PublisherPortUser(p).hasSubscribers();
        MC_CHECK(!connected || SubscriberPortUser(s).getSubscriptionState() == SubscribeState::SUBSCRIBED, "matching", "only one side is connected");
        (void)s; // (a many-to-many subscriber counts as subscribed without any publisher)
        PublisherPortUser u(p);
        Conc::send(u, 1);
        MC_CHECK(SubscriberPortUser(s).hasNewChunks() == connected, "matching", "a sample was %s", connected ? "lost" : "delivered to another service");
    }
    else
    {
        ServerPortData* p = nullptr;
        ClientPortData* s = nullptr;
        for (int i = 0; i < 2; ++i)
            if ((i == 0) == pubFirst)
                p = fx->pm->acquireServerPortData(A, {}, app(0), &fx->user->mgr, {}).value();
            else
                s = fx->pm->acquireClientPortData(Bd, {}, app(1), &fx->user->mgr, {}).value();
        fx->pm->doDiscovery();
        connected = ServerPortUser(*p).hasClients();
        MC_CHECK(connected == (ClientPortUser(*s).getConnectionState() == ConnectionState::CONNECTED), "matching", "only one side is connected");
    }
    MC_CHECK(connected == (a == b), "matching", "%s although the services are %s", connected ? "connected" : "not connected", a == b ? "the same" : "different");
    // lookup by every combination of given and wildcard strings
    for (int m = 0; m < 8; ++m)
        for (int q = 0; q < 8; ++q)
        {
            auto Q = mk(q);
            int hits = 0;
            optional<capro::IdString_t> w;
            auto sv = w, in = w, ev = w;
            if (m & 1)
                sv = Q.getServiceIDString();
            if (m & 2)
                in = Q.getInstanceIDString();
            if (m & 4)
                ev = Q.getEventIDString();
            fx->pm->serviceRegistry().find(sv, in, ev, [&](const auto& e) { hits += e.serviceDescription == A; });
            MC_CHECK(hits == ((a & m) == (q & m)), "matching", "lookup of %d with mask %d found service %d %d times", q, m, a, hits);
        }
}
