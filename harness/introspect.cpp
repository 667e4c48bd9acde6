// What RouDi's introspection tells: all histories of processes, ports and chunks on the whole RouDi, and all schedules of changes
// against the thread that sends.
#include "daemon.hpp"
#include "ports.hpp"
#include "iceoryx_posh/roudi/introspection_types.hpp"
#include "iceoryx_posh/internal/roudi/introspection/port_introspection.hpp"
#include "iceoryx_posh/internal/roudi/introspection/process_introspection.hpp"
#include <algorithm>

namespace
{
constexpr mc::Opts D{.preempt = 0, .seconds = 60, .det = true, .races = false};
constexpr mc::Opts T{.preempt = 0, .seconds = 400, .det = true, .races = false};
constexpr uint64_t PERIOD = 1200; // the introspection sends once a second

// the last sample of one of the fields: what a new subscriber gets
template <class Topic>
const Topic* field(roudi::PortPool* pool, const capro::ServiceDescription& s)
{
    for (auto& p : pool->getPublisherPortDataList())
        if (p.m_serviceDescription == s && p.m_runtimeName == RuntimeName_t(roudi::IPC_CHANNEL_ROUDI_NAME))
        {
            auto& h = p.m_chunkSenderData.m_history;
            MC_CHECK(p.m_offered.load(), "offer", "the introspection is not offered");
            MC_CHECK(h.size() == 1, "field", "the introspection field has %d values", (int)h.size());
            return static_cast<const Topic*>(h.back().cloneToSharedChunk().getChunkHeader()->userPayload());
        }
    mc::fail("field", "no introspection publisher");
}
Str service(const capro::ServiceDescription& s)
{
    return Str(s.getServiceIDString().c_str()) + "/" + s.getInstanceIDString().c_str() + "/" + s.getEventIDString().c_str();
}
template <class P>
Str service(const P& p)
{
    return Str(p.m_caproServiceID.c_str()) + "/" + p.m_caproInstanceID.c_str() + "/" + p.m_caproEventMethodID.c_str();
}
Str join(std::vector<Str> v)
{
    std::sort(v.begin(), v.end());
    Str s;
    for (auto& x : v)
        s += x + " ";
    return s;
}
Str num(uint64_t n) { return std::to_string(n); }
// what is there, from the ports themselves
Str publishers(roudi::PortPool* pool)
{
    std::vector<Str> v;
    for (auto& p : pool->getPublisherPortDataList())
        v.push_back(Str(p.m_runtimeName.c_str()) + ":" + service(p.m_serviceDescription) + "#" + num(static_cast<uint64_t>(popo::UniquePortId(p.m_uniqueId))) + "h"
                    + num(p.m_options.historyCapacity) + (p.m_options.offerOnCreate ? "o" : ""));
    return join(v);
}
Str publishers(const roudi::PortIntrospectionFieldTopic& t)
{
    std::vector<Str> v;
    for (auto& p : t.m_publisherList)
        v.push_back(Str(p.m_name.c_str()) + ":" + service(p) + "#" + num(p.m_publisherPortID) + "h" + num(p.m_publisherOptions.historyCapacity)
                    + (p.m_publisherOptions.offerOnCreate ? "o" : ""));
    return join(v);
}
template <class S>
Str subscriber(const RuntimeName_t& n, const Str& s, const S& o)
{
    return Str(n.c_str()) + ":" + s + "q" + num(o.queueCapacity) + (o.subscribeOnCreate ? "s" : "");
}
Str subscribers(const roudi::PortIntrospectionFieldTopic& t)
{
    std::vector<Str> v;
    for (auto& p : t.m_subscriberList)
        v.push_back(subscriber(p.m_name, service(p), p.m_subscriberOptions));
    return join(v);
}
Str subscribers(roudi::PortPool* pool)
{
    std::vector<Str> v;
    for (auto& p : pool->getSubscriberPortDataList())
        v.push_back(subscriber(p.m_runtimeName, service(p.m_serviceDescription), p.m_options));
    return join(v);
}
// with their states, which come with another topic in the same order
Str states(roudi::PortPool* pool)
{
    std::vector<Str> v;
    for (auto& p : pool->getSubscriberPortDataList())
        v.push_back(subscriber(p.m_runtimeName, service(p.m_serviceDescription), p.m_options) + "=" + num((uint64_t)p.m_subscriptionState.load()));
    return join(v);
}
Str states(const roudi::PortIntrospectionFieldTopic& t, const roudi::SubscriberPortChangingIntrospectionFieldTopic& c)
{
    MC_CHECK(t.m_subscriberList.size() == c.subscriberPortChangingDataList.size(), "states", "%d subscribers but the states of %d",
             (int)t.m_subscriberList.size(), (int)c.subscriberPortChangingDataList.size());
    std::vector<Str> v;
    for (uint64_t i = 0; i < t.m_subscriberList.size(); ++i)
    {
        auto& p = t.m_subscriberList[i];
        v.push_back(subscriber(p.m_name, service(p), p.m_subscriberOptions) + "=" + num((uint64_t)c.subscriberPortChangingDataList[i].subscriptionState));
    }
    return join(v);
}
void checkPorts(roudi::PortPool* pool, const char* when)
{
    mc::Atomic at;
    auto* t = field<roudi::PortIntrospectionFieldTopic>(pool, roudi::IntrospectionPortService);
    auto* c = field<roudi::SubscriberPortChangingIntrospectionFieldTopic>(pool, roudi::IntrospectionSubscriberPortChangingDataService);
    Str a = publishers(*t), b = publishers(pool);
    MC_CHECK(a == b, "publishers", "after %s: reported %s; there are %s", when, a.c_str(), b.c_str());
    a = subscribers(*t), b = subscribers(pool);
    MC_CHECK(a == b, "subscribers", "after %s: reported %s; there are %s", when, a.c_str(), b.c_str());
    a = states(*t, *c), b = states(pool);
    MC_CHECK(a == b, "states", "after %s: reported %s; they are %s", when, a.c_str(), b.c_str());
}
// until nobody has vanished for a second
void settle(Daemon& d, const char* after)
{
    for (int r = -1; r != d.registered();)
    {
        d.reap();
        r = d.registered();
        d.pass(PERIOD);
        d.check(after);
    }
}
void checkProcesses(Daemon& d, const char* when)
{
    mc::Atomic at;
    auto* t = field<roudi::ProcessIntrospectionFieldTopic>(d.pool, roudi::IntrospectionProcessService);
    std::vector<Str> v, w;
    for (auto& p : t->m_processList)
        v.push_back(Str(p.m_name.c_str()) + "#" + num((uint64_t)p.m_pid));
    w.push_back("roudi#4000");
    for (auto& a : d.app)
        if (a.registered)
            w.push_back(a.name + "#" + num((uint64_t)os::pidOf(a.proc)));
    Str a = join(v), b = join(w);
    MC_CHECK(a == b, "processes", "after %s: reported %s; there are %s", when, a.c_str(), b.c_str());
}
} // namespace

// The processes: all histories of starting, leaving, crashing and coming back, up to the maximum.
MC_SCENARIO(processes, D, T)
{
    auto& d = *new Daemon(mc::choose(2));
    d.pass(PERIOD);
    checkProcesses(d, "start of RouDi");
    int depth = mc::thorough() ? 7 : 5, started = 0;
    for (int k = 0; k < depth; ++k)
    {
        struct Op
        {
            int what, who;
        } o[20];
        int n = 0;
        for (int i = 0; i < NAPP && i <= started; ++i)
            if (!d.app[i].alive)
                o[n++] = {0, i};
            else
            {
                o[n++] = {1, i};
                o[n++] = {2, i};
            }
        Op x = o[mc::choose(n)];
        if (x.what == 0)
        {
            d.start(x.who);
            if (x.who == started)
                ++started;
        }
        else if (x.what == 1)
            d.stop(x.who);
        else
            d.crash(x.who);
        // the model of who is registered is that of C20; here: it is told within a second
        settle(d, "a change");
        checkProcesses(d, "a change");
    }
    d.down();
}
// The ports: all histories of creating, (un)subscribing, (un)offering, destroying and processes coming and going.
MC_SCENARIO(ports, D, T)
{
    auto& d = *new Daemon(true, {{"root", "root"}}, 6);
    d.start(0);
    d.start(1);
    d.pass(PERIOD);
    checkPorts(d.pool, "start");
    struct P
    {
        int app, kind;
        void* data;
        bool on;
    };
    std::vector<P> v;
    int depth = mc::thorough() ? 6 : 4;
    static const capro::ServiceDescription S[] = {{"a", "b", "c"}, {"a", "b", "d"}};
    for (int k = 0; k < depth; ++k)
    {
        int pubs = 0, subs = 0;
        for (auto& x : v)
            ++(x.kind == PUB ? pubs : subs);
        struct Op
        {
            int what, arg, svc, on;
        } o[64];
        int n = 0;
        for (int i = 0; i < 2; ++i)
            for (int s = 0; s < 2; ++s)
                for (int on = 0; on < 2; ++on)
                {
                    if (i + s == 0 && v.empty() && !on)
                        ; // names and services are symmetric at first
                    if (v.empty() && (i || s))
                        continue;
                    if (pubs < 2)
                        o[n++] = {0, i, s, on};
                    if (subs < 2)
                        o[n++] = {1, i, s, on};
                }
        for (int i = 0; i < (int)v.size(); ++i)
        {
            o[n++] = {2, i, 0, 0}; // the other state
            o[n++] = {3, i, 0, 0}; // destroyed
        }
        if (!v.empty())
            for (int i = 0; i < 2; ++i)
            {
                o[n++] = {4, i, 0, 0}; // leaves and comes back
                o[n++] = {5, i, 0, 0}; // crashes and is replaced
            }
        Op x = o[mc::choose(n)];
        auto drop = [&](int a) {
            v.erase(std::remove_if(v.begin(), v.end(), [&](const P& p) { return p.app == a; }), v.end());
        };
        switch (x.what)
        {
        case 0:
            d.pubOptions.offerOnCreate = x.on;
            d.pubOptions.historyCapacity = (uint64_t)k;
            mc::log("publisher of %d, %s", x.svc, x.on ? "offered" : "not offered");
            v.push_back({x.arg, PUB, d.create(x.arg, PUB, &S[x.svc]), x.on != 0});
            break;
        case 1:
            d.subOptions.subscribeOnCreate = x.on;
            d.subOptions.queueCapacity = 1 + (uint64_t)k % 2;
            mc::log("subscriber of %d, %s", x.svc, x.on ? "subscribed" : "not subscribed");
            v.push_back({x.arg, SUB, d.create(x.arg, SUB, &S[x.svc]), x.on != 0});
            break;
        case 2:
        {
            auto& p = v[(size_t)x.arg];
            mc::log("%s %s", PN[p.kind], p.on ? "off" : "on");
            if (p.kind == PUB)
            {
                popo::PublisherPortUser u(static_cast<popo::PublisherPortData*>(p.data));
                p.on ? u.stopOffer() : u.offer();
            }
            else
            {
                popo::SubscriberPortUser u(static_cast<popo::SubscriberPortData*>(p.data));
                p.on ? u.unsubscribe() : u.subscribe();
            }
            p.on = !p.on;
            break;
        }
        case 3:
        {
            auto p = v[(size_t)x.arg];
            mc::log("%s is destroyed", PN[p.kind]);
            if (p.kind == PUB)
                popo::PublisherPortUser(static_cast<popo::PublisherPortData*>(p.data)).destroy();
            else
                popo::SubscriberPortUser(static_cast<popo::SubscriberPortData*>(p.data)).destroy();
            --d.app[p.app].n[p.kind];
            v.erase(v.begin() + x.arg);
            break;
        }
        case 4:
            d.stop(x.arg);
            d.start(x.arg);
            drop(x.arg);
            break;
        default:
            d.crash(x.arg);
            d.start(x.arg);
            drop(x.arg);
            break;
        }
        settle(d, "a change");
        checkPorts(d.pool, "a change");
    }
    d.down();
}
// What a subscriber of the introspection gets: the field at once, then every change; and the pools' numbers are exact.
MC_SCENARIO(mempools, D, T)
{
    static const std::pair<Str, Str> SEG[] = {{"root", "root"}, {"ipc", "root"}, {"alice", "ipc"}};
    int nseg = 1 + mc::choose(2);
    std::vector<std::pair<Str, Str>> seg{SEG[mc::choose(2)]};
    if (nseg == 2)
        seg.push_back(SEG[2]);
    auto& d = *new Daemon(true, seg, 6);
    d.start(0);
    d.start(1);
    d.subOptions.queueCapacity = 2;
    auto* sd = static_cast<popo::SubscriberPortData*>(d.create(0, SUB, &roudi::IntrospectionMempoolService));
    auto* pd = static_cast<popo::PublisherPortData*>(d.create(1, PUB));
    popo::SubscriberPortUser sub(sd);
    popo::PublisherPortUser pub(pd);
    constexpr uint32_t N = 8;
    std::vector<mepoo::ChunkHeader*> loan;
    mepoo::ChunkHeader* last = nullptr; // the publisher keeps its last sample
    uint32_t peak = 0;
    int depth = mc::thorough() ? 7 : 5;
    for (int k = 0; k < depth; ++k)
    {
        switch (loan.empty() ? mc::choose(2) : loan.size() == MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY ? 2 + mc::choose(2) : mc::choose(4))
        {
        case 0: break;
        case 1:
        {
            auto c = pub.tryAllocateChunk(64, 8, CHUNK_NO_USER_HEADER_SIZE, CHUNK_NO_USER_HEADER_ALIGNMENT);
            MC_CHECK(!c.has_error(), "harness", "no chunk");
            loan.push_back(*c); // possibly the last one again
            break;
        }
        case 2:
            pub.releaseChunk(loan.back());
            loan.pop_back();
            break;
        default:
            pub.sendChunk(loan.back());
            last = loan.back();
            loan.pop_back();
        }
        uint32_t used = (uint32_t)loan.size() + (last && std::find(loan.begin(), loan.end(), last) == loan.end());
        peak = used > peak ? used : peak;
        while (true)
        {
            auto c = sub.tryGetChunk();
            if (c.has_error())
                break;
            sub.releaseChunk(*c);
        }
        d.pass(PERIOD);
        auto c = sub.tryGetChunk();
        MC_CHECK(!c.has_error(), "mempools", "nothing is sent for more than a second");
        auto* t = static_cast<const roudi::MemPoolIntrospectionInfoContainer*>((*c)->userPayload());
        MC_CHECK((int)t->size() == 1 + nseg, "mempools", "%d segments instead of %d", (int)t->size(), 1 + nseg);
        for (int s = 0; s <= nseg; ++s)
        {
            auto& i = (*t)[(uint64_t)s];
            MC_CHECK((int)i.m_id == s, "mempools", "segment %d has the id %d", s, (int)i.m_id);
            Str r = s ? seg[(size_t)s - 1].first : "root", w = s ? seg[(size_t)s - 1].second : "root";
            MC_CHECK(r == i.m_readerGroupName.c_str() && w == i.m_writerGroupName.c_str(), "mempools", "segment %d belongs to %s and %s", s,
                     i.m_readerGroupName.c_str(), i.m_writerGroupName.c_str());
            if (!s)
            {
                // at least the chunk which carries this very message
                uint32_t u = 0;
                for (auto& p : i.m_mempoolInfo)
                {
                    u += p.m_usedChunks;
                    MC_CHECK(p.m_usedChunks <= p.m_numChunks && p.m_minFreeChunks <= p.m_numChunks - p.m_usedChunks
                                 && p.m_chunkPayloadSize + sizeof(mepoo::ChunkHeader) == p.m_chunkSize,
                             "mempools", "impossible numbers: %u of %u used, at least %u free", p.m_usedChunks, p.m_numChunks, p.m_minFreeChunks);
                }
                MC_CHECK(i.m_mempoolInfo.size() >= 1 && u >= 1, "mempools", "no pool is used");
                continue;
            }
            MC_CHECK(i.m_mempoolInfo.size() == 1, "mempools", "%d pools", (int)i.m_mempoolInfo.size());
            auto& p = i.m_mempoolInfo[0];
            uint32_t u = s == 1 ? used : 0, f = s == 1 ? N - peak : N;
            MC_CHECK(p.m_numChunks == N && p.m_usedChunks == u && p.m_minFreeChunks == f && p.m_chunkPayloadSize == 128
                         && p.m_chunkSize == 128 + sizeof(mepoo::ChunkHeader),
                     "mempools", "segment %d: %u of %u chunks used, at least %u free, expected %u of %u and %u; sizes %d %d", s, p.m_usedChunks, p.m_numChunks,
                     p.m_minFreeChunks, u, N, f, (int)p.m_chunkPayloadSize, (int)p.m_chunkSize);
        }
        sub.releaseChunk(*c);
    }
}
// A real subscriber of the port and process fields, however late it comes and however often it looks.
MC_SCENARIO(subscriber, D, T)
{
    auto& d = *new Daemon(true, {{"root", "root"}}, 8);
    d.start(0);
    bool ports = mc::choose(2);
    int before = mc::choose(3);
    auto act = [&](int a) {
        if (ports)
            d.create(0, a == 0 ? CV : a == 1 ? SUB : PUB);
        else if (a == 1)
            d.app[1].alive ? d.stop(1) : d.start(1);
        else if (a == 2)
            d.app[2].alive ? d.crash(2) : d.start(2);
    };
    act(before);
    d.pass(PERIOD * (unsigned)mc::choose(2));
    d.subOptions.historyRequest = 1;
    d.subOptions.queueCapacity = 2;
    auto* data = static_cast<popo::SubscriberPortData*>(d.create(0, SUB, ports ? &roudi::IntrospectionPortService : &roudi::IntrospectionProcessService));
    popo::SubscriberPortUser sub(data);
    Str seen, expect;
    bool any = false;
    auto look = [&] {
        for (;;)
        {
            auto c = sub.tryGetChunk();
            if (c.has_error())
                break;
            any = true;
            seen = "";
            if (ports)
            {
                auto* t = static_cast<const roudi::PortIntrospectionFieldTopic*>((*c)->userPayload());
                seen = publishers(*t) + subscribers(*t);
            }
            else
                for (auto& p : static_cast<const roudi::ProcessIntrospectionFieldTopic*>((*c)->userPayload())->m_processList)
                    seen += Str(p.m_name.c_str()) + " ";
            sub.releaseChunk(*c);
        }
        expect = "";
        if (ports)
            expect = publishers(d.pool) + subscribers(d.pool);
        else
        {
            std::vector<Str> v{"roudi"};
            for (auto& a : d.app)
                if (a.registered)
                    v.push_back(a.name);
            expect = join(v);
            std::vector<Str> w;
            Str x;
            for (char ch : seen)
                if (ch == ' ')
                {
                    w.push_back(x);
                    x = "";
                }
                else
                    x += ch;
            seen = join(w);
        }
    };
    look();
    MC_CHECK(any, "subscriber", "a new subscriber gets no value");
    for (int k = 0; k < (mc::thorough() ? 5 : 3); ++k)
    {
        act(mc::choose(3));
        if (!ports && !d.app[1].registered && d.app[1].alive)
            mc::prune();
        settle(d, "a change");
        if (mc::choose(2))
            continue; // it does not look every time
        look();
        MC_CHECK(seen == expect, "subscriber", "the subscriber knows %s; there are %s", seen.c_str(), expect.c_str());
    }
}
namespace
{
struct PI : roudi::PortIntrospectionType
{
    using roudi::PortIntrospectionType::send;
    using roudi::PortIntrospectionType::sendPortData;
    using roudi::PortIntrospectionType::sendSubscriberPortsData;
    using roudi::PortIntrospectionType::sendThroughputData;
};
struct QI : roudi::ProcessIntrospectionType
{
    using roudi::ProcessIntrospectionType::send;
};
template <class T>
const T* latest(sup::Pub& p)
{
    mc::Atomic a;
    auto& h = p.data->m_chunkSenderData.m_history;
    return h.empty() ? nullptr : static_cast<const T*>(h.back().cloneToSharedChunk().getChunkHeader()->userPayload());
}
} // namespace
// The thread that sends against the one that changes: every sample is the state at some moment while it was made, and the last change
// is always told.
MC_SCENARIO(changes_vs_send, (mc::Opts{.preempt = 3, .seconds = 60}), (mc::Opts{.preempt = 4, .seconds = 300}))
{
    using namespace sup;
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{(sizeof(roudi::PortIntrospectionFieldTopic) + 63) & ~63ULL, 12}});
    mem->promoteMgmt();
    popo::PublisherOptions o;
    o.historyCapacity = 1;
    auto* out = mc::make<Pub>(&mem->mgr, 1, o, "roudi");
    auto* thr = mc::make<Pub>(&mem->mgr, 2, o, "roudi");
    auto* chg = mc::make<Pub>(&mem->mgr, 3, o, "roudi");
    auto* pi = mc::make<PI>();
    pi->registerPublisherPort(popo::PublisherPortUser(out->data), popo::PublisherPortUser(thr->data), popo::PublisherPortUser(chg->data));
    pi->sendPortData();
    pi->sendThroughputData();
    pi->sendSubscriberPortsData();
    out->offer();
    thr->offer();
    chg->offer();
    auto* p = mc::make<Pub>(&mem->mgr, 4, o, "ant");
    popo::SubscriberOptions so;
    so.queueCapacity = 1;
    auto* s = mc::make<Sub>(true, false, so, "bee");
    // what the port manager does when ports come and go
    static const int SEQ[][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {0, 2, 1, 3}, {1, 4, 0, 3}, {0, 1, 4, 5}, {1, 3, 1, 4}};
    const int* seq = SEQ[mc::choose(6)];
    static std::atomic<int> started, completed;
    started = completed = 0;
    static int want[5]; // bit 0: the publisher is there, bit 1: the subscriber is
    want[0] = 0;
    for (int i = 0; i < 4; ++i)
        want[i + 1] = seq[i] == 0 ? want[i] | 1 : seq[i] == 1 ? want[i] | 2 : seq[i] == 2 ? want[i] & ~1 : seq[i] == 3 ? want[i] & ~2 : want[i];
    mc::spawn([=] {
        for (int i = 0; i < 4; ++i)
        {
            started = i + 1;
            switch (seq[i])
            {
            case 0: pi->addPublisher(*p->data); break;
            case 1: pi->addSubscriber(*s->data); break;
            case 2: pi->removePublisher(*p->user); break;
            case 3: pi->removeSubscriber(*s->user); break;
            case 4: pi->reportMessage(capro::CaproMessage(capro::CaproMessageType::SUB, sd()), s->data->m_uniqueId); break;
            default: pi->reportMessage(capro::CaproMessage(capro::CaproMessageType::OFFER, sd())); break;
            }
            completed = i + 1;
        }
    });
    auto told = [=](int a, int b, const char* when) {
        auto* t = latest<roudi::PortIntrospectionFieldTopic>(*out);
        auto* c = latest<roudi::SubscriberPortChangingIntrospectionFieldTopic>(*chg);
        MC_CHECK(t && c, "field", "no value");
        int x = (t->m_publisherList.size() == 1) | (t->m_subscriberList.size() == 1) << 1;
        bool ok = t->m_publisherList.size() <= 1 && t->m_subscriberList.size() <= 1, okc = false, found = false;
        for (int i = a; i <= b; ++i)
        {
            found = found || want[i] == x;
            okc = okc || c->subscriberPortChangingDataList.size() == (uint64_t)(want[i] >> 1);
        }
        MC_CHECK(ok && found, "told", "%s: %d publishers and %d subscribers are told, which was never so between change %d and %d", when,
                 (int)t->m_publisherList.size(), (int)t->m_subscriberList.size(), a, b);
        MC_CHECK(okc, "told", "%s: the states of %d subscribers", when, (int)c->subscriberPortChangingDataList.size());
        if (x & 1)
            MC_CHECK(Str(t->m_publisherList[0].m_name.c_str()) == "ant" && service(t->m_publisherList[0]) == "S/I/E", "told", "another publisher");
        if (x & 2)
            MC_CHECK(Str(t->m_subscriberList[0].m_name.c_str()) == "bee" && service(t->m_subscriberList[0]) == "S/I/E", "told", "another subscriber");
    };
    mc::spawn([=] {
        for (int i = 0; i < 2; ++i)
        {
            int a = completed;
            pi->send();
            told(a, started, "while changing");
        }
    });
    mc::joinAll();
    pi->send();
    told(4, 4, "at the end");
}
MC_SCENARIO(processes_vs_send, (mc::Opts{.preempt = 5, .seconds = 60}), (mc::Opts{.preempt = 7, .seconds = 300}))
{
    using namespace sup;
    auto* mem = mc::make<Mem>(std::initializer_list<PoolSpec>{{(sizeof(roudi::ProcessIntrospectionFieldTopic) + 63) & ~63ULL, 6}});
    mem->promoteMgmt();
    popo::PublisherOptions o;
    o.historyCapacity = 1;
    auto* out = mc::make<Pub>(&mem->mgr, 1, o, "roudi");
    auto* qi = mc::make<QI>();
    qi->registerPublisherPort(popo::PublisherPortUser(out->data));
    qi->send();
    out->offer();
    static const int SEQ[][3] = {{1, 2, -1}, {1, -1, 2}, {1, 2, -2}, {1, -1, 1}};
    const int* seq = SEQ[mc::choose(4)];
    static std::atomic<int> started, completed;
    started = completed = 0;
    static int want[4];
    want[0] = 0;
    for (int i = 0; i < 3; ++i)
        want[i + 1] = seq[i] > 0 ? want[i] | 1 << seq[i] : want[i] & ~(1 << -seq[i]);
    mc::spawn([=] {
        for (int i = 0; i < 3; ++i)
        {
            started = i + 1;
            if (seq[i] > 0)
                qi->addProcess(100 + seq[i], seq[i] == 1 ? RuntimeName_t("one") : RuntimeName_t("two"));
            else
                qi->removeProcess(100 - seq[i]);
            completed = i + 1;
        }
    });
    auto told = [=](int a, int b, const char* when) {
        auto* t = latest<roudi::ProcessIntrospectionFieldTopic>(*out);
        int x = 0;
        for (auto& p : t->m_processList)
        {
            MC_CHECK(p.m_pid == 101 || p.m_pid == 102, "told", "%s: process %d", when, p.m_pid);
            MC_CHECK(Str(p.m_name.c_str()) == (p.m_pid == 101 ? "one" : "two") && !(x >> (p.m_pid - 100) & 1), "told", "%s: %s", when, p.m_name.c_str());
            x |= 1 << (p.m_pid - 100);
        }
        bool found = false;
        for (int i = a; i <= b; ++i)
            found = found || want[i] == x;
        MC_CHECK(found, "told", "%s: the processes %d were never there between change %d and %d", when, x, a, b);
    };
    mc::spawn([=] {
        for (int i = 0; i < 2; ++i)
        {
            int a = completed;
            qi->send();
            told(a, started, "while changing");
        }
    });
    mc::joinAll();
    qi->send();
    told(3, 3, "at the end");
}
