// C09: a process may die at every step of its work on ports; RouDi cleans up, the survivors are not affected and the
// resources are available again. All crash points (atomic operations and shared memory writes of the dying process,
// outside of a held port lock) combined with all schedules up to the bound.
#include "roudi.hpp"
#include "ports.hpp"
#include <vector>

using namespace sup;
using mc::choose;

static Fixture* fx;
extern "C" void mc_setup() { fx = new Fixture(2, {{192, 8}}); }

namespace
{
constexpr uint32_t CHUNKS = 8;
mc::Opts X(int p, double s)
{
    mc::Opts o;
    o.preempt = p;
    o.crash = 1;
    o.seconds = s;
    o.spin = 400;
    o.max_steps = 200000;
    return o;
}
void shared()
{
    fx->user->promoteMgmt();
    mc::crashable(fx->mem->data, sizeof(PortPoolData));
    mc::crashable(fx->user->mgmt, fx->user->mgmtSize);
    mc::crashable(fx->user->chunks, fx->user->chunksSize);
}
PublisherPortData* newPub(int a, uint64_t history, bool wait)
{
    auto r = fx->pm->acquirePublisherPortData(svc(0), pubOpts(history, wait), app(a), &fx->user->mgr, {});
    MC_CHECK(!r.has_error(), "port-pool", "no publisher port available");
    return r.value();
}
SubscriberPortData* newSub(int a, uint64_t cap, uint64_t history, bool block)
{
    auto r = fx->pm->acquireSubscriberPortData(svc(0), subOpts(cap, history, block), app(a), {});
    MC_CHECK(!r.has_error(), "port-pool", "no subscriber port available");
    return r.value();
}
struct Ctx
{
    explicit Ctx(const char* w) { mc::context(w); }
    ~Ctx() { mc::context(nullptr); }
};
bool send(PublisherPortUser& u, int v)
{
    Ctx c("send");
    auto r = u.tryAllocateChunk(sizeof(Sample), alignof(Sample), CHUNK_NO_USER_HEADER_SIZE, CHUNK_NO_USER_HEADER_ALIGNMENT);
    if (r.has_error())
        return false;
    static_cast<Sample*>(r.value()->userPayload())->set((uint64_t)v);
    u.sendChunk(r.value());
    return true;
}
// takes everything; values of each sender must ascend
void takeAll(SubscriberPortUser& u, std::vector<int>& got)
{
    Ctx c("take");
    for (;;)
    {
        auto r = u.tryGetChunk();
        if (r.has_error())
            return;
        int v = (int)valueOf(r.value());
        for (int g : got)
            MC_CHECK(g / 10 != v / 10 || g < v, "order", "sample %d after %d", v, g);
        got.push_back(v);
        u.releaseChunk(r.value());
    }
}
bool has(const std::vector<int>& v, int x)
{
    for (int e : v)
        if (e == x)
            return true;
    return false;
}
// all ports gone: at most the chunks in transit at the crash are lost, the others are available, disjoint and usable
void account(uint32_t maxLost)
{
    for (int a = 0; a < 3; ++a)
        fx->pm->deletePortsOfProcess(app(a));
    fx->pm->doDiscovery();
    mepoo::SharedChunk held[CHUNKS];
    uint32_t n = 0;
    for (;;)
    {
        auto c = fx->user->mgr.getChunk(mepoo::ChunkSettings::create(64, 8).value());
        if (c.has_error())
            break;
        MC_CHECK(n < CHUNKS, "double-owner", "more chunks than exist");
        for (uint32_t k = 0; k < n; ++k)
            MC_CHECK(held[k].getChunkHeader() != c.value().getChunkHeader(), "double-owner", "a chunk was handed out twice");
        held[n++] = c.value();
    }
    MC_CHECK(n >= CHUNKS - maxLost, "leak", "only %u of %u chunks can be allocated after the cleanup (at most %u can be in transit)", n, CHUNKS, maxLost);
    mc::outcome(n);
    uint32_t pubs = 0, subs = 0, sv = 0, cl = 0;
    for (auto& p : fx->mem->pool->getPublisherPortDataList())
        (void)p, ++pubs;
    for (auto& p : fx->mem->pool->getSubscriberPortDataList())
        (void)p, ++subs;
    for (auto& p : fx->mem->pool->getServerPortDataList())
        (void)p, ++sv;
    for (auto& p : fx->mem->pool->getClientPortDataList())
        (void)p, ++cl;
    MC_CHECK(pubs == fx->internalPublishers && subs == 0 && sv == 0 && cl == 0, "port-pool", "ports leaked");
}
// a fresh process must be able to communicate with the survivor
void freshPublisher(SubscriberPortData* sub, bool wait = false)
{
    auto* p = newPub(0, 1, wait);
    PublisherPortUser u(p);
    SubscriberPortUser s(sub);
    s.releaseQueuedChunks();
    std::vector<int> got;
    for (int i = 1; i <= 3; ++i)
    {
        MC_CHECK(send(u, 90 + i), "leak", "the restarted process cannot allocate a chunk");
        takeAll(s, got);
    }
    MC_CHECK(got.size() == 3, "missing-delivery", "the survivor received %d of 3 samples of the restarted process", (int)got.size());
}
} // namespace

static void publisherDies(bool wait, uint64_t history, bool survivorPub)
{
    shared();
    auto* p = newPub(0, history, wait);
    auto* s = newSub(1, 4, 0, wait);
    PublisherPortData* other = survivorPub ? newPub(2, 0, wait) : nullptr;
    int f = mc::spawn([&] {
        PublisherPortUser u(p);
        for (int i = 1; i <= (survivorPub ? 2 : 3); ++i) // never more than the queue holds
            send(u, 10 + i);
        auto r = u.tryAllocateChunk(sizeof(Sample), alignof(Sample), CHUNK_NO_USER_HEADER_SIZE, CHUNK_NO_USER_HEADER_ALIGNMENT);
        (void)r; // dies with a loaned chunk at the latest
    });
    mc::mortal(f);
    std::vector<int> got;
    bool done = false;
    mc::spawn([&] {
        SubscriberPortUser u(s);
        takeAll(u, got);
        auto r = u.tryGetChunk();
        if (!r.has_error())
        {
            int v = (int)valueOf(r.value());
            mc::point();
            mc::point();
            MC_CHECK((int)valueOf(r.value()) == v, "content", "a held sample changed after its publisher died");
            got.push_back(v);
            u.releaseChunk(r.value());
        }
        done = true;
    });
    if (other)
    {
        PublisherPortUser o(other);
        MC_CHECK(send(o, 21), "leak", "the surviving publisher cannot send");
    }
    mc::join(f);
    fx->pm->deletePortsOfProcess(app(0));
    if (other)
    {
        PublisherPortUser o(other);
        MC_CHECK(send(o, 22), "leak", "the surviving publisher cannot send");
    }
    mc::joinAll();
    SubscriberPortUser u(s);
    takeAll(u, got);
    for (int v : {11, 12, 13})
        if (has(got, v + 1) && v < 13)
            MC_CHECK(has(got, v), "missing-delivery", "sample %d was lost although a later one arrived", v);
    if (other)
        MC_CHECK(has(got, 21) && has(got, 22), "missing-delivery", "a sample of the surviving publisher was lost");
    freshPublisher(s, wait);
    account(2);
}
MC_SCENARIO(publisher, X(1, 60), X(2, 600)) { publisherDies(false, 0, false); }
MC_SCENARIO(publisher_history, X(1, 60), X(2, 600)) { publisherDies(false, 2, true); }
MC_SCENARIO(publisher_blocking, X(1, 60), X(2, 600)) { publisherDies(true, 1, true); }

// the survivors keep using the queue of the live subscriber, which overflows
MC_SCENARIO(publisher_overflow, X(2, 60), X(2, 600))
{
    shared();
    auto* p = newPub(0, 0, false);
    auto* other = newPub(2, 0, false);
    auto* s = newSub(1, 2, 0, false);
    int f = mc::spawn([&] {
        PublisherPortUser u(p);
        for (int i = 1; i <= 3; ++i)
            send(u, 10 + i);
    });
    mc::mortal(f);
    mc::join(f);
    fx->pm->deletePortsOfProcess(app(0));
    PublisherPortUser o(other);
    for (int i = 1; i <= 4; ++i)
        MC_CHECK(send(o, 20 + i), "leak", "the surviving publisher cannot send");
    SubscriberPortUser u(s);
    std::vector<int> got;
    takeAll(u, got);
    MC_CHECK(got.size() == 2 && got[0] == 23 && got[1] == 24, "missing-delivery", "the newest samples are not in the queue");
    account(2);
}

static void subscriberDies(bool block, uint64_t cap)
{
    shared();
    auto* p = newPub(0, 1, block);
    auto* s = newSub(1, cap, 1, block);
    auto* keep = newSub(2, 4, 0, false);
    {
        PublisherPortUser u(p);
        send(u, 11);
    }
    int f = mc::spawn([&] {
        SubscriberPortUser u(s);
        const mepoo::ChunkHeader* h = nullptr;
        for (int i = 0; i < 3; ++i)
        {
            mc::context("take");
            auto r = u.tryGetChunk();
            mc::context(nullptr);
            if (r.has_error())
                continue;
            (void)valueOf(r.value());
            if (h)
                u.releaseChunk(h);
            h = r.value();
        }
    });
    mc::mortal(f);
    int pf = mc::spawn([&] {
        PublisherPortUser u(p);
        for (int i = 2; i <= 4; ++i)
            MC_CHECK(send(u, 10 + i), "leak", "the publisher cannot send");
    });
    mc::join(f);
    fx->pm->deletePortsOfProcess(app(1));
    mc::join(pf);
    std::vector<int> got;
    SubscriberPortUser k(keep);
    takeAll(k, got);
    MC_CHECK(got.size() == 4, "missing-delivery", "the surviving subscriber received %d of 4 samples", (int)got.size());
    // a restarted subscriber
    auto* n = newSub(1, 4, 1, block);
    std::vector<int> g2;
    SubscriberPortUser nu(n);
    takeAll(nu, g2);
    MC_CHECK(g2.size() == 1 && g2[0] == 14, "missing-delivery", "the restarted subscriber did not get the history");
    PublisherPortUser u(p);
    MC_CHECK(send(u, 15), "leak", "the publisher cannot send");
    takeAll(nu, g2);
    MC_CHECK(g2.size() == 2, "missing-delivery", "the restarted subscriber does not receive");
    account(2);
}
MC_SCENARIO(subscriber, X(1, 60), X(2, 600)) { subscriberDies(false, 2); }
MC_SCENARIO(subscriber_overflow, X(1, 60), X(2, 600)) { subscriberDies(false, 1); }
MC_SCENARIO(subscriber_blocking, X(2, 60), X(3, 600)) { subscriberDies(true, 1); }

// the process dies while it holds several samples; exactly the one in transit may be lost
MC_SCENARIO(subscriber_holding, X(0, 60), X(0, 600))
{
    shared();
    auto* p = newPub(0, 0, false);
    auto* s = newSub(1, 4, 0, false);
    PublisherPortUser u(p);
    for (int i = 1; i <= 4; ++i)
        send(u, 10 + i);
    int first = choose(3);
    int f = mc::spawn([&] {
        SubscriberPortUser u(s);
        const mepoo::ChunkHeader* h[4];
        for (int i = 0; i < 3; ++i)
            h[i] = u.tryGetChunk().value();
        u.releaseChunk(h[first]);
        h[first] = u.tryGetChunk().value();
        u.releaseChunk(h[(first + 1) % 3]);
        u.releaseChunk(h[first]);
        u.tryGetChunk();
    });
    mc::mortal(f);
    mc::join(f);
    fx->pm->deletePortsOfProcess(app(1));
    auto* n = newSub(1, 4, 0, false);
    SubscriberPortUser nu(n);
    std::vector<int> got;
    for (int i = 1; i <= 4; ++i)
        MC_CHECK(send(u, 20 + i), "leak", "the publisher cannot send");
    takeAll(nu, got);
    MC_CHECK(got.size() == 4, "missing-delivery", "the restarted subscriber does not receive");
    account(1);
}
MC_SCENARIO(publisher_holding, X(0, 60), X(0, 600))
{
    shared();
    auto* p = newPub(0, 2, false);
    auto* s = newSub(1, 4, 0, false);
    int first = choose(3);
    int f = mc::spawn([&] {
        PublisherPortUser u(p);
        auto loan = [&] { return u.tryAllocateChunk(sizeof(Sample), alignof(Sample), CHUNK_NO_USER_HEADER_SIZE, CHUNK_NO_USER_HEADER_ALIGNMENT).value(); };
        mepoo::ChunkHeader* h[3];
        for (int i = 0; i < 3; ++i)
        {
            h[i] = loan();
            static_cast<Sample*>(h[i]->userPayload())->set((uint64_t)(11 + i));
        }
        u.sendChunk(h[first]);
        u.releaseChunk(h[(first + 1) % 3]);
        h[first] = loan();
        static_cast<Sample*>(h[first]->userPayload())->set(18);
        u.sendChunk(h[(first + 2) % 3]);
        u.sendChunk(h[first]);
    });
    mc::mortal(f);
    mc::join(f);
    fx->pm->deletePortsOfProcess(app(0));
    SubscriberPortUser su(s);
    freshPublisher(s);
    account(2); // (the one being sent and the one it displaces)
}

// the process dies while it offers, subscribes, changes its mind or announces its end
MC_SCENARIO(administration, X(2, 60), X(3, 600))
{
    shared();
    auto* p = newPub(0, 1, false);
    auto* s = newSub(0, 2, 1, false);
    auto* keepP = newPub(2, 1, false);
    auto* keepS = newSub(2, 4, 1, false);
    int f = mc::spawn([&] {
        PublisherPortUser u(p);
        SubscriberPortUser v(s);
        v.unsubscribe();
        u.stopOffer();
        v.subscribe();
        u.offer();
        send(u, 11);
        u.destroy();
        v.destroy();
    });
    mc::mortal(f);
    fx->pm->doDiscovery();
    {
        PublisherPortUser k(keepP);
        send(k, 21);
    }
    fx->pm->doDiscovery();
    mc::join(f);
    if (choose(2))
        fx->pm->doDiscovery();
    fx->pm->deletePortsOfProcess(app(0));
    std::vector<int> got;
    SubscriberPortUser k(keepS);
    takeAll(k, got);
    MC_CHECK(has(got, 21), "missing-delivery", "the survivors lost a sample");
    freshPublisher(keepS);
    account(2);
}

static RequestHeader* request(ClientPortUser& u, int v)
{
    Ctx c("request");
    auto r = u.allocateRequest(sizeof(Sample), alignof(Sample));
    if (r.has_error())
        return nullptr;
    r.value()->setSequenceId(v % 10);
    static_cast<Sample*>(r.value()->getUserPayload())->set((uint64_t)v);
    return r.value();
}
static int serve(ServerPortUser& u, int n)
{
    Ctx c("serve");
    int done = 0;
    for (int i = 0; i < n; ++i)
    {
        auto r = u.getRequest();
        if (r.has_error())
            continue;
        int v = (int)valueOf(r.value()->getChunkHeader());
        auto a = u.allocateResponse(r.value(), sizeof(Sample), alignof(Sample));
        MC_CHECK(!a.has_error(), "leak", "no chunk for a response");
        static_cast<Sample*>(a.value()->getUserPayload())->set((uint64_t)v);
        u.releaseRequest(r.value());
        if (!u.sendResponse(a.value()).has_error())
            ++done;
    }
    return done;
}
static int responses(ClientPortUser& u, int who)
{
    Ctx c("responses");
    int n = 0;
    for (;;)
    {
        auto r = u.getResponse();
        if (r.has_error())
            return n;
        int v = (int)valueOf(r.value()->getChunkHeader());
        MC_CHECK(v / 10 == who, "routing", "a response for client %d arrived at client %d", v / 10, who);
        ++n;
        u.releaseResponse(r.value());
    }
}
static ServerPortData* newServer(int a)
{
    ServerOptions o;
    o.requestQueueCapacity = 4;
    auto r = fx->pm->acquireServerPortData(svc(1), o, app(a), &fx->user->mgr, {});
    MC_CHECK(!r.has_error(), "port-pool", "no server port");
    return r.value();
}
static ClientPortData* newClient(int a)
{
    ClientOptions o;
    o.responseQueueCapacity = 4;
    auto r = fx->pm->acquireClientPortData(svc(1), o, app(a), &fx->user->mgr, {});
    MC_CHECK(!r.has_error(), "port-pool", "no client port");
    return r.value();
}
MC_SCENARIO(client, X(1, 60), X(2, 600))
{
    shared();
    auto* s = newServer(0);
    auto* c = newClient(1);
    auto* keep = newClient(2);
    int f = mc::spawn([&] {
        ClientPortUser u(*c);
        for (int i = 1; i <= 2; ++i)
            if (auto* r = request(u, 10 + i))
                (void)u.sendRequest(r);
        responses(u, 1);
        (void)request(u, 13);
    });
    mc::mortal(f);
    ServerPortUser su(*s);
    ClientPortUser k(*keep);
    auto* r = request(k, 21);
    MC_CHECK(r && !k.sendRequest(r).has_error(), "survivor", "the surviving client cannot send");
    int answered = serve(su, 2);
    (void)answered;
    mc::join(f);
    fx->pm->deletePortsOfProcess(app(1));
    serve(su, 4);
    MC_CHECK(responses(k, 2) == 1, "survivor", "the surviving client got no response");
    auto* n = newClient(1);
    ClientPortUser nu(*n);
    MC_CHECK(responses(nu, 3) == 0, "routing", "the restarted client received something");
    r = request(nu, 31);
    MC_CHECK(r && !nu.sendRequest(r).has_error(), "survivor", "the restarted client cannot send");
    MC_CHECK(serve(su, 2) == 1 && responses(nu, 3) == 1, "survivor", "the restarted client is not served");
    account(2);
}
MC_SCENARIO(server, X(1, 60), X(2, 600))
{
    shared();
    auto* s = newServer(0);
    auto* c = newClient(1);
    ClientPortUser u(*c);
    for (int i = 1; i <= 2; ++i)
    {
        auto* r = request(u, 10 + i);
        MC_CHECK(r && !u.sendRequest(r).has_error(), "survivor", "cannot send");
    }
    int f = mc::spawn([&] {
        ServerPortUser su(*s);
        serve(su, 3);
        auto r = su.getRequest();
        (void)r;
    });
    mc::mortal(f);
    int got = responses(u, 1);
    if (auto* r = request(u, 13))
        (void)u.sendRequest(r);
    mc::join(f);
    fx->pm->deletePortsOfProcess(app(0));
    MC_CHECK(u.getConnectionState() == ConnectionState::WAIT_FOR_OFFER, "survivor", "the client is still connected to the dead server");
    auto* n = newServer(0);
    got += responses(u, 1);
    MC_CHECK(got <= 3, "routing", "too many responses");
    auto* r = request(u, 14);
    MC_CHECK(r && !u.sendRequest(r).has_error(), "survivor", "the client is not connected to the restarted server");
    ServerPortUser nu(*n);
    MC_CHECK(serve(nu, 4) == 1 && responses(u, 1) == 1, "survivor", "the restarted server does not serve the client");
    account(2);
}
