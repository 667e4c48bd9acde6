// C08: request/response. Every operation sequence up to the depth on the real PortManager and ports against a reference
// model (connections, routing of responses, errors, queues, chunk accounting); plus concurrent scenarios.
#include "roudi.hpp"
#include "ports.hpp"
#include <vector>

using namespace sup;
using mc::choose;

static Fixture* fx;
extern "C" void mc_setup() { fx = new Fixture(2, {{192, 20}}); }

namespace
{
enum class CS { NOT, WAIT, CONN };
struct Req
{
    int client; // slot
    int gen;
    int64_t seq;
    int val;
};
struct Cl
{
    int app{1};
    bool onCreate{true};
    uint64_t cap{2};
    bool block{false};     // response queue blocks the server
    bool waitServer{false};
    ClientPortData* d{nullptr};
    int gen{0};
    bool req{false}, dying{false};
    CS st{CS::NOT};
    int64_t nextSeq{1};
    std::vector<Req> q; // responses
    bool lost{false};
};
struct Sv
{
    int app{0};
    bool onCreate{true};
    uint64_t cap{2};
    bool block{false};
    bool waitClient{false};
    ServerPortData* d{nullptr};
    bool req{false}, eff{false}, dying{false};
    std::vector<Req> q;
    bool lost{false};
    struct Held
    {
        Req r;
        const RequestHeader* h;
    };
    std::vector<Held> held;
};
struct World
{
    std::vector<Cl> cl;
    Sv sv;
    int next{1};
    uint64_t out{0};

    bool compatible(const Cl& c) const { return !(!c.waitServer && sv.block) && !(!sv.waitClient && c.block); }
    uint32_t connectedCount() const
    {
        uint32_t n = 0;
        for (auto& c : cl)
            n += c.d && c.st == CS::CONN;
        return n;
    }
    void tryConnect(Cl& c)
    {
        c.st = (sv.d && sv.eff && compatible(c) && connectedCount() < MAX_CLIENTS_PER_SERVER) ? CS::CONN : CS::WAIT;
    }
    // clients are visited in the order of the port list; which of several waiting ones wins the last place is not specified,
    // therefore the model adopts the observed choice if it is one of the possible ones
    bool inDiscovery{false};
    void serverOffered()
    {
        uint32_t leaving = 0; // connected for a moment, then removed by the same discovery
        for (auto& c : cl)
            if (c.d && c.st == CS::WAIT && compatible(c))
            {
                if (inDiscovery && (c.dying || !c.req))
                    ++leaving;
                else if (ClientPortUser(*c.d).getConnectionState() == ConnectionState::CONNECTED)
                    c.st = CS::CONN;
            }
        MC_CHECK(connectedCount() <= MAX_CLIENTS_PER_SERVER, "connection", "more clients connected than the limit");
        for (auto& c : cl)
            if (c.d && c.st == CS::WAIT && compatible(c) && !(inDiscovery && (c.dying || !c.req)))
                MC_CHECK(connectedCount() + leaving >= MAX_CLIENTS_PER_SERVER, "connection", "a waiting client was not connected although the server offers and has room");
    }
    void serverStopped()
    {
        for (auto& c : cl)
            if (c.st == CS::CONN)
                c.st = CS::WAIT;
    }
    void discServer()
    {
        if (!sv.d || sv.req == sv.eff)
            return;
        sv.eff = sv.req;
        sv.eff ? serverOffered() : serverStopped();
    }
    void discClient(Cl& c)
    {
        if (!c.d)
            return;
        if (c.req && c.st == CS::NOT)
            tryConnect(c);
        else if (!c.req)
            c.st = CS::NOT;
    }
    void dropServer()
    {
        serverStopped();
        sv.d = nullptr;
        sv.req = sv.eff = false;
        sv.q.clear();
        sv.held.clear();
        sv.lost = false;
    }
    void dropClient(Cl& c)
    {
        c.d = nullptr;
        c.req = false;
        c.st = CS::NOT;
        c.q.clear();
        c.lost = false;
    }
    void createServer()
    {
        ServerOptions o;
        o.requestQueueCapacity = sv.cap;
        o.offerOnCreate = sv.onCreate;
        o.requestQueueFullPolicy = sv.block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
        o.clientTooSlowPolicy = sv.waitClient ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        auto r = fx->pm->acquireServerPortData(svc(0), o, app(sv.app), &fx->user->mgr, {});
        MC_CHECK(!r.has_error(), "port-pool", "creating the server failed");
        sv.d = r.value();
        sv.dying = false;
        sv.req = sv.onCreate;
        sv.eff = false;
        discServer();
    }
    void createClient(Cl& c)
    {
        ClientOptions o;
        o.responseQueueCapacity = c.cap;
        o.connectOnCreate = c.onCreate;
        o.responseQueueFullPolicy = c.block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
        o.serverTooSlowPolicy = c.waitServer ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        auto r = fx->pm->acquireClientPortData(svc(0), o, app(c.app), &fx->user->mgr, {});
        MC_CHECK(!r.has_error(), "port-pool", "creating a client failed");
        c.d = r.value();
        c.gen++;
        c.dying = false;
        c.req = c.onCreate;
        c.st = CS::NOT;
        c.nextSeq = 1;
        discClient(c);
    }
    void send(Cl& c)
    {
        ClientPortUser u(*c.d);
        auto r = u.allocateRequest(sizeof(Sample), alignof(Sample));
        MC_CHECK(!r.has_error(), "leak", "no chunk for a request although only a few are in use");
        int v = next++;
        int64_t s = c.nextSeq++;
        r.value()->setSequenceId(s);
        static_cast<Sample*>(r.value()->getUserPayload())->set((uint64_t)v);
        auto res = u.sendRequest(r.value());
        if (!c.req)
        {
            MC_CHECK(res.has_error() && res.error() == ClientSendError::NO_CONNECT_REQUESTED, "send-result", "sending without connect request: wrong result");
            return;
        }
        if (c.st != CS::CONN)
        {
            MC_CHECK(res.has_error() && res.error() == ClientSendError::SERVER_NOT_AVAILABLE, "send-result", "sending without connected server: wrong result");
            return;
        }
        MC_CHECK(!res.has_error(), "send-result", "sending a request to a connected server failed");
        sv.q.push_back(Req{int(&c - cl.data()), c.gen, s, v});
        if (sv.q.size() > sv.cap)
        {
            sv.q.erase(sv.q.begin());
            sv.lost = true;
        }
    }
    void serverTake()
    {
        ServerPortUser u(*sv.d);
        MC_CHECK(u.hasNewRequests() == !sv.q.empty(), "request", "hasNewRequests is wrong");
        MC_CHECK(u.hasLostRequestsSinceLastCall() == sv.lost, "request", "lost requests indication is wrong");
        sv.lost = false;
        auto r = u.getRequest();
        if (sv.q.empty())
        {
            MC_CHECK(r.has_error(), "request", "the server received a request nobody sent");
            MC_CHECK((r.error() == ServerRequestResult::NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER) == !sv.req, "request", "wrong reason for no request");
            return;
        }
        MC_CHECK(!r.has_error(), "request", "a delivered request cannot be received");
        auto& q = sv.q.front();
        int v = (int)valueOf(r.value()->getChunkHeader());
        MC_CHECK(v == q.val && r.value()->getSequenceId() == q.seq, "request", "request %d (sequence %d) received instead of %d (%d)", v, (int)r.value()->getSequenceId(), q.val, (int)q.seq);
        sv.held.push_back({q, r.value()});
        sv.q.erase(sv.q.begin());
    }
    void respond(size_t i)
    {
        ServerPortUser u(*sv.d);
        auto h = sv.held[i];
        auto r = u.allocateResponse(h.h, sizeof(Sample), alignof(Sample));
        MC_CHECK(!r.has_error(), "leak", "no chunk for a response");
        static_cast<Sample*>(r.value()->getUserPayload())->set((uint64_t)h.r.val);
        MC_CHECK(r.value()->getSequenceId() == h.r.seq, "response", "the response carries sequence %d instead of %d", (int)r.value()->getSequenceId(), (int)h.r.seq);
        u.releaseRequest(h.h);
        auto res = u.sendResponse(r.value());
        sv.held.erase(sv.held.begin() + i);
        auto& c = cl[h.r.client];
        if (!sv.req)
        {
            MC_CHECK(res.has_error() && res.error() == ServerSendError::NOT_OFFERED, "response", "responding while not offering: wrong result");
            return;
        }
        if (!c.d || c.gen != h.r.gen || c.st != CS::CONN)
        {
            MC_CHECK(res.has_error() && res.error() == ServerSendError::CLIENT_NOT_AVAILABLE, "response", "responding to a client that is not connected: wrong result");
            return;
        }
        MC_CHECK(!res.has_error(), "response", "responding to a connected client failed");
        c.q.push_back(h.r);
        if (c.q.size() > c.cap)
        {
            c.q.erase(c.q.begin());
            c.lost = true;
        }
    }
    void clientTake(Cl& c)
    {
        ClientPortUser u(*c.d);
        MC_CHECK(u.hasNewResponses() == !c.q.empty(), "response", "hasNewResponses is wrong");
        MC_CHECK(u.hasLostResponsesSinceLastCall() == c.lost, "response", "lost responses indication is wrong");
        c.lost = false;
        auto r = u.getResponse();
        if (c.q.empty())
        {
            MC_CHECK(r.has_error(), "response", "a client received a response that is not for it");
            return;
        }
        MC_CHECK(!r.has_error(), "response", "a delivered response cannot be received");
        int v = (int)valueOf(r.value()->getChunkHeader());
        MC_CHECK(v == c.q.front().val && r.value()->getSequenceId() == c.q.front().seq, "response", "response %d (sequence %d) received instead of %d (%d)", v, (int)r.value()->getSequenceId(), c.q.front().val,
                 (int)c.q.front().seq);
        u.releaseResponse(r.value());
        c.q.erase(c.q.begin());
        out = mc::mix(out, (uint64_t)v);
    }
    void checkStates(const char* when)
    {
        for (auto& c : cl)
            if (c.d)
            {
                auto s = ClientPortUser(*c.d).getConnectionState();
                auto w = c.st == CS::CONN ? ConnectionState::CONNECTED : c.st == CS::WAIT ? ConnectionState::WAIT_FOR_OFFER : ConnectionState::NOT_CONNECTED;
                MC_CHECK(s == w, "connection", "%s: client %d is in state %d instead of %d", when, int(&c - cl.data()), (int)s, (int)w);
            }
        if (sv.d)
        {
            ServerPortUser u(*sv.d);
            MC_CHECK(u.isOffered() == sv.req, "connection", "%s: isOffered is wrong", when);
            MC_CHECK(u.hasClients() == (connectedCount() > 0), "connection", "%s: hasClients is wrong", when);
        }
    }
    void discovery()
    {
        fx->pm->doDiscovery();
        if (sv.d && sv.dying)
            dropServer();
        inDiscovery = true;
        discServer();
        inDiscovery = false;
        for (auto& c : cl)
        {
            discClient(c);
            if (c.d && c.dying)
                dropClient(c);
        }
        checkStates("after discovery");
    }
    void kill(int a)
    {
        fx->pm->deletePortsOfProcess(app(a));
        if (sv.d && sv.app == a)
            dropServer();
        for (auto& c : cl)
            if (c.d && c.app == a)
                dropClient(c);
        checkStates("after cleaning up a process");
    }
    struct Op
    {
        int k, i;
    };
    bool lifeServer{true}, lifeClient{true}, killing{true};
    int fixedClients{0}; // these are never destroyed
    void step()
    {
        std::vector<Op> e;
        e.push_back({0, 0}); // discovery
        if (!sv.d)
            e.push_back({1, 0});
        else
        {
            if (!sv.dying)
            {
                e.push_back({3, 0});
                if (lifeServer)
                    e.push_back({2, 0});
                if (sv.held.size() < 2)
                    e.push_back({4, 0});
                for (size_t i = 0; i < sv.held.size(); ++i)
                    e.push_back({5, (int)i});
            }
        }
        for (int i = 0; i < (int)cl.size(); ++i)
        {
            auto& c = cl[i];
            if (!c.d)
                e.push_back({6, i});
            else if (!c.dying)
            {
                if (lifeClient && i >= fixedClients)
                    e.push_back({7, i});
                e.push_back({8, i});
                if (c.nextSeq < 4)
                    e.push_back({9, i});
                if (!c.q.empty() || c.lost)
                    e.push_back({10, i});
            }
        }
        if (killing)
        {
            e.push_back({11, 0});
            e.push_back({11, 1});
        }
        auto o = e[choose((int)e.size())];
        mc::log("op %d (%d)", o.k, o.i);
        switch (o.k)
        {
        case 0: discovery(); break;
        case 1: createServer(); break;
        case 2:
            ServerPortUser(*sv.d).destroy();
            sv.dying = true;
            break;
        case 3:
        {
            ServerPortUser u(*sv.d);
            sv.req ? u.stopOffer() : u.offer();
            sv.req = !sv.req;
            break;
        }
        case 4: serverTake(); break;
        case 5: respond((size_t)o.i); break;
        case 6: createClient(cl[o.i]); break;
        case 7:
            ClientPortUser(*cl[o.i].d).destroy();
            cl[o.i].dying = true;
            break;
        case 8:
        {
            ClientPortUser u(*cl[o.i].d);
            auto& c = cl[o.i];
            c.req ? u.disconnect() : u.connect();
            c.req = !c.req;
            break;
        }
        case 9: send(cl[o.i]); break;
        case 10: clientTake(cl[o.i]); break;
        case 11: kill(o.i); break;
        }
        checkStates("after an operation");
    }
    void finish()
    {
        discovery();
        discovery();
        if (sv.d)
        {
            for (auto& c : cl)
                if (c.d && c.st == CS::CONN)
                {
                    send(c);
                    break;
                }
            while (!sv.held.empty())
                respond(0);
            while (!sv.q.empty())
            {
                serverTake();
                respond(0);
            }
            serverTake();
        }
        for (auto& c : cl)
            if (c.d)
            {
                while (!c.q.empty())
                    clientTake(c);
                clientTake(c);
            }
        kill(0);
        kill(1);
        MC_CHECK(fx->user->used() == 0, "leak", "%u chunks are still in use after all ports are gone", fx->user->used());
        mc::outcome(out);
    }
};
mc::Opts D(double s)
{
    mc::Opts o;
    o.preempt = 0;
    o.seconds = s;
    return o;
}
int depth(int q, int t) { return mc::thorough() ? t : q; }
void run(World& w, int n)
{
    for (int i = 0; i < n; ++i)
        w.step();
    w.finish();
}
} // namespace

// connections: everything from scratch
MC_SCENARIO(lifecycle, D(60), D(600))
{
    World w;
    w.cl.resize(1);
    w.cl[0].onCreate = choose(2) == 1;
    w.sv.onCreate = choose(2) == 1;
    run(w, depth(7, 8));
}
MC_SCENARIO(policies, D(60), D(600))
{
    World w;
    w.cl.resize(1);
    w.cl[0].block = choose(2) == 1;
    w.cl[0].waitServer = choose(2) == 1;
    w.sv.block = choose(2) == 1;
    w.sv.waitClient = choose(2) == 1;
    w.killing = false;
    w.sv.cap = w.cl[0].cap = 4; // no blocking in a sequential history
    run(w, depth(7, 8));
}
MC_SCENARIO(two_clients, D(60), D(600))
{
    World w;
    w.cl.resize(2);
    w.cl[1].app = 0;
    w.createServer();
    w.createClient(w.cl[0]);
    w.createClient(w.cl[1]);
    run(w, depth(6, 7));
}
// traffic between connected ports
MC_SCENARIO(traffic, D(60), D(600))
{
    World w;
    w.cl.resize(2);
    w.cl[1].cap = 1;
    w.lifeServer = w.killing = false;
    w.fixedClients = 1;
    w.createServer();
    w.createClient(w.cl[0]);
    w.createClient(w.cl[1]);
    for (auto& c : w.cl)
        w.send(c);
    w.serverTake();
    run(w, depth(6, 7));
}
// more clients than a server can have
MC_SCENARIO(client_limit, D(60), D(600))
{
    World w;
    w.cl.resize(4);
    w.killing = false;
    w.createServer();
    for (auto& c : w.cl)
        w.createClient(c);
    run(w, depth(5, 6));
}

// ---- concurrent ----
namespace
{
mc::Opts C(int p, double s)
{
    mc::Opts o;
    o.preempt = p;
    o.seconds = s;
    o.spin = 400;
    return o;
}
bool sendReq(ClientPortUser& u, int v, int64_t seq)
{
    auto r = u.allocateRequest(sizeof(Sample), alignof(Sample));
    MC_CHECK(!r.has_error(), "leak", "no chunk for a request");
    r.value()->setSequenceId(seq);
    static_cast<Sample*>(r.value()->getUserPayload())->set((uint64_t)v);
    return !u.sendRequest(r.value()).has_error();
}
// answers up to n requests; returns number answered
int serve(ServerPortUser& u, int n, bool* failed)
{
    int done = 0;
    for (int i = 0; i < n; ++i)
    {
        auto r = u.getRequest();
        if (r.has_error())
            continue;
        int v = (int)valueOf(r.value()->getChunkHeader());
        auto a = u.allocateResponse(r.value(), sizeof(Sample), alignof(Sample));
        MC_CHECK(!a.has_error(), "leak", "no chunk for a response");
        static_cast<Sample*>(a.value()->getUserPayload())->set((uint64_t)v);
        MC_CHECK((int)valueOf(r.value()->getChunkHeader()) == v, "request", "a request changed while the server held it");
        u.releaseRequest(r.value());
        if (u.sendResponse(a.value()).has_error())
            *failed = true;
        else
            ++done;
    }
    return done;
}
void takeAll(ClientPortUser& u, int who, std::vector<int>& got)
{
    for (;;)
    {
        auto r = u.getResponse();
        if (r.has_error())
            return;
        int v = (int)valueOf(r.value()->getChunkHeader());
        MC_CHECK(v / 10 == who, "response", "client %d received the response %d of client %d", who, v, v / 10);
        MC_CHECK(r.value()->getSequenceId() == v % 10, "response", "response %d carries sequence %d", v, (int)r.value()->getSequenceId());
        for (int g : got)
            MC_CHECK(g < v, "response", "response %d after %d", v, g);
        got.push_back(v);
        u.releaseResponse(r.value());
    }
}
void leakCheck()
{
    fx->pm->deletePortsOfProcess(app(0));
    fx->pm->deletePortsOfProcess(app(1));
    fx->pm->deletePortsOfProcess(app(2));
    MC_CHECK(fx->user->used() == 0, "leak", "%u chunks are still in use after all ports are gone", fx->user->used());
}
} // namespace
MC_SCENARIO(conc_two_clients, C(2, 60), C(3, 600))
{
    World w;
    w.cl.resize(2);
    w.cl[1].app = 2;
    w.sv.cap = w.cl[0].cap = w.cl[1].cap = 4;
    fx->user->promoteMgmt();
    w.createServer();
    for (auto& c : w.cl)
        w.createClient(c);
    std::vector<int> got[2];
    for (int k = 0; k < 2; ++k)
        mc::spawn([&, k] {
            ClientPortUser u(*w.cl[k].d);
            for (int i = 1; i <= 2; ++i)
                MC_CHECK(sendReq(u, (k + 1) * 10 + i, i), "send-result", "sending to a connected server failed");
            takeAll(u, k + 1, got[k]);
        });
    ServerPortUser u(*w.sv.d);
    bool failed = false;
    int done = serve(u, 3, &failed);
    mc::joinAll();
    done += serve(u, 5, &failed);
    MC_CHECK(done == 4 && !failed, "request", "%d of 4 requests were answered", done);
    for (int k = 0; k < 2; ++k)
    {
        ClientPortUser c(*w.cl[k].d);
        takeAll(c, k + 1, got[k]);
        MC_CHECK(got[k].size() == 2, "response", "client %d received %d of 2 responses", k, (int)got[k].size());
    }
    leakCheck();
}
// the client goes away (disconnect, destruction, process cleanup) while the server responds; its port is used again
MC_SCENARIO(conc_client_gone, C(3, 60), C(5, 600))
{
    World w;
    w.cl.resize(2);
    w.cl[1].app = 2;
    w.sv.cap = w.cl[0].cap = w.cl[1].cap = 4;
    fx->user->promoteMgmt();
    w.createServer();
    w.createClient(w.cl[0]);
    w.createClient(w.cl[1]);
    {
        ClientPortUser c0(*w.cl[0].d), c1(*w.cl[1].d);
        sendReq(c0, 11, 1);
        sendReq(c1, 21, 1);
        sendReq(c0, 12, 2);
    }
    bool failed = false;
    int done = 0;
    int how = choose(3);
    mc::spawn([&] {
        ServerPortUser u(*w.sv.d);
        done = serve(u, 3, &failed);
    });
    if (how == 0)
    {
        ClientPortUser(*w.cl[0].d).disconnect();
        fx->pm->doDiscovery();
    }
    else if (how == 1)
    {
        ClientPortUser(*w.cl[0].d).destroy();
        fx->pm->doDiscovery();
    }
    else
        fx->pm->deletePortsOfProcess(app(1));
    ClientPortData* fresh = nullptr;
    if (how != 0)
    {
        ClientOptions o;
        o.responseQueueCapacity = 4;
        auto r = fx->pm->acquireClientPortData(svc(0), o, app(1), &fx->user->mgr, {});
        MC_CHECK(!r.has_error(), "port-pool", "no client port");
        fresh = r.value();
    }
    mc::joinAll();
    std::vector<int> got;
    ClientPortUser c1(*w.cl[1].d);
    takeAll(c1, 2, got);
    MC_CHECK(got.size() == 1, "response", "the remaining client did not get its response");
    if (fresh)
    {
        MC_CHECK(ClientPortUser(*fresh).getResponse().has_error(), "response", "a new client received a response for its predecessor");
        ClientPortUser f(*fresh);
        MC_CHECK(sendReq(f, 31, 1), "send-result", "the new client is not connected");
        ServerPortUser u(*w.sv.d);
        bool bad = false;
        MC_CHECK(serve(u, 4, &bad) >= 1 && !bad, "response", "the new client is not served");
        std::vector<int> g2;
        takeAll(f, 3, g2);
        MC_CHECK(g2.size() == 1, "response", "the new client got no response");
    }
    leakCheck();
}
MC_SCENARIO(conc_server_gone, C(4, 60), C(5, 600))
{
    World w;
    w.cl.resize(1);
    w.sv.cap = w.cl[0].cap = 4;
    fx->user->promoteMgmt();
    w.createServer();
    w.createClient(w.cl[0]);
    int how = choose(3);
    int sent = 0;
    mc::spawn([&] {
        ClientPortUser u(*w.cl[0].d);
        for (int i = 1; i <= 2; ++i)
            sent += sendReq(u, 10 + i, i);
    });
    if (how == 0)
    {
        ServerPortUser(*w.sv.d).stopOffer();
        fx->pm->doDiscovery();
    }
    else if (how == 1)
    {
        ServerPortUser(*w.sv.d).destroy();
        fx->pm->doDiscovery();
    }
    else
        fx->pm->deletePortsOfProcess(app(0));
    if (how != 0)
    {
        w.sv.d = nullptr;
        ServerOptions o;
        o.requestQueueCapacity = 4;
        auto r = fx->pm->acquireServerPortData(svc(0), o, app(0), &fx->user->mgr, {});
        MC_CHECK(!r.has_error(), "port-pool", "no server port");
        w.sv.d = r.value();
    }
    else
    {
        ServerPortUser(*w.sv.d).offer();
        fx->pm->doDiscovery();
    }
    mc::joinAll();
    ClientPortUser c(*w.cl[0].d);
    MC_CHECK(c.getConnectionState() == ConnectionState::CONNECTED, "connection", "the client was not connected to the new server");
    MC_CHECK(sendReq(c, 13, 3), "send-result", "sending to the new server failed");
    ServerPortUser u(*w.sv.d);
    bool bad = false;
    int done = serve(u, 4, &bad);
    MC_CHECK(done >= 1 && done <= sent + 1 && !bad, "request", "%d requests answered", done);
    if (how == 0)
        MC_CHECK(done == sent + 1, "request", "%d of %d requests sent were received", done, sent + 1);
    std::vector<int> got;
    takeAll(c, 1, got);
    MC_CHECK((int)got.size() == done && got.back() == 13, "response", "%d of %d responses", (int)got.size(), done);
    leakCheck();
}
// full queues with blocking policies: nothing is lost, and everybody gets going when the peer reads or leaves
MC_SCENARIO(conc_blocking, C(1, 60), C(2, 600))
{
    World w;
    w.cl.resize(1);
    w.cl[0].cap = 1;
    w.cl[0].block = true;
    w.cl[0].waitServer = true;
    w.sv.cap = 1;
    w.sv.block = true;
    w.sv.waitClient = true;
    fx->user->promoteMgmt();
    w.createServer();
    w.createClient(w.cl[0]);
    bool leave = choose(2) == 1;
    int done = 0;
    bool failed = false;
    std::vector<int> got;
    mc::spawn([&] {
        ServerPortUser u(*w.sv.d);
        while (done < 3 && !failed)
        {
            done += serve(u, 1, &failed);
            mc::yield();
        }
    });
    int c = mc::spawn([&] {
        ClientPortUser u(*w.cl[0].d);
        for (int i = 1; i <= 3; ++i)
            MC_CHECK(sendReq(u, 10 + i, i) || leave, "send-result", "sending to a blocking server failed");
        if (leave)
            u.disconnect();
        else
            while (got.size() < 3)
            {
                takeAll(u, 1, got);
                mc::yield();
            }
    });
    mc::join(c);
    if (leave)
        fx->pm->doDiscovery();
    mc::joinAll();
    if (!leave)
        MC_CHECK(done == 3 && !failed, "response", "%d of 3 responses sent", done);
    leakCheck();
}
