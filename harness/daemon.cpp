// The whole RouDi and its applications on a simulated kernel: every history of registering, requesting, leaving, dying and talking
// nonsense.
#include "daemon.hpp"

namespace
{
constexpr mc::Opts D{.preempt = 0, .seconds = 60, .det = true, .races = false};
constexpr mc::Opts T{.preempt = 0, .seconds = 400, .det = true, .races = false};
} // namespace
// Who is registered: all histories of starting, stopping, crashing and passing time, more applications than places.
MC_SCENARIO(membership, D, T)
{
    auto& d = *new Daemon(mc::choose(2));
    int depth = mc::thorough() ? 8 : 6;
    int started = 0; // names are symmetric
    for (int k = 0; k < depth; ++k)
    {
        struct Op
        {
            int what, who;
        };
        Op o[40];
        int n = 0;
        for (int i = 0; i < NAPP && i <= started; ++i)
        {
            if (!d.app[i].alive)
                o[n++] = {0, i};
            else
            {
                o[n++] = {1, i};
                o[n++] = {2, i};
                if (d.app[i].n[SUB] == 0 && !d.app[i].hung)
                    o[n++] = {3, i};
                if (d.monitored && d.app[i].registered && !d.app[i].hung)
                    o[n++] = {5, i};
            }
        }
        if (started)
            o[n++] = {4, 0};
        Op x = o[mc::choose(n)];
        switch (x.what)
        {
        case 0:
            d.start(x.who);
            if (x.who == started)
                ++started;
            break;
        case 1: d.crash(x.who); break;
        case 2: d.stop(x.who); break;
        case 3:
            d.create(x.who, SUB);
            d.create(x.who, CV);
            break;
        case 5: d.hang(x.who); break;
        default: d.tick(); break;
        }
    }
    d.down();
}

// RouDi ends while its applications obey, fall silent, ignore the request, hang or are dead already: all are asked first, who does not
// obey is killed, nobody else is, and nothing of RouDi is left.
MC_SCENARIO(shutdown, D, T)
{
    enum
    {
        OBEYS,   // says good bye and ends
        DIES,    // ends without a word
        IGNORES, // goes on
        DEAD,    // has died before
        LEFT,    // has left before
        KINDS
    };
    auto& d = *new Daemon(mc::choose(2));
    int n = 1 + mc::choose((int)MAX_PROCESS_NUMBER);
    int kind[NAPP];
    for (int i = 0; i < n; ++i)
        kind[i] = mc::choose(KINDS);
    for (int i = 0; i < n; ++i)
        d.start(i);
    for (int i = 0; i < n; ++i)
    {
        d.create(i, CV);
        if (kind[i] == DEAD)
            d.crash(i);
        else if (kind[i] == LEFT)
            d.stop(i);
    }
    int late = mc::choose(2) ? 1500 : 0; // it takes a while to end
    static uint64_t sig[NAPP];
    static bool acked[NAPP];
    for (int i = 0; i < n; ++i)
    {
        App& a = d.app[i];
        if (kind[i] > DIES)
            continue;
        int f = mc::spawn([&d, &a, i, late, obeys = kind[i] == OBEYS] {
            while (!(os::signals(a.proc) >> SIGTERM & 1))
                sleepMs(30);
            if (late)
                sleepMs((unsigned)late + 100 * (unsigned)i);
            if (obeys)
            {
                IpcMessage m, r;
                m << type(IpcMessageType::TERMINATION) << a.name;
                MC_CHECK(a.roudi->send(m), "shutdown", "%s cannot say good bye", a.name.c_str());
                for (int k = 0; k < 20 && os::queued(a.path().c_str()) <= 0; ++k)
                    sleepMs(30);
                acked[i] = d.answer(a, r) && r.getElementAtIndex(0) == type(IpcMessageType::TERMINATION_ACK);
                a.chan.reset();
                a.roudi.reset();
            }
            sig[i] = os::signals(a.proc);
            os::end(a.proc);
        });
        os::processOf(f, a.proc);
    }
    uint64_t t0 = mc::now_ns() / MS;
    mc::log("RouDi shuts down");
    d.roudi.reset();
    uint64_t t1 = mc::now_ns() / MS;
    bool stubborn = false;
    int left = 0;
    for (int i = 0; i < n; ++i)
    {
        App& a = d.app[i];
        uint64_t s = kind[i] <= DIES ? sig[i] : os::signals(a.proc);
        bool asked = s >> SIGTERM & 1, killed = s >> SIGKILL & 1;
        MC_CHECK(asked == (kind[i] <= IGNORES), "shutdown", "%s %s asked to end", a.name.c_str(), asked ? "is" : "is not");
        MC_CHECK(killed == (kind[i] == IGNORES), "shutdown", "%s %s killed", a.name.c_str(), killed ? "is" : "is not");
        if (kind[i] == OBEYS)
            MC_CHECK(acked[i], "shutdown", "%s gets no answer to its good bye", a.name.c_str());
        stubborn = stubborn || kind[i] == IGNORES;
        left += kind[i] == DIES || kind[i] == IGNORES || kind[i] == DEAD ? 2 : 0;
    }
    uint64_t delay = d.cfg.processKillDelay.toMilliseconds();
    MC_CHECK(stubborn ? t1 - t0 >= delay && t1 - t0 <= delay + 2000 : t1 - t0 <= 5000, "shutdown", "RouDi takes %d ms to end",
             (int)(t1 - t0));
    d.comp.reset();
    MC_CHECK(os::openFds(0) == 0 && os::mappings(0) == 0 && os::wildKills() == 0 && os::badCloses() == 0, "shutdown",
             "%d descriptors and %d mappings are left, %d process groups were signalled", os::openFds(0), os::mappings(0), os::wildKills());
    MC_CHECK(os::files() == left, "shutdown", "left after the shutdown: %s", os::listing().c_str());
}

// All kinds of requests up to and beyond every limit, with applications leaving in between.
MC_SCENARIO(limits, D, T)
{
    auto& d = *new Daemon(true);
    int a = mc::choose(NPORT), b = (a + mc::choose(mc::thorough() ? 4 : 2)) % NPORT;
    d.start(0);
    d.start(1);
    int depth = mc::thorough() ? 5 : 4;
    for (int k = 0; k < depth; ++k)
    {
        int o = mc::choose(a == b ? 6 : 8);
        // bursts, so that the limits are reached
        switch (o)
        {
        case 0: d.create(0, a); break;
        case 1: d.create(1, a); break;
        case 2:
            for (int i = d.used(a); i <= limitOf(a); ++i)
                d.create(i & 1, a);
            break;
        case 3:
            d.stop(0);
            d.start(0);
            break;
        case 4:
            d.crash(1);
            d.tick();
            d.start(1);
            break;
        case 5:
            if (a != b)
            {
                d.create(0, b);
                break;
            }
            if (!d.app[0].n[a])
                mc::prune();
            d.destroy(0, a, mc::choose(2));
            break;
        case 6: d.create(1, b); break;
        default:
            for (int i = d.used(b); i <= limitOf(b); ++i)
                d.create(i & 1, b);
        }
    }
    d.down();
}
// Requests that have to be refused with the right reason, for all users and segment layouts.
MC_SCENARIO(refusals, D, T)
{
    static const char* G[] = {"root", "alice", "ipc"};
    static const unsigned U[] = {0, 1000, 1001};
    auto member = [](unsigned u, const Str& g) {
        return g == "root" ? u == 0 : g == "alice" ? u == 1000 : (u == 1000 || u == 1001);
    };
    int nseg = 1 + mc::choose(2);
    std::vector<std::pair<Str, Str>> seg;
    for (int i = 0; i < nseg; ++i)
        seg.push_back({G[mc::choose(3)], G[mc::choose(3)]});
    bool dup = nseg == 2 && seg[0].second == seg[1].second; // two segments of one writer group are refused by RouDi
    if (dup)
        mc::prune();
    if (nseg == 2 && seg[0].second > seg[1].second)
        mc::prune();
    auto& d = *new Daemon(true, seg);
    for (unsigned u : U)
    {
        int writable = 0;
        for (auto& x : seg)
            writable += member(u, x.second);
        if (writable > 1)
            mc::prune(); // more than one writable segment per user is a configuration error
    }
    for (int i = 0; i < 3; ++i)
    {
        unsigned u = U[i];
        d.start(i, u);
        bool w = false;
        for (auto& x : seg)
            w = w || member(u, x.second);
        auto why = [&](IpcMessageErrorType e) { return w ? IpcMessageErrorType::END : e; };
        d.create(i, PUB, nullptr, why(IpcMessageErrorType::REQUEST_PUBLISHER_NO_WRITABLE_SHM_SEGMENT));
        d.create(i, CLI, nullptr, why(IpcMessageErrorType::REQUEST_CLIENT_NO_WRITABLE_SHM_SEGMENT));
        d.create(i, SRV, nullptr, why(IpcMessageErrorType::REQUEST_SERVER_NO_WRITABLE_SHM_SEGMENT));
        d.create(i, SUB);
        d.create(i, PUB, &roudi::IntrospectionPortService, w ? IpcMessageErrorType::INTERNAL_SERVICE_DESCRIPTION_IS_FORBIDDEN
                                            : IpcMessageErrorType::REQUEST_PUBLISHER_NO_WRITABLE_SHM_SEGMENT);
    }
    d.down();
}
// Everything that is not a well-formed request of a registered application leaves no trace and does no harm.
MC_SCENARIO(nonsense, D, T)
{
    auto& d = *new Daemon(true);
    d.start(0);
    d.create(0, SUB);
    App& a = d.app[0];
    // another process which never registered but listens
    App& b = d.app[1];
    os::process(2);
    os::born(2);
    b.proc = 2;
    auto c = runtime::IpcInterfaceCreator::create("bee", DEFAULT_DOMAIN_ID, ResourceType::USER_DEFINED);
    b.chan.emplace(std::move(*c));
    b.alive = true;
    os::process(0);
    static const char* JUNK[] = {"", "x", "-1", "1.5", "99999999999999999999", "4294967296", "1x", "3:a", "18446744073709551615:", "::", "0:0:0:"};
    constexpr int NJ = 11;
    int rounds = mc::thorough() ? 2 : 1;
    for (int k = 0; k < rounds; ++k)
    {
        Str raw;
        bool terminated = true;
        int notSupported = 0; // answers of that kind for the registered application
        int kind = mc::choose(7);
        auto elem = [](const IpcMessage& m) {
            std::vector<Str> v;
            for (uint32_t i = 0; i < m.getNumberOfElements(); ++i)
                v.push_back(m.getElementAtIndex(i));
            return v;
        };
        auto join = [](const std::vector<Str>& v) {
            Str s;
            for (auto& x : v)
                s += x + ",";
            return s;
        };
        // the well-formed requests
        std::vector<std::vector<Str>> good;
        for (int p = 0; p < NPORT; ++p)
            good.push_back(elem(d.request(a, p)));
        good.push_back({type(IpcMessageType::TERMINATION), a.name});
        good.push_back({type(IpcMessageType::PREPARE_APP_TERMINATION), a.name});
        good.push_back({type(IpcMessageType::REG), "bee", "4002", "0", "77", Daemon::version()});
        switch (kind)
        {
        case 0: // commands which are none
        {
            int n = (int)IpcMessageType::END - (int)IpcMessageType::BEGIN + 1;
            int v = mc::choose(n + NJ);
            Str cmd = v < n ? type((IpcMessageType)((int)IpcMessageType::BEGIN + v)) : JUNK[v - n];
            for (auto& g : good)
                if (g[0] == cmd)
                    mc::prune();
            int who = mc::choose(3);
            raw = cmd + "," + (who == 0 ? a.name : who == 1 ? b.name : Str("zebra")) + (mc::choose(2) ? ",1,2," : ",");
            notSupported = who == 0;
            break;
        }
        case 1: // too few or too many elements
        {
            auto g = good[mc::choose((int)good.size())];
            int n = mc::choose(9);
            if (n == (int)g.size())
                mc::prune();
            while ((int)g.size() < n)
                g.push_back(JUNK[g.size() % 3]);
            g.resize((size_t)n);
            raw = join(g);
            break;
        }
        case 2: // from somebody who is not registered
        {
            auto g = good[mc::choose((int)good.size() - 1)];
            static const char* W[] = {"bee", "zebra", "", "a/b", "/", "ant/", "ANT", "ant "};
            int w = mc::choose(8);
            g[1] = W[w];
            raw = join(g);
            break;
        }
        case 3: // broken service, broken options
        {
            int p = mc::choose(4);
            auto g = good[(size_t)p];
            int which = 2 + mc::choose(2);
            g[(size_t)which] = JUNK[mc::choose(NJ)];
            raw = join(g);
            break;
        }
        case 4: // broken registrations
        {
            auto g = good.back();
            int which = 2 + mc::choose(4);
            static const char* NUM[] = {"", "x", "-1", "1.5", "99999999999999999999", " ", "1x"};
            if (which == 5)
                g[5] = JUNK[mc::choose(NJ)];
            else
            {
                int j = mc::choose(7 + (which == 2 ? 2 : 0));
                if (which == 4 && j == 2)
                    mc::prune(); // a negative time is a number
                g[(size_t)which] = j == 7 ? "0" : j == 8 ? "4294967295" : NUM[j];
            }
            raw = join(g);
            break;
        }
        case 5: // names which cannot be one
        {
            auto g = good.back();
            static const char* W[] = {"", "/", "a/b", "../x", "b/"};
            g[1] = W[mc::choose(5)];
            raw = join(g);
            break;
        }
        default: // not a message at all
        {
            auto g = good[mc::choose((int)good.size())];
            raw = join(g);
            switch (mc::choose(9))
            {
            case 0: raw.pop_back(); break; // the last separator is missing
            case 1: raw = ""; break;
            case 2: raw = Str(1, '\0') + raw; break;
            case 3: raw = Str(2000, 'y'); break;
            case 4: raw = "," + raw; break;
            case 5: raw = ","; break;
            case 6: terminated = false; break;
            case 7:
                terminated = false;
                raw = "";
                break;
            default: raw = Str(5000, ','); break;
            }
            break;
        }
        }
        mc::log("message: %.200s", raw.c_str());
        MC_CHECK(os::inject(ROUDI_PATH, raw.c_str(), raw.size() + terminated), "harness", "cannot inject");
        d.pass(STEP);
        IpcMessage r;
        if (notSupported)
        {
            MC_CHECK(d.answer(a, r), "nonsense", "no answer to an unknown command: %.100s", raw.c_str());
            MC_CHECK(r.getNumberOfElements() == 1 && r.getElementAtIndex(0) == type(IpcMessageType::MESSAGE_NOT_SUPPORTED), "nonsense",
                     "answer to an unknown command %.100s: %s", raw.c_str(), r.getMessage().c_str());
        }
        MC_CHECK(d.roudi->processes() == d.registered(), "nonsense", "%d processes after the message %.200s", d.roudi->processes(), raw.c_str());
        d.check("a malformed message");
    }
    // life goes on
    d.create(0, SUB);
    d.create(0, CV);
    d.stop(0);
    b.alive = false;
    os::process(2);
    b.chan.reset();
    os::die(2);
    os::process(0);
    d.start(2);
    d.create(2, PUB);
    d.down();
}
// RouDi may die before any of its system calls while it starts or while it stops; the next one always comes up.
MC_SCENARIO(reboot, (mc::Opts{.preempt = 0, .fault = 1, .seconds = 60, .det = true, .races = false}),
            (mc::Opts{.preempt = 0, .fault = 2, .seconds = 400, .det = true, .races = false}))
{
    os::on();
    int deaths = mc::thorough() ? 2 : 1;
    for (int k = 0; k < deaths; ++k)
    {
        bool up = false;
        int f = mc::spawn([&] {
            os::process(0);
            auto* d = new Daemon(true);
            up = true;
            d->start(0);
            d->create(0, PUB);
            d->down();
        });
        os::process(9);
        os::mortal(0);
        while (!mc::done(f) && !mc::crashed(f))
            sleepMs(500);
        os::mortal(-1);
        if (mc::crashed(f))
        {
            // what the dead process had in its own memory is gone
            UntypedRelativePointer::unregisterAll();
            os::die(1);
        }
        (void)up;
    }
    os::process(0);
    auto& d = *new Daemon(true);
    d.start(0);
    d.create(0, PUB);
    d.create(0, SUB);
    d.tick();
    d.stop(0);
    d.down();
    MC_CHECK(os::files() == 0, "files", "left at the end: %s", os::listing().c_str());
}

// The real runtime: what it asks for is what it gets, with the documented corrections; refusals are no ports.
MC_SCENARIO(runtime_requests, D, T)
{
    auto& d = *new Daemon(mc::choose(2));
    auto& a = *new Proc("ant", 1);
    auto& b = *new Proc("bee", 2);
    auto& m = d.app[0];
    auto& n = d.app[1];
    m.registered = m.fresh = n.registered = n.fresh = true;
    d.check("two runtimes");
    static const capro::ServiceDescription sd{"s", "i", "e"};
    int kind = mc::choose(NPORT);
    const char* node = mc::choose(2) ? "node" : "";
    bool onCreate = mc::choose(2), slow = mc::choose(2);
    uint64_t e0 = sup::errors().count;
    switch (kind)
    {
    case PUB:
    {
        static const uint64_t H[] = {0, 1, MAX_PUBLISHER_HISTORY, MAX_PUBLISHER_HISTORY + 1, 1000};
        popo::PublisherOptions o;
        o.historyCapacity = H[mc::choose(5)];
        o.nodeName = into<lossy<NodeName_t>>(Str(node));
        o.offerOnCreate = onCreate;
        o.subscriberTooSlowPolicy = slow ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        auto* p = a.in([&](Rt& r) { return r.getMiddlewarePublisher(sd, o); });
        MC_CHECK(p && d.isPort(PUB, p, "ant"), "runtime", "no publisher");
        ++m.n[PUB];
        MC_CHECK(p->m_serviceDescription == sd, "runtime", "another service");
        uint64_t h = o.historyCapacity > MAX_PUBLISHER_HISTORY ? MAX_PUBLISHER_HISTORY : o.historyCapacity;
        MC_CHECK(p->m_options.historyCapacity == h && p->m_chunkSenderData.m_historyCapacity == h, "runtime-options",
                 "history capacity %d/%d, expected %d", (int)p->m_options.historyCapacity, (int)p->m_chunkSenderData.m_historyCapacity, (int)h);
        MC_CHECK(Str(p->m_options.nodeName.c_str()) == (*node ? node : "ant"), "runtime-options", "the publisher belongs to the node '%s' instead of '%s'",
                 p->m_options.nodeName.c_str(), *node ? node : "ant");
        MC_CHECK(p->m_options.offerOnCreate == onCreate && p->m_offered.load() == onCreate, "runtime-options", "offer on create is not respected");
        MC_CHECK(p->m_options.subscriberTooSlowPolicy == o.subscriberTooSlowPolicy, "runtime-options", "another policy");
        break;
    }
    case SUB:
    {
        static const uint64_t Q[] = {0, 1, 2, popo::SubscriberOptions().queueCapacity, popo::SubscriberOptions().queueCapacity + 1};
        static const uint64_t H[] = {0, 1, 3, 1000};
        popo::SubscriberOptions o;
        o.queueCapacity = Q[mc::choose(5)];
        o.historyRequest = H[mc::choose(4)];
        o.nodeName = into<lossy<NodeName_t>>(Str(node));
        o.subscribeOnCreate = onCreate;
        o.queueFullPolicy = slow ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
        o.requiresPublisherHistorySupport = mc::choose(2);
        auto* p = a.in([&](Rt& r) { return r.getMiddlewareSubscriber(sd, o); });
        MC_CHECK(p && d.isPort(SUB, p, "ant"), "runtime", "no subscriber");
        ++m.n[SUB];
        uint64_t max = popo::SubscriberOptions().queueCapacity;
        uint64_t q = o.queueCapacity == 0 ? 1 : o.queueCapacity > max ? max : o.queueCapacity;
        uint64_t h = o.historyRequest > q ? q : o.historyRequest;
        MC_CHECK(p->m_options.queueCapacity == q && p->m_chunkReceiverData.m_queue.capacity() == q, "runtime-options",
                 "queue capacity %d/%d, expected %d", (int)p->m_options.queueCapacity, (int)p->m_chunkReceiverData.m_queue.capacity(), (int)q);
        MC_CHECK(p->m_options.historyRequest == h, "runtime-options", "history request %d, expected %d", (int)p->m_options.historyRequest, (int)h);
        MC_CHECK(Str(p->m_options.nodeName.c_str()) == (*node ? node : "ant"), "runtime-options", "another node");
        MC_CHECK(p->m_options.subscribeOnCreate == onCreate && p->m_options.queueFullPolicy == o.queueFullPolicy
                     && p->m_options.requiresPublisherHistorySupport == o.requiresPublisherHistorySupport,
                 "runtime-options", "other options");
        break;
    }
    case CLI:
    {
        static const uint64_t Q[] = {0, 1, popo::ClientOptions().responseQueueCapacity, popo::ClientOptions().responseQueueCapacity + 1};
        popo::ClientOptions o;
        o.responseQueueCapacity = Q[mc::choose(4)];
        o.nodeName = into<lossy<NodeName_t>>(Str(node));
        o.connectOnCreate = onCreate;
        o.responseQueueFullPolicy = slow ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
        o.serverTooSlowPolicy = mc::choose(2) ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        auto* p = a.in([&](Rt& r) { return r.getMiddlewareClient(sd, o); });
        MC_CHECK(p && d.isPort(CLI, p, "ant"), "runtime", "no client");
        ++m.n[CLI];
        uint64_t max = popo::ClientOptions().responseQueueCapacity;
        uint64_t q = o.responseQueueCapacity == 0 ? 1 : o.responseQueueCapacity > max ? max : o.responseQueueCapacity;
        MC_CHECK(p->m_chunkReceiverData.m_queue.capacity() == q, "runtime-options", "queue capacity %d, expected %d",
                 (int)p->m_chunkReceiverData.m_queue.capacity(), (int)q);
        MC_CHECK(p->m_chunkReceiverData.m_queueFullPolicy == o.responseQueueFullPolicy
                     && p->m_chunkSenderData.m_consumerTooSlowPolicy == o.serverTooSlowPolicy && p->m_connectRequested.load() == onCreate,
                 "runtime-options", "other options");
        break;
    }
    case SRV:
    {
        static const uint64_t Q[] = {0, 1, popo::ServerOptions().requestQueueCapacity, popo::ServerOptions().requestQueueCapacity + 1};
        popo::ServerOptions o;
        o.requestQueueCapacity = Q[mc::choose(4)];
        o.nodeName = into<lossy<NodeName_t>>(Str(node));
        o.offerOnCreate = onCreate;
        o.requestQueueFullPolicy = slow ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
        o.clientTooSlowPolicy = mc::choose(2) ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        auto* p = a.in([&](Rt& r) { return r.getMiddlewareServer(sd, o); });
        MC_CHECK(p && d.isPort(SRV, p, "ant"), "runtime", "no server");
        ++m.n[SRV];
        uint64_t max = popo::ServerOptions().requestQueueCapacity;
        uint64_t q = o.requestQueueCapacity == 0 ? 1 : o.requestQueueCapacity > max ? max : o.requestQueueCapacity;
        MC_CHECK(p->m_chunkReceiverData.m_queue.capacity() == q, "runtime-options", "queue capacity %d, expected %d",
                 (int)p->m_chunkReceiverData.m_queue.capacity(), (int)q);
        MC_CHECK(p->m_chunkReceiverData.m_queueFullPolicy == o.requestQueueFullPolicy
                     && p->m_chunkSenderData.m_consumerTooSlowPolicy == o.clientTooSlowPolicy && p->m_offeringRequested.load() == onCreate,
                 "runtime-options", "other options");
        // a second server of the service is refused, whoever asks
        auto* s2 = (mc::choose(2) ? a : b).in([&](Rt& r) { return r.getMiddlewareServer(sd, o); });
        MC_CHECK(!s2, "runtime", "two servers of one service");
        break;
    }
    case CV:
    {
        for (int i = 0; i <= limitOf(CV); ++i)
        {
            bool other = mc::choose(2);
            auto* p = (other ? b : a).in([&](Rt& r) { return r.getMiddlewareConditionVariable(); });
            MC_CHECK((p != nullptr) == (i < limitOf(CV)), "runtime", "condition variable %d of %d: %p", i + 1, limitOf(CV), (void*)p);
            if (p)
            {
                MC_CHECK(d.isPort(CV, p, other ? "bee" : "ant"), "runtime", "not a condition variable of the application");
                ++(other ? n : m).n[CV];
            }
            else
                MC_CHECK(sup::errors().count > e0, "runtime", "a refusal is not reported");
        }
        break;
    }
    default:
    {
        for (int i = 0; i <= limitOf(ITF); ++i)
        {
            bool other = mc::choose(2);
            auto* p = (other ? b : a).in([&](Rt& r) { return r.getMiddlewareInterface(capro::Interfaces::DDS, "n"); });
            MC_CHECK((p != nullptr) == (i < limitOf(ITF)), "runtime", "interface %d of %d: %p", i + 1, limitOf(ITF), (void*)p);
            if (p)
            {
                MC_CHECK(d.isPort(ITF, p, other ? "bee" : "ant"), "runtime", "not an interface of the application");
                ++(other ? n : m).n[ITF];
            }
            else
                MC_CHECK(sup::errors().count > e0, "runtime", "a refusal is not reported");
        }
        break;
    }
    }
    d.pass(STEP);
    d.check("a request");
    // the runtimes keep themselves alive
    d.pass(2400);
    d.check("some time");
    bool first = mc::choose(2);
    (first ? a : b).end();
    d.forget(first ? m : n);
    d.pass(STEP);
    d.check("one runtime left");
    (first ? b : a).end();
    d.forget(first ? n : m);
    d.pass(STEP);
    d.check("both runtimes left");
    d.down();
    MC_CHECK(os::files() == 0, "files", "left at the end: %s", os::listing().c_str());
}
// The segments an application sees are exactly those of its groups, with write access only where it may write.
MC_SCENARIO(segments, D, T)
{
    static const char* G[] = {"root", "alice", "ipc"};
    static const unsigned U[] = {0, 1000, 1001};
    auto member = [](unsigned u, const Str& g) {
        return g == "root" ? u == 0 : g == "alice" ? u == 1000 : (u == 1000 || u == 1001);
    };
    int nseg = 1 + mc::choose((int)MAX_SHM_SEGMENTS);
    unsigned u = U[mc::choose(3)];
    // the writers of the segments are different groups (the names of the segments are theirs); the readers are free
    static const char* W[] = {"root", "alice", "bob", "ipc"};
    auto writes = [&](const Str& g) { return g == "bob" ? u == 1001 : member(u, g); };
    std::vector<std::pair<Str, Str>> seg;
    int rot = mc::choose(4), writable = 0;
    for (int i = 0; i < nseg; ++i)
    {
        seg.push_back({G[mc::choose(3)], W[(i + rot) % 4]});
        writable += writes(seg.back().second);
    }
    if (writable > 1)
        mc::prune(); // refused: a user may write to one segment only
    os::group(0, 2000); // RouDi runs in the group of its applications
    auto& d = *new Daemon(true, seg);
    // the view of the other process: nothing is registered yet
    auto* sm = d.comp->rouDiMemoryManager.segmentManager().value();
    uint64_t off = UntypedRelativePointer::getOffset(segment_id_t{d.mgmtId}, sm);
    uint64_t size = d.comp->rouDiMemoryManager.mgmtMemoryProvider()->size();
    UntypedRelativePointer::unregisterAll();
    os::born(1);
    os::user(1, u);
    os::process(1);
    {
        auto s = runtime::SharedMemoryUser::create(DEFAULT_DOMAIN_ID, d.mgmtId, size, off);
        int expect = 1;
        for (auto& x : seg)
            expect += member(u, x.first) || writes(x.second);
        MC_CHECK(!s.has_error(), "segments", "the segments of a valid configuration with %d segments cannot be opened: error %d", nseg,
                 (int)s.error());
        MC_CHECK(os::writable(1) == 1 + writable, "segments", "user %u may write to %d segments, expected %d", u, os::writable(1), 1 + writable);
        MC_CHECK(os::mappings(1) == expect, "segments", "user %u sees %d segments, expected %d", u, os::mappings(1), expect);
    }
    MC_CHECK(os::mappings(1) == 0 && os::openFds(1) == 0, "segments", "%d mappings and %d descriptors are left", os::mappings(1), os::openFds(1));
    os::process(0);
}

// There is one RouDi per domain: another one of the domain does not come up and does no harm; one of another domain is independent.
MC_SCENARIO(second_roudi, D, T)
{
    auto& d = *new Daemon(mc::choose(2));
    d.start(0);
    d.create(0, PUB);
    bool same = !experimental::hasExperimentalPoshFeaturesEnabled() || mc::choose(2);
    int files0 = os::files();
    for (int k = 0; k < (same ? 2 : 1); ++k)
    {
        bool up = false, refused = false;
        static bool* r;
        r = &refused;
        sup::panicHook() = [](void*) {
            *r = true;
            os::end(9);
        };
        os::born(9);
        int f = mc::spawn([&] {
            os::process(9);
            IceoryxConfig c = d.cfg;
            if (!same)
                c.domainId = DomainId{7};
            auto* comp = new roudi::IceOryxRouDiComponents(c);
            new R(comp->rouDiMemoryManager, comp->portManager, c);
            up = true;
            sleepMs(300);
            os::end(9); // its destructors would act on the pointers that are shared by all processes of this simulation
        });
        os::processOf(f, 9);
        for (int i = 0; i < 4; ++i)
        {
            d.pass(STEP);
            d.check("another RouDi");
            d.create(0, SUB);
            if (d.used(SUB) == 2)
            {
                d.stop(0);
                d.start(0);
                d.create(0, PUB);
            }
        }
        MC_CHECK(mc::done(f) || mc::crashed(f), "second", "the other RouDi neither ends nor is refused");
        sup::panicHook() = nullptr;
        MC_CHECK(up != same && refused == same, "second", "another RouDi of %s domain %s", same ? "the same" : "another", up ? "comes up" : "is refused");
        MC_CHECK((!same || os::files() == files0) && os::exists(ROUDI_PATH) && os::openFds(9) == 0 && os::mappings(9) == 0, "second", "the other RouDi leaves something behind");
    }
    d.tick();
    d.crash(0);
    d.tick();
    d.start(1);
    d.create(1, PUB);
    if (same)
        d.down();
}
namespace
{
constexpr mc::Opts DF{.preempt = 0, .fault = 1, .seconds = 60, .det = true, .races = false};
constexpr mc::Opts TF{.preempt = 0, .fault = 2, .seconds = 400, .det = true, .races = false};
void life(Rt& r, int what)
{
    static const capro::ServiceDescription sd{"s", "i", "e"};
    switch (what)
    {
    case PUB: r.getMiddlewarePublisher(sd); break;
    case SUB: r.getMiddlewareSubscriber(sd); break;
    case CLI: r.getMiddlewareClient(sd); break;
    case SRV: r.getMiddlewareServer(sd); break;
    case CV: r.getMiddlewareConditionVariable(); break;
    default: r.getMiddlewareInterface(capro::Interfaces::DDS, "n"); break;
    }
}
} // namespace
// An application may die before any of its system calls, from its first to its last one: nothing of it remains, the others are not
// disturbed and the next one of that name is served.
MC_SCENARIO(app_death, DF, TF)
{
    auto& d = *new Daemon(true);
    d.start(1);
    d.create(1, SUB);
    int p = mc::choose(NPORT), q = (p + 1 + mc::choose(2)) % NPORT;
    int deaths = mc::thorough() ? 2 : 1;
    for (int k = 0; k < deaths; ++k)
    {
        os::born(5);
        int f = mc::spawn([&] {
            os::process(5);
            RuntimeName_t n{"mayfly"};
            auto* rt = new Rt(&n, runtime::RuntimeLocation::SAME_PROCESS_LIKE_ROUDI);
            life(*rt, p);
            sleepMs(100);
            life(*rt, q);
            delete rt;
        });
        os::processOf(f, 5);
        os::mortal(5);
        for (int i = 0; i < 3; ++i)
            d.pass(STEP);
        os::mortal(-1);
        MC_CHECK(mc::crashed(f) || mc::done(f), "app-death", "the application hangs");
        if (mc::done(f))
            MC_CHECK(os::openFds(5) == 0 && os::mappings(5) == 0, "descriptors", "an orderly end leaves %d descriptors", os::openFds(5));
        os::die(5);
    }
    for (int i = 0; i < 8; ++i)
        d.pass(STEP);
    d.check("a sudden death");
    d.create(1, PUB);
    {
        auto& a = *new Proc("mayfly", 6);
        auto* pub = a.in([&](Rt& r) { return r.getMiddlewarePublisher({"x", "y", "z"}); });
        MC_CHECK(pub && d.isPort(PUB, pub, "mayfly"), "app-death", "the next one is not served");
        d.pass(2400);
        MC_CHECK(d.roudi->processes() == 2, "app-death", "the next one is not kept");
        a.end();
    }
    d.pass(STEP);
    d.check("its successor");
    d.down();
    MC_CHECK(os::files() == 2, "files", "left at the end: %s", os::listing().c_str()); // the other application's
}
// The handshake of an application with a RouDi that is there, comes late, never comes, dies or is replaced, with answers to others'
// requests in between: it succeeds whenever RouDi is there in time, with RouDi's current data, and gives up in time otherwise.
MC_SCENARIO(handshake, D, T)
{
    static const int WAIT[] = {0, 600, 2000, 5000};
    // when RouDi comes up, in ms after the application started to look for it; -1: it is there already, -2: never
    static const int COME[] = {-1, 50, 350, 1250, -2};
    int wait = WAIT[mc::choose(4)], come = COME[mc::choose(5)];
    int replaced = come == -2 ? 0 : mc::choose(2);  // it dies suddenly after 200 ms and another one comes up at once
    int stale = mc::choose(4);                  // messages of others that arrive first
    int kind = stale ? mc::choose(3) : 0;
    bool mon = mc::choose(2);
    bool mute = come > 0 && !replaced && mc::choose(2); // before it comes there is one that hangs
    os::on();
    Daemon* d = nullptr;
    if (mute)
    {
        os::born(9);
        os::process(9);
        (void)new auto(runtime::IpcInterfaceCreator::create(roudi::IPC_CHANNEL_ROUDI_NAME, DEFAULT_DOMAIN_ID, ResourceType::ICEORYX_DEFINED));
        os::process(0);
    }
    auto up = [&] {
        if (mute)
            os::die(9);
        os::process(0);
        d = new Daemon(mon);
    };
    if (come == -1)
        up();
    uint64_t t0 = mc::now_ns() / MS, t1 = 0;
    using I = runtime::IpcRuntimeInterface;
    expected<I, runtime::IpcRuntimeInterfaceError>* r = nullptr;
    os::born(1);
    int f = mc::spawn([&] {
        os::process(1);
        r = new expected<I, runtime::IpcRuntimeInterfaceError>(
            I::create(RuntimeName_t{"ant"}, DEFAULT_DOMAIN_ID, units::Duration::fromMilliseconds((uint64_t)wait)));
        t1 = mc::now_ns() / MS;
    });
    os::processOf(f, 1);
    sleepMs(5);
    if (stale && mc::done(f))
        mc::prune();
    for (int i = 0; i < stale; ++i)
    {
        IpcMessage m;
        if (kind == 0)
            m << type(IpcMessageType::REG_ACK) << "4096" << "8" << "17" << "9" << "4711"; // of another attempt
        else if (kind == 1)
            m << type(IpcMessageType::CREATE_PUBLISHER_ACK) << "1" << "2";
        else
            m << type(IpcMessageType::REG_ACK) << "4096" << "x" << "17" << "9" << "4711";
        os::inject("/tmp/iox1_0_u_ant", m.getMessage().c_str(), m.getMessage().size() + 1);
    }
    uint64_t latest = t0 + (uint64_t)wait + 3600; // three attempts of one second for the answer
    auto done = [&] { return mc::done(f); };
    uint64_t upSince = t0;
    if (come >= 0)
    {
        sleepMs((unsigned)come);
        up();
        upSince = mc::now_ns() / MS;
    }
    if (replaced && d)
    {
        sleepMs(200);
        os::process(9);
        os::end(0);
        UntypedRelativePointer::unregisterAll();
        bool before = done();
        if (before)
            mc::prune(); // the old one answered already: see 'membership'
        up();
        upSince = mc::now_ns() / MS;
    }
    while (!done() && mc::now_ns() / MS < latest + 500)
        sleepMs(20);
    MC_CHECK(done(), "handshake", "no answer after %d ms with a waiting time of %d", (int)(mc::now_ns() / MS - t0), wait);
    bool ok = !r->has_error();
    // an answer takes up to one period of RouDi's loop, a reopened channel one second, messages of others are skipped
    bool must = d && (come == -1 ? !replaced : wait == 5000);
    bool mustNot = !d || (come > wait + 700 && !replaced);
    MC_CHECK(ok || !must, "handshake", "failed with error %d although RouDi is there since %d ms", (int)r->error(), (int)(t1 - upSince));
    MC_CHECK(!ok || !mustNot, "handshake", "success without RouDi");
    if (!d)
        MC_CHECK(r->error() == runtime::IpcRuntimeInterfaceError::TIMEOUT_WAITING_FOR_ROUDI, "handshake", "error %d instead of a timeout", (int)r->error());
    if (!d)
        MC_CHECK(t1 - t0 >= (uint64_t)wait && t1 - t0 <= (uint64_t)wait + 200, "handshake", "gave up after %d ms instead of %d", (int)(t1 - t0), wait);
    os::process(1);
    if (ok)
    {
        auto& i = r->value();
        MC_CHECK(i.getShmTopicSize() == d->comp->rouDiMemoryManager.mgmtMemoryProvider()->size() && i.getSegmentId() == d->mgmtId, "handshake",
                 "the data of another RouDi: size %llu", (unsigned long long)i.getShmTopicSize());
        MC_CHECK(UntypedRelativePointer::getPtr(segment_id_t{d->mgmtId}, i.getSegmentManagerAddressOffset())
                     == d->comp->rouDiMemoryManager.segmentManager().value(), "handshake", "another segment manager");
        MC_CHECK(i.getHeartbeatAddressOffset().has_value() == mon, "handshake", "%s heartbeat", mon ? "no" : "a");
        MC_CHECK(d->roudi->processes() == 1, "handshake", "%d processes are registered", d->roudi->processes());
        // and the channels work
        IpcMessage m, a;
        m << type(IpcMessageType::CREATE_CONDITION_VARIABLE) << "ant";
        MC_CHECK(i.sendRequestToRouDi(m, a), "handshake", "no answer to a request");
        MC_CHECK(a.getElementAtIndex(0) == type(IpcMessageType::CREATE_CONDITION_VARIABLE_ACK), "handshake", "answer to another request: %s",
                 a.getMessage().c_str());
    }
    delete r;
    MC_CHECK(os::openFds(1) == 0, "descriptors", "the application leaves %d descriptors", os::openFds(1));
    MC_CHECK(!os::exists("/tmp/iox1_0_u_ant"), "files", "the application leaves its channel");
}
// Any system call of the application fails: the handshake succeeds all the same or is given up, without leaving anything open.
MC_SCENARIO(handshake_faults, DF, TF)
{
    auto& d = *new Daemon(mc::choose(2));
    using I = runtime::IpcRuntimeInterface;
    os::born(1);
    os::process(1);
    int f0 = os::faultCount();
    os::faultsOf(1);
    {
        auto r = I::create(RuntimeName_t{"ant"}, DEFAULT_DOMAIN_ID, units::Duration::fromMilliseconds(2000));
        os::faultsOf(-1);
        bool clean = os::faultCount() == f0;
        MC_CHECK(!clean || !r.has_error(), "handshake", "failed without a fault");
        if (!r.has_error())
        {
            MC_CHECK(d.roudi->processes() == 1 && r->getSegmentId() == d.mgmtId, "handshake", "not registered");
            IpcMessage m, a;
            m << type(IpcMessageType::CREATE_CONDITION_VARIABLE) << "ant";
            MC_CHECK(r->sendRequestToRouDi(m, a), "handshake", "no answer to a request after %s failed", os::lastFault());
            MC_CHECK(a.getElementAtIndex(0) == type(IpcMessageType::CREATE_CONDITION_VARIABLE_ACK), "handshake",
                     "answer to another request after %s failed: %s", os::lastFault(), a.getMessage().c_str());
        }
    }
    MC_CHECK(os::openFds(1) == 0, "descriptors", "the application leaves %d descriptors after %s failed", os::openFds(1), os::lastFault());
    MC_CHECK(os::badCloses() == 0, "descriptors", "a descriptor was closed twice after %s failed", os::lastFault());
    os::process(0);
}
