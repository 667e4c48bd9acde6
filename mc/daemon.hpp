// Fixture: the whole RouDi (all its threads, its real memory manager, process manager and IPC) and its applications on a simulated
// kernel, with a model of what RouDi has to know.
#pragma once
#include "os.hpp"
#include "ioxsup.hpp"
#include "iceoryx_posh/iceoryx_posh_config.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_user.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp"
#include "iceoryx_posh/internal/runtime/posh_runtime_impl.hpp"
#include "iceoryx_posh/internal/runtime/shared_memory_user.hpp"
#include "iceoryx_posh/internal/roudi/roudi.hpp"
#include "iceoryx_posh/internal/runtime/heartbeat.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_creator.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_user.hpp"
#include "iceoryx_posh/roudi/iceoryx_roudi_components.hpp"
#include "iceoryx_posh/version/version_info.hpp"
#include "iox/detail/convert.hpp"
#include "iox/std_string_support.hpp"
#include <csignal>
#include <cstring>
#include <ctime>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace iox;
using runtime::IpcMessage;
using runtime::IpcMessageErrorType;
using runtime::IpcMessageType;
using Str = std::string;

namespace
{
constexpr uint64_t MS = 1000000;
constexpr uint64_t STEP = 240; // no multiple of it is near the heartbeat timeout
void sleepMs(uint64_t ms)
{
    timespec t{(time_t)(ms / 1000), (long)(ms % 1000 * MS)};
    nanosleep(&t, nullptr);
}
Str type(IpcMessageType t) { return runtime::IpcMessageTypeToString(t); }
const char* NAMES[] = {"ant", "bee", "bee2", "cat"};
constexpr int NAPP = 4;

enum Port
{
    PUB,
    SUB,
    CLI,
    SRV,
    CV,
    ITF,
    NPORT
};
const char* PN[] = {"publisher", "subscriber", "client", "server", "condition variable", "interface"};
const IpcMessageType REQ[] = {IpcMessageType::CREATE_PUBLISHER, IpcMessageType::CREATE_SUBSCRIBER, IpcMessageType::CREATE_CLIENT,
                              IpcMessageType::CREATE_SERVER, IpcMessageType::CREATE_CONDITION_VARIABLE, IpcMessageType::CREATE_INTERFACE};
const IpcMessageType ACK[] = {IpcMessageType::CREATE_PUBLISHER_ACK, IpcMessageType::CREATE_SUBSCRIBER_ACK, IpcMessageType::CREATE_CLIENT_ACK,
                              IpcMessageType::CREATE_SERVER_ACK, IpcMessageType::CREATE_CONDITION_VARIABLE_ACK,
                              IpcMessageType::CREATE_INTERFACE_ACK};
const IpcMessageErrorType FULL[] = {IpcMessageErrorType::PUBLISHER_LIST_FULL, IpcMessageErrorType::SUBSCRIBER_LIST_FULL,
                                    IpcMessageErrorType::CLIENT_LIST_FULL, IpcMessageErrorType::SERVER_LIST_FULL,
                                    IpcMessageErrorType::CONDITION_VARIABLE_LIST_FULL, IpcMessageErrorType::NOTYPE};
int limitOf(int p)
{
    switch (p)
    {
    case PUB: return (int)MAX_PUBLISHERS - (int)NUMBER_OF_INTERNAL_PUBLISHERS;
    case SUB: return (int)MAX_SUBSCRIBERS;
    case CLI: return (int)MAX_CLIENTS;
    case SRV: return (int)MAX_SERVERS;
    case CV: return (int)MAX_NUMBER_OF_CONDITION_VARIABLES;
    default: return (int)MAX_INTERFACE_NUMBER;
    }
}
struct R : roudi::RouDi
{
    using RouDi::RouDi;
    int processes() { return (int)m_prcMgr->registeredProcessCount(); }
};
struct App
{
    Str name;
    int proc{0};
    unsigned uid{0};
    optional<runtime::IpcInterfaceCreator> chan;
    optional<runtime::IpcInterfaceUser> roudi;
    runtime::Heartbeat* hb{nullptr};
    bool alive{false};      // the process runs
    bool hung{false};       // but gives no sign of life any more
    // what RouDi has to know about it
    bool registered{false};
    bool fresh{false};      // the registered incarnation is the running one
    uint64_t beat{0};       // when it gave its last sign of life
    int n[NPORT]{};
    Str path() const { return Str("/tmp/iox1_0_u_") + name; }
};
const char* ROUDI_PATH = "/tmp/iox1_0_i_roudi";

struct Daemon
{
    IceoryxConfig cfg;
    std::unique_ptr<roudi::IceOryxRouDiComponents> comp;
    std::unique_ptr<R> roudi;
    roudi::PortPool* pool{};
    int internal[NPORT]{};
    int fds0{0}, files0{0};
    uint64_t mgmtId{0};
    int serial{0};
    bool monitored;
    App app[NAPP];
    popo::PublisherOptions pubOptions;
    popo::SubscriberOptions subOptions;
    explicit Daemon(bool mon, const std::vector<std::pair<Str, Str>>& segments = {{"root", "root"}}, uint32_t introspectionChunks = 2)
        : monitored(mon)
    {
        os::on();
        os::born(0);
        cfg.domainId = DEFAULT_DOMAIN_ID;
        cfg.sharesAddressSpaceWithApplications = false;
        cfg.monitoringMode = mon ? roudi::MonitoringMode::ON : roudi::MonitoringMode::OFF;
        cfg.introspectionChunkCount = introspectionChunks;
        cfg.discoveryChunkCount = 4;
        cfg.processKillDelay = units::Duration::fromSeconds(5);
        mepoo::MePooConfig mp;
        mp.addMemPool({128, 8});
        for (auto& x : segments)
            cfg.m_sharedMemorySegments.push_back({into<lossy<PosixGroup::groupName_t>>(x.first), into<lossy<PosixGroup::groupName_t>>(x.second), mp});
        boot();
        for (int i = 0; i < NAPP; ++i)
            app[i].name = NAMES[i];
    }
    void boot()
    {
        comp = std::make_unique<roudi::IceOryxRouDiComponents>(cfg);
        roudi = std::make_unique<R>(comp->rouDiMemoryManager, comp->portManager, cfg);
        pool = comp->rouDiMemoryManager.portPool().value();
        mgmtId = comp->rouDiMemoryManager.mgmtMemoryProvider()->segmentId().value();
        pass(STEP);
        count(nullptr, internal);
        fds0 = os::openFds(0);
        files0 = os::files();
    }
    // time passes; the processes which are alive give their sign of life
    void pass(uint64_t ms)
    {
        for (uint64_t t = 0; t < ms; t += STEP)
        {
            for (auto& a : app)
                if (a.alive && a.hb)
                {
                    a.hb->beat();
                    a.beat = mc::now_ns() / MS;
                }
            sleepMs(STEP);
        }
    }
    // who is silent for too long is removed with all it has
    void reap()
    {
        const uint64_t limit = runtime::PROCESS_KEEP_ALIVE_TIMEOUT.toMilliseconds();
        for (auto& a : app)
            if (a.registered && monitored && (!a.fresh || a.hung))
            {
                uint64_t e = mc::now_ns() / MS - a.beat;
                if (e > limit + 120)
                    forget(a);
                else if (e > limit)
                    mc::fail("harness", "%d ms since the last heartbeat: cannot tell", (int)e);
            }
    }
    template <class L>
    static int cnt(L& l, const RuntimeName_t* n)
    {
        int k = 0;
        for (auto& p : l)
            k += !n || p.m_runtimeName == *n;
        return k;
    }
    void count(const RuntimeName_t* n, int (&c)[NPORT])
    {
        mc::Atomic a;
        c[PUB] = cnt(pool->getPublisherPortDataList(), n);
        c[SUB] = cnt(pool->getSubscriberPortDataList(), n);
        c[CLI] = cnt(pool->getClientPortDataList(), n);
        c[SRV] = cnt(pool->getServerPortDataList(), n);
        c[CV] = cnt(pool->getConditionVariableDataList(), n);
        c[ITF] = cnt(pool->getInterfacePortDataList(), n);
    }
    int registered() const
    {
        int n = 0;
        for (auto& a : app)
            n += a.registered;
        return n;
    }
    int used(int port) const
    {
        int n = 0;
        for (auto& a : app)
            n += a.n[port];
        return n;
    }
    // everything RouDi keeps is what the history of accepted requests says
    void check(const char* after)
    {
        reap();
        MC_CHECK(roudi->processes() == registered(), "membership", "after %s: %d processes are registered, expected %d", after,
                 roudi->processes(), registered());
        int all[NPORT];
        count(nullptr, all);
        for (int p = 0; p < NPORT; ++p)
            MC_CHECK(all[p] - internal[p] == used(p), "resources", "after %s: %d %s ports exist, expected %d", after, all[p] - internal[p],
                     PN[p], used(p));
        for (auto& a : app)
        {
            RuntimeName_t n(into<lossy<RuntimeName_t>>(a.name));
            int c[NPORT];
            count(&n, c);
            for (int p = 0; p < NPORT; ++p)
                MC_CHECK(c[p] == a.n[p], "resources", "after %s: %s has %d %s ports, expected %d", after, a.name.c_str(), c[p], PN[p], a.n[p]);
            if (a.alive)
                MC_CHECK(os::queued(a.path().c_str()) == 0, "unexpected-answer", "after %s: %s has an unexpected message", after, a.name.c_str());
        }
        MC_CHECK(os::openFds(0) == fds0 + registered(), "descriptors", "after %s: RouDi holds %d descriptors more than at its start with %d processes",
                 after, os::openFds(0) - fds0, registered());
        MC_CHECK(os::wildKills() == 0, "kill", "after %s: RouDi signalled a process group", after);
    }
    void forget(App& a)
    {
        a.registered = a.fresh = false;
        memset(a.n, 0, sizeof a.n);
    }
    bool answer(App& a, IpcMessage& m)
    {
        if (os::queued(a.path().c_str()) <= 0)
            return false;
        return a.chan->receive(m);
    }
    static Str version() { return static_cast<Serialization>(version::VersionInfo::getCurrentVersion()).toString(); }
    // ---- operations
    void start(int i, unsigned uid = 0)
    {
        App& a = app[i];
        a.proc = i + 1;
        a.uid = uid;
        mc::log("start %s", a.name.c_str());
        os::born(a.proc);
        os::user(a.proc, uid);
        os::process(a.proc);
        auto c = runtime::IpcInterfaceCreator::create(into<lossy<RuntimeName_t>>(a.name), DEFAULT_DOMAIN_ID, ResourceType::USER_DEFINED);
        MC_CHECK(!c.has_error() && c->isInitialized(), "channel", "%s cannot create its channel", a.name.c_str());
        a.chan.emplace(std::move(*c));
        a.roudi.emplace(roudi::IPC_CHANNEL_ROUDI_NAME, DEFAULT_DOMAIN_ID, ResourceType::ICEORYX_DEFINED);
        a.alive = true;
        int64_t ts = 1000 + ++serial;
        IpcMessage m;
        m << type(IpcMessageType::REG) << a.name << convert::toString(os::pidOf(a.proc)) << convert::toString(uid) << convert::toString(ts)
          << version();
        MC_CHECK(a.roudi->send(m), "send", "%s cannot send", a.name.c_str());
        os::process(0);
        if (a.registered)
            forget(a); // whatever the dead predecessor had
        bool room = registered() < (int)MAX_PROCESS_NUMBER;
        a.beat = mc::now_ns() / MS;
        a.hb = nullptr;
        pass(STEP);
        IpcMessage r;
        bool got = answer(a, r);
        MC_CHECK(got == room, "registration", "%s %s an answer to its registration with %d others registered", a.name.c_str(),
                 got ? "gets" : "does not get", registered());
        if (got)
        {
            MC_CHECK(r.getNumberOfElements() == 6 && r.getElementAtIndex(0) == type(IpcMessageType::REG_ACK), "registration",
                     "answer to REG of %s: %s", a.name.c_str(), r.getMessage().c_str());
            MC_CHECK(r.getElementAtIndex(3) == Str(convert::toString(ts)), "registration", "the acknowledgement carries another time stamp");
            MC_CHECK(r.getElementAtIndex(4) == Str(convert::toString(mgmtId)), "registration", "wrong segment id");
            MC_CHECK(r.getElementAtIndex(1) == Str(convert::toString(comp->rouDiMemoryManager.mgmtMemoryProvider()->size())), "registration",
                     "wrong size");
            uint64_t so = convert::from_string<uint64_t>(r.getElementAtIndex(2).c_str()).value();
            MC_CHECK(UntypedRelativePointer::getPtr(segment_id_t{mgmtId}, so) == comp->rouDiMemoryManager.segmentManager().value(),
                     "registration", "wrong segment manager");
            uint64_t ho = convert::from_string<uint64_t>(r.getElementAtIndex(5).c_str()).value();
            a.hb = nullptr;
            if (monitored)
            {
                a.hb = static_cast<runtime::Heartbeat*>(UntypedRelativePointer::getPtr(segment_id_t{mgmtId}, ho));
                MC_CHECK(a.hb, "registration", "no heartbeat for a monitored application");
                for (auto& b : app)
                    MC_CHECK(&a == &b || !b.registered || !b.fresh || b.hb != a.hb, "registration", "two applications share a heartbeat");
            }
            else
                MC_CHECK(ho == UntypedRelativePointer::NULL_POINTER_OFFSET, "registration", "a heartbeat without monitoring");
            a.registered = a.fresh = true;
        }
        else
            gone(i, false);
        check("start");
    }
    void gone(int i, bool orderly)
    {
        App& a = app[i];
        a.alive = a.hung = false;
        a.hb = nullptr;
        a.fresh = false;
        os::process(a.proc);
        if (!orderly)
            os::die(a.proc);
        os::process(a.proc);
        if (orderly)
        {
            a.chan.reset();
            a.roudi.reset();
            os::die(a.proc);
        }
        else
        {
            // the objects of a dead process are never destroyed
            (void)new optional<runtime::IpcInterfaceCreator>(std::move(a.chan));
            (void)new optional<runtime::IpcInterfaceUser>(std::move(a.roudi));
            a.chan.reset();
            a.roudi.reset();
        }
        os::process(0);
    }
    void crash(int i)
    {
        mc::log("crash %s", app[i].name.c_str());
        gone(i, false);
        pass(STEP);
        check("crash");
    }
    void hang(int i)
    {
        mc::log("%s hangs", app[i].name.c_str());
        app[i].hung = true;
        app[i].hb = nullptr;
        pass(STEP);
        check("hang");
    }
    void post(App& a, const IpcMessage& m)
    {
        os::process(a.proc);
        MC_CHECK(a.roudi->send(m), "send", "%s cannot send", a.name.c_str());
        os::process(0);
        pass(STEP);
    }
    void stop(int i)
    {
        App& a = app[i];
        mc::log("stop %s", a.name.c_str());
        IpcMessage m, r;
        m << type(IpcMessageType::TERMINATION) << a.name;
        reap();
        post(a, m);
        bool got = answer(a, r);
        MC_CHECK(got == a.registered, "termination", "%s %s an answer to TERMINATION", a.name.c_str(), got ? "gets" : "does not get");
        if (got)
            MC_CHECK(r.getNumberOfElements() == 1 && r.getElementAtIndex(0) == type(IpcMessageType::TERMINATION_ACK), "termination",
                     "answer to TERMINATION: %s", r.getMessage().c_str());
        forget(a);
        check("stop");
        gone(i, true);
        MC_CHECK(!os::exists(a.path().c_str()) && !os::exists((a.path() + ".lock").c_str()), "files", "%s leaves files behind: %s",
                 a.name.c_str(), os::listing().c_str());
    }
    void prepare(int i)
    {
        App& a = app[i];
        mc::log("prepare %s", a.name.c_str());
        IpcMessage m, r;
        m << type(IpcMessageType::PREPARE_APP_TERMINATION) << a.name;
        post(a, m);
        MC_CHECK(answer(a, r), "termination", "%s gets no answer to PREPARE_APP_TERMINATION", a.name.c_str());
        MC_CHECK(r.getNumberOfElements() == 1 && r.getElementAtIndex(0) == type(IpcMessageType::PREPARE_APP_TERMINATION_ACK), "termination",
                 "answer to PREPARE_APP_TERMINATION: %s", r.getMessage().c_str());
        check("prepare");
    }
    IpcMessage request(const App& a, int p, const capro::ServiceDescription* service = nullptr)
    {
        IpcMessage m;
        char s[32];
        snprintf(s, sizeof s, "S%d", service ? 0 : ++serial);
        capro::ServiceDescription sd{into<lossy<capro::IdString_t>>(Str(s)), "i", "e"};
        if (service)
            sd = *service;
        m << type(REQ[p]) << a.name;
        auto srv = static_cast<Serialization>(sd).toString();
        auto info = static_cast<Serialization>(runtime::PortConfigInfo()).toString();
        switch (p)
        {
        case PUB: m << srv << pubOptions.serialize().toString() << info; break;
        case SUB: m << srv << subOptions.serialize().toString() << info; break;
        case CLI: m << srv << popo::ClientOptions().serialize().toString() << info; break;
        case SRV: m << srv << popo::ServerOptions().serialize().toString() << info; break;
        case ITF: m << convert::toString(1) << Str("node"); break;
        default: break;
        }
        return m;
    }
    template <class L>
    static bool inList(L& l, void* p, const Str& name)
    {
        for (auto& x : l)
            if ((void*)&x == p)
                return x.m_runtimeName == into<lossy<RuntimeName_t>>(name);
        return false;
    }
    bool isPort(int p, void* x, const Str& n)
    {
        mc::Atomic at;
        switch (p)
        {
        case PUB: return inList(pool->getPublisherPortDataList(), x, n);
        case SUB: return inList(pool->getSubscriberPortDataList(), x, n);
        case CLI: return inList(pool->getClientPortDataList(), x, n);
        case SRV: return inList(pool->getServerPortDataList(), x, n);
        case CV: return inList(pool->getConditionVariableDataList(), x, n);
        default: return inList(pool->getInterfacePortDataList(), x, n);
        }
    }
    // why: expected refusal (END: none expected except because of the limit)
    void* create(int i, int p, const capro::ServiceDescription* service = nullptr, IpcMessageErrorType why = IpcMessageErrorType::END)
    {
        App& a = app[i];
        mc::log("%s creates %s", a.name.c_str(), PN[p]);
        bool room = used(p) < limitOf(p);
        post(a, request(a, p, service));
        IpcMessage r;
        bool got = answer(a, r);
        MC_CHECK(got == a.registered, "request", "%s %s an answer to its request for a %s", a.name.c_str(), got ? "gets" : "does not get", PN[p]);
        void* made = nullptr;
        if (!got)
        {
            check("create");
            return nullptr;
        }
        auto refused = why != IpcMessageErrorType::END ? why : room ? IpcMessageErrorType::END : FULL[p];
        if (refused == IpcMessageErrorType::END)
        {
            MC_CHECK(r.getNumberOfElements() == 3 && r.getElementAtIndex(0) == type(ACK[p]), "request", "answer to the request for a %s: %s", PN[p],
                     r.getMessage().c_str());
            auto off = convert::from_string<uint64_t>(r.getElementAtIndex(1).c_str());
            auto id = convert::from_string<uint64_t>(r.getElementAtIndex(2).c_str());
            MC_CHECK(off && id && *id == mgmtId, "request", "answer to the request for a %s: %s", PN[p], r.getMessage().c_str());
            void* x = UntypedRelativePointer::getPtr(segment_id_t{*id}, *off);
            MC_CHECK(x && isPort(p, x, a.name), "request", "the acknowledged %s is not a port of %s", PN[p], a.name.c_str());
            ++a.n[p];
            made = x;
        }
        else if (p == ITF)
        {
            // documented: no error for interfaces; it must not be a port
            auto off = convert::from_string<uint64_t>(r.getElementAtIndex(1).c_str());
            MC_CHECK(r.getElementAtIndex(0) != type(ACK[p]) || (off && *off == UntypedRelativePointer::NULL_POINTER_OFFSET), "request",
                     "an interface beyond the limit: %s", r.getMessage().c_str());
        }
        else
            MC_CHECK(r.getNumberOfElements() == 2 && r.getElementAtIndex(0) == type(IpcMessageType::ERROR_RESPONSE)
                         && r.getElementAtIndex(1) == runtime::IpcMessageErrorTypeToString(refused),
                     "request", "answer to the request for a %s which has to be refused with %s: %s", PN[p],
                     runtime::IpcMessageErrorTypeToString(refused).c_str(), r.getMessage().c_str());
        check("create");
        return made;
    }
    template <class L>
    static bool mark(L& l, const RuntimeName_t& n, bool last)
    {
        auto e = l.end();
        for (auto i = l.begin(); i != l.end(); ++i)
            if (i->m_runtimeName == n && (last || e == l.end()))
                e = i;
        if (e == l.end())
            return false;
        e->m_toBeDestroyed.store(true);
        return true;
    }
    // the application destroys its first or last port of that kind
    void destroy(int i, int p, bool last)
    {
        App& a = app[i];
        mc::log("%s destroys %s", a.name.c_str(), PN[p]);
        RuntimeName_t n(into<lossy<RuntimeName_t>>(a.name));
        bool r = false;
        switch (p)
        {
        case PUB: r = mark(pool->getPublisherPortDataList(), n, last); break;
        case SUB: r = mark(pool->getSubscriberPortDataList(), n, last); break;
        case CLI: r = mark(pool->getClientPortDataList(), n, last); break;
        case SRV: r = mark(pool->getServerPortDataList(), n, last); break;
        case CV: r = mark(pool->getConditionVariableDataList(), n, last); break;
        default: r = mark(pool->getInterfacePortDataList(), n, last); break;
        }
        MC_CHECK(r == (a.n[p] > 0), "harness", "no such port");
        if (r)
            --a.n[p];
        pass(STEP);
        check("destroy");
    }
    // long enough for RouDi to miss the heartbeat of the dead
    void tick()
    {
        mc::log("two seconds pass");
        pass(2000);
        check("two seconds");
    }
    // RouDi shuts down and starts again
    void down()
    {
        mc::log("RouDi shuts down");
        int apps = 0;
        for (int i = 0; i < NAPP; ++i)
            if (os::exists(app[i].path().c_str()))
                apps += 2;
        roudi.reset();
        comp.reset();
        MC_CHECK(os::openFds(0) == 0, "descriptors", "%d descriptors are left after the shutdown", os::openFds(0));
        MC_CHECK(os::mappings(0) == 0, "descriptors", "%d mappings are left after the shutdown", os::mappings(0));
        MC_CHECK(os::files() == apps, "files", "left after the shutdown: %s", os::listing().c_str());
        MC_CHECK(os::badCloses() == 0, "descriptors", "a descriptor was closed twice");
        MC_CHECK(os::wildKills() == 0, "kill", "RouDi signalled a process group");
        for (int i = 0; i < NAPP; ++i)
        {
            App& a = app[i];
            if (!a.proc)
                continue;
            uint64_t sig = os::signals(a.proc);
            bool first = sig >> SIGTERM & 1, last = sig >> SIGKILL & 1;
            MC_CHECK(first == (a.registered && a.fresh), "kill", "%s %s signalled", a.name.c_str(), first ? "is" : "is not");
            MC_CHECK(last == first, "kill", "%s is %s", a.name.c_str(), last ? "killed without warning" : "still running");
        }
    }
};
struct Rt : runtime::PoshRuntimeImpl
{
    Rt(const RuntimeName_t* n, runtime::RuntimeLocation l)
        : PoshRuntimeImpl(make_optional<const RuntimeName_t*>(n), DEFAULT_DOMAIN_ID, l)
    {
    }
};
// a runtime in its own (simulated) process
struct Proc
{
    RuntimeName_t name;
    int proc;
    Rt* rt{nullptr};
    Proc(const char* n, int p)
        : name(into<lossy<RuntimeName_t>>(Str(n)))
        , proc(p)
    {
        os::born(p);
        os::process(p);
        rt = new Rt(&name, runtime::RuntimeLocation::SAME_PROCESS_LIKE_ROUDI);
        os::process(0);
    }
    template <class F>
    auto in(F f)
    {
        os::process(proc);
        auto r = f(*rt);
        os::process(0);
        return r;
    }
    void end()
    {
        os::process(proc);
        delete rt;
        os::process(0);
        MC_CHECK(os::openFds(proc) == 0, "descriptors", "%s leaves %d descriptors", name.c_str(), os::openFds(proc));
        os::die(proc);
    }
};
} // namespace
