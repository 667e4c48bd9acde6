// Named locks and channels on a simulated kernel: one owner at a time, and the next one gets them, under every schedule, crash
// point and failing call.
#include "os.hpp"
#include "ioxsup.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_creator.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_user.hpp"
#include "iox/file_lock.hpp"
#include "iox/optional.hpp"
#include <string>
using namespace iox;
using Str = std::string;

namespace
{
constexpr mc::Opts S(int preempt, double seconds = 60, int fault = 0)
{
    mc::Opts o;
    o.preempt = preempt;
    o.fault = fault;
    o.seconds = seconds;
    return o;
}
expected<FileLock, FileLockError> lock(const char* name = "it")
{
    return FileLockBuilder().name(FileLock::FileName_t(TruncateToCapacity, name)).path("/tmp").permission(perms::owner_all).create();
}
using Chan = runtime::IpcInterfaceCreator;
expected<Chan, runtime::IpcInterfaceCreatorError> channel(const char* name = "ant")
{
    return Chan::create(RuntimeName_t(TruncateToCapacity, name), DEFAULT_DOMAIN_ID, ResourceType::USER_DEFINED);
}
constexpr const char* SOCK = "/tmp/iox1_0_u_ant";
constexpr const char* LOCK = "/tmp/iox1_0_u_ant.lock";

// Who holds what, and whether an attempt was alone.
struct World
{
    int holders{0}, busy{0}, starts{0}, wins{0}, losses{0};
    struct Try
    {
        int s;
        bool alone;
    };
    Try begin()
    {
        mc::Atomic a;
        return {++starts, busy++ == 0};
    }
    void lost(const Try& t, bool inUse, int err, const char* what)
    {
        mc::Atomic a;
        MC_CHECK(inUse, "attempt", "%s failed with error %d", what, err);
        MC_CHECK(!t.alone || starts != t.s, "attempt", "%s is refused although nobody else had or wanted it", what);
        --busy;
        ++losses;
    }
    void won(const char* what)
    {
        mc::Atomic a;
        MC_CHECK(holders++ == 0, "owners", "%d processes have %s at the same time", holders, what);
        ++wins;
    }
    void releasing()
    {
        mc::Atomic a;
        --holders;
    }
    void released()
    {
        mc::Atomic a;
        --busy;
    }
};
void nothingLeft(const char* when)
{
    MC_CHECK(os::openFds(-1) == 0, "descriptors", "%s: %d descriptors are open", when, os::openFds(-1));
    MC_CHECK(os::badCloses() == 0, "descriptors", "%s: something was closed twice", when);
    MC_CHECK(os::files() == 0, "files", "%s: left: %s", when, os::listing().c_str());
}
void lockUser(World& w, int rounds)
{
    for (int i = 0; i < rounds; ++i)
    {
        auto t = w.begin();
        auto r = lock();
        if (r.has_error())
        {
            w.lost(t, r.error() == FileLockError::LOCKED_BY_OTHER_PROCESS, (int)r.error(), "the lock");
            continue;
        }
        w.won("the lock");
        mc::point();
        w.releasing();
        {
            FileLock gone(std::move(r.value()));
        }
        w.released();
    }
}
void channelUser(World& w, int rounds, int me)
{
    for (int i = 0; i < rounds; ++i)
    {
        auto t = w.begin();
        auto r = channel();
        if (r.has_error())
        {
            w.lost(t, r.error() == runtime::IpcInterfaceCreatorError::INTERFACE_IN_USE, (int)r.error(), "the channel");
            continue;
        }
        w.won("the channel");
        MC_CHECK(r->isInitialized(), "channel", "created but not usable");
        mc::point();
        {
            mc::Atomic a;
            // whoever talks to the application now has to reach this very process
            MC_CHECK(os::exists(SOCK), "channel", "the owner's channel is gone");
            Str m = Str("30,") + std::to_string(me) + ",";
            MC_CHECK(os::inject(SOCK, m.c_str(), m.size() + 1), "channel", "the owner cannot be reached");
            runtime::IpcMessage in;
            MC_CHECK(r->timedReceive(units::Duration::fromMilliseconds(5), in) && in.getMessage() == m, "channel", "the message to the owner got lost");
        }
        w.releasing();
        {
            Chan gone(std::move(r.value()));
        }
        w.released();
    }
}
} // namespace

// Processes get and release the lock in every order, with every preemption between their system calls.
MC_SCENARIO(lock_schedules, S(5), S(7, 900))
{
    os::on();
    int procs = 2 + mc::choose(2), rounds = procs == 2 ? 2 : 1;
    auto& w = *mc::make<World>();
    os::points(true);
    for (int p = 1; p <= procs; ++p)
    {
        os::born(p);
        int f = mc::spawn([&w, p, rounds] {
            os::process(p);
            lockUser(w, rounds);
        });
        os::processOf(f, p);
    }
    mc::joinAll();
    os::points(false);
    MC_CHECK(w.wins > 0, "attempt", "all of %d attempts were refused", w.losses);
    nothingLeft("all released");
    mc::outcome((uint64_t)w.wins);
}
// One process dies at any of its system calls while others get and release the lock: the lock is never lost.
MC_SCENARIO(lock_crash, S(3, 60, 1), S(5, 900, 1))
{
    os::on();
    int others = mc::choose(3);
    auto& w = *mc::make<World>();
    os::points(true);
    os::mortal(1);
    os::born(1);
    int f = mc::spawn([&w] {
        os::process(1);
        auto r = lock();
        if (!r.has_error())
        {
            mc::point();
            FileLock gone(std::move(r.value()));
        }
    });
    os::processOf(f, 1);
    (void)w;
    for (int p = 2; p < 2 + others; ++p)
    {
        os::born(p);
        int g = mc::spawn([&w, p] {
            os::process(p);
            w.begin();
            auto r = lock();
            if (!r.has_error())
            {
                w.won("the lock");
                mc::point();
                w.releasing();
            }
            else
                MC_CHECK(r.error() == FileLockError::LOCKED_BY_OTHER_PROCESS, "attempt", "the lock failed with error %d", (int)r.error());
        });
        os::processOf(g, p);
    }
    mc::joinAll();
    os::mortal(-1);
    os::points(false);
    os::process(9);
    for (int i = 0; i < 2; ++i)
    {
        auto r = lock();
        MC_CHECK(!r.has_error(), "attempt", "after the death of a process: error %d", (int)r.error());
        os::process(10);
        MC_CHECK(lock().has_error(), "owners", "two processes have the lock");
        os::process(9);
    }
    nothingLeft("all released");
}
// Any system call fails: an error is reported or the lock is held, nothing stays open, and the lock is not lost.
MC_SCENARIO(lock_faults, S(0, 60, 2), S(0, 900, 3))
{
    os::on();
    os::process(1);
    os::faults(true);
    {
        auto r = lock();
        bool clean = os::faultCount() == 0;
        os::faults(false);
        MC_CHECK(!clean || !r.has_error(), "attempt", "error %d without a reason", (int)r.error());
        if (r.has_error())
        {
            MC_CHECK(r.error() != FileLockError::LOCKED_BY_OTHER_PROCESS, "attempt", "refused because %s failed", os::lastFault());
            MC_CHECK(os::openFds(-1) == 0, "descriptors", "left open after %s failed", os::lastFault());
        }
        else
        {
            os::process(2);
            MC_CHECK(lock().has_error(), "owners", "two processes have the lock after %s failed", os::lastFault());
            os::process(1);
        }
        os::faults(true);
    }
    os::faults(false);
    MC_CHECK(os::openFds(-1) == 0, "descriptors", "left open after %s failed", os::lastFault());
    MC_CHECK(os::badCloses() == 0, "descriptors", "closed twice after %s failed", os::lastFault());
    os::process(2);
    {
        auto r = lock();
        MC_CHECK(!r.has_error(), "attempt", "the lock is lost after %s failed: error %d", os::lastFault(), (int)r.error());
        os::process(1);
        MC_CHECK(lock().has_error(), "owners", "two processes have the lock after %s failed", os::lastFault());
        os::process(2);
    }
    nothingLeft("released");
}
// Every history of getting, moving and dropping locks of two names, in one process: an object that holds a lock keeps exactly this one.
MC_SCENARIO(lock_moves, S(0), S(0, 900))
{
    os::on();
    constexpr int N = 3;
    static const char* NAME[] = {"a", "b"};
    optional<FileLock> o[N];
    int has[N];
    for (auto& h : has)
        h = -1; // -1: none, 0/1: name, 2: moved from
    int depth = mc::thorough() ? 6 : 5;
    auto holder = [&](int name) {
        for (int i = 0; i < N; ++i)
            if (has[i] == name)
                return true;
        return false;
    };
    int holds[2]{};
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(2 + 2 + 1); // create a, create b, move construct, move assign, drop
        int i = mc::choose(N);
        if (op < 2)
        {
            if (has[i] != -1)
                mc::prune();
            auto r = lock(NAME[op]);
            MC_CHECK(r.has_error() == holder(op), "attempt", "lock %s: %s", NAME[op], r.has_error() ? "refused although nobody has it" : "two owners");
            if (r.has_error())
                continue;
            o[i].emplace(std::move(r.value()));
            has[i] = op;
        }
        else if (op == 4)
        {
            if (has[i] == -1)
                mc::prune();
            o[i].reset();
            has[i] = -1;
        }
        else
        {
            int j = mc::choose(N);
            if (has[j] == -1 || (op == 2 && (has[i] != -1 || i == j)) || (op == 3 && has[i] == -1))
                mc::prune();
            if (op == 2)
                o[i].emplace(std::move(*o[j]));
            else
                *o[i] = std::move(*o[j]);
            if (i != j)
            {
                has[i] = has[j];
                has[j] = 2;
            }
        }
        int n = 0;
        for (int k = 0; k < 2; ++k)
        {
            n += holder(k);
            Str p = Str("/tmp/") + NAME[k] + ".lock";
            MC_CHECK(os::exists(p.c_str()) == holder(k), "files", "step %d: the file of lock %s is %s", s, NAME[k], holder(k) ? "gone" : "left");
            MC_CHECK(lock(NAME[k]).has_error() == holder(k), "owners", "step %d: lock %s is %s", s, NAME[k], holder(k) ? "lost" : "stuck");
            holds[k] += holder(k);
        }
        MC_CHECK(os::openFds(-1) == n, "descriptors", "step %d: %d descriptors for %d locks", s, os::openFds(-1), n);
    }
    for (auto& x : o)
        x.reset();
    nothingLeft("at the end");
    mc::outcome((uint64_t)(holds[0] * 16 + holds[1]));
}
// Processes of the same name come and go: the channel belongs to one of them, and as long as it has it, messages reach it.
MC_SCENARIO(channel_schedules, S(4), S(6, 900))
{
    os::on();
    int procs = 2 + mc::choose(2), rounds = procs == 2 ? 2 : 1;
    auto& w = *mc::make<World>();
    os::points(true);
    for (int p = 1; p <= procs; ++p)
    {
        os::born(p);
        int f = mc::spawn([&w, p, rounds] {
            os::process(p);
            channelUser(w, rounds, p);
        });
        os::processOf(f, p);
    }
    mc::joinAll();
    os::points(false);
    MC_CHECK(w.wins > 0, "attempt", "all of %d attempts were refused", w.losses);
    nothingLeft("all released");
}
// The owner of a channel dies at any of its system calls; one of the same name comes then or at the same time.
MC_SCENARIO(channel_crash, S(4, 60, 1), S(6, 900, 1))
{
    os::on();
    bool overlap = mc::choose(2);
    auto& w = *mc::make<World>();
    os::points(true);
    os::mortal(1);
    os::born(1);
    int f = mc::spawn([&w] {
        os::process(1);
        auto r = channel();
        if (!r.has_error())
        {
            mc::point();
            Chan gone(std::move(r.value()));
        }
    });
    os::processOf(f, 1);
    if (overlap)
    {
        os::born(2);
        int g = mc::spawn([&w] {
            os::process(2);
            auto r = channel();
            if (r.has_error())
            {
                MC_CHECK(r.error() == runtime::IpcInterfaceCreatorError::INTERFACE_IN_USE, "attempt", "the channel failed with error %d", (int)r.error());
                return;
            }
            MC_CHECK(r->isInitialized(), "channel", "created but not usable");
            mc::point();
            mc::Atomic a;
            MC_CHECK(os::inject(SOCK, "30,", 4), "channel", "the owner cannot be reached");
            runtime::IpcMessage in;
            MC_CHECK(r->timedReceive(units::Duration::fromMilliseconds(5), in), "channel", "the message to the owner got lost");
        });
        os::processOf(g, 2);
    }
    mc::joinAll();
    os::mortal(-1);
    os::points(false);
    os::process(9);
    w.holders = w.busy = 0;
    channelUser(w, 2, 9);
    MC_CHECK(w.wins == 2, "attempt", "the channel is lost after the death of its owner");
    nothingLeft("all released");
}
// Any system call fails while a channel is created, used or released.
MC_SCENARIO(channel_faults, S(0, 60, 2), S(0, 900, 3))
{
    os::on();
    bool old = mc::choose(2); // a channel of a dead process is still there
    if (old)
    {
        os::process(3);
        auto* r = new expected<Chan, runtime::IpcInterfaceCreatorError>(channel());
        MC_CHECK(!r->has_error(), "attempt", "error");
        os::die(3);
        MC_CHECK(os::exists(SOCK) && os::exists(LOCK), "harness", "%s", os::listing().c_str());
    }
    os::process(1);
    os::faults(true);
    {
        auto r = channel();
        os::faults(false);
        bool clean = os::faultCount() == 0;
        MC_CHECK(!clean || (!r.has_error() && r->isInitialized()), "attempt", "failed without a reason");
        if (!r.has_error())
        {
            os::process(2);
            auto q = channel();
            MC_CHECK(q.has_error() && q.error() == runtime::IpcInterfaceCreatorError::INTERFACE_IN_USE, "owners", "two owners after %s failed", os::lastFault());
            os::process(1);
            if (r->isInitialized())
            {
                MC_CHECK(os::inject(SOCK, "30,", 4), "channel", "the owner cannot be reached");
                runtime::IpcMessage in;
                MC_CHECK(r->timedReceive(units::Duration::fromMilliseconds(5), in), "channel", "the message to the owner got lost");
            }
        }
        else
            MC_CHECK(r.error() == runtime::IpcInterfaceCreatorError::OBTAINING_LOCK_FAILED, "attempt", "in use after %s failed", os::lastFault());
        os::faults(true);
    }
    os::faults(false);
    MC_CHECK(os::openFds(1) == 0, "descriptors", "left open after %s failed", os::lastFault());
    MC_CHECK(os::badCloses() == 0, "descriptors", "closed twice after %s failed", os::lastFault());
    os::process(2);
    auto& w = *mc::make<World>();
    channelUser(w, 2, 2);
    MC_CHECK(w.wins == 2, "attempt", "the channel is lost after %s failed", os::lastFault());
    nothingLeft("all released");
}
