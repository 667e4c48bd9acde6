// Locks, semaphores, periodic tasks, guarded objects, lazily built singletons and exchangeable handlers: what they promise holds
// under every schedule, and time is kept.
#include "mc.hpp"
#include "ioxsup.hpp"
#include "lin.hpp"
#include "iox/spin_lock.hpp" // before periodic_task.hpp, whose namespace concurrent::detail hides iox::detail from it
#include "iox/spin_semaphore.hpp"
#include "iox/deadline_timer.hpp"
#include "iox/detail/adaptive_wait.hpp"
#include "iox/detail/periodic_task.hpp"
#include "iox/mutex.hpp"
#include "iox/polymorphic_handler.hpp"
#include "iox/smart_lock.hpp"
#include "iox/static_lifetime_guard.hpp"
#include "iox/unnamed_semaphore.hpp"
#include <chrono>
#include <thread>
#include <vector>
using namespace iox;
using units::Duration;

namespace
{
constexpr mc::Opts S(int preempt, double seconds = 60, int crash = 0, bool races = true)
{
    mc::Opts o;
    o.preempt = preempt;
    o.seconds = seconds;
    o.crash = crash;
    o.spin = 300;
    o.races = races;
    return o;
}
// ---------------------------------------------------------------- locks
struct Ghost
{
    int owner{-1}, depth{0};
    int busy[4]{};
    uint64_t begun[4]{}; // attempts of each thread so far
    uint64_t data{0};    // protected by the lock, not atomic
};
struct Window
{
    uint64_t others{0};
    bool anyBusy{false};
};
template <typename L>
struct LockTest
{
    L* l;
    Ghost* g;
    bool recursive;
    bool selfError; // locking twice is reported (not: blocks)
    bool ownerChecked{true};
    Window open(int me)
    {
        Window w;
        for (int i = 0; i < 4; ++i)
            if (i != me)
                w.others += g->begun[i], w.anyBusy |= g->busy[i] > 0;
        return w;
    }
    bool alone(const Window& w, int me)
    {
        uint64_t n = 0;
        for (int i = 0; i < 4; ++i)
            if (i != me)
                n += g->begun[i];
        return !w.anyBusy && n == w.others;
    }
    void got(int me)
    {
        {
            mc::Atomic a;
            MC_CHECK(g->owner == -1 || g->owner == me, "mutual-exclusion", "thread %d gets the lock that thread %d holds", me, g->owner);
            g->owner = me;
            ++g->depth;
        }
        ++g->data; // a race if the lock does not order its holders
    }
    void step(int me, int op)
    {
        const bool mine = g->owner == me;
        if (op == 0)
        {
            if (mine && !recursive && !selfError)
                return;
            {
                mc::Atomic a;
                ++g->begun[me];
                ++g->busy[me];
            }
            auto r = l->lock();
            if (mine && !recursive)
            {
                MC_CHECK(r.has_error() && r.error() == LockError::DEADLOCK_CONDITION, "self-lock", "locking the own lock again is not refused");
                mc::Atomic a;
                --g->busy[me];
                return;
            }
            MC_CHECK(!r.has_error(), "lock", "lock() fails with %d", (int)r.error());
            got(me);
        }
        else if (op == 1)
        {
            Window w;
            {
                mc::Atomic a;
                w = open(me);
                ++g->begun[me];
                ++g->busy[me];
            }
            auto r = l->try_lock();
            MC_CHECK(!r.has_error(), "lock", "try_lock() fails with %d", (int)r.error());
            if (r.value() == TryLock::LOCK_SUCCEEDED)
            {
                MC_CHECK(!mine || recursive, "self-lock", "a lock that is not recursive is taken twice by one thread");
                got(me);
            }
            else
            {
                mc::Atomic a;
                MC_CHECK(!(mine && recursive), "self-lock", "try_lock() refuses the own recursive lock");
                MC_CHECK(mine || !alone(w, me), "try-lock", "try_lock() fails although nobody else has or wants the lock");
                --g->busy[me];
            }
        }
        else
        {
            if (mine)
            {
                ++g->data;
                {
                    mc::Atomic a;
                    if (--g->depth == 0)
                        g->owner = -1;
                }
                auto r = l->unlock();
                MC_CHECK(!r.has_error(), "unlock", "unlock() of the own lock fails with %d", (int)r.error());
                mc::Atomic a;
                --g->busy[me];
            }
            else if (ownerChecked)
            {
                auto r = l->unlock();
                MC_CHECK(r.has_error(), "unlock", "a thread unlocks what it does not hold");
            }
        }
    }
    // every program of n operations for each thread
    void run(int threads, int n)
    {
        std::vector<std::vector<int>> prog(threads);
        for (int t = 0; t < threads; ++t)
            for (int i = 0; i < n; ++i)
                prog[t].push_back(mc::choose(3));
        for (int t = 0; t < threads; ++t)
            mc::spawn([this, t, &prog] {
                for (int op : prog[t])
                    step(t, op);
                while (g->owner == t)
                    step(t, 2);
            });
        mc::joinAll();
        MC_CHECK(g->owner == -1 && g->depth == 0, "harness", "left locked");
        auto r = l->try_lock();
        MC_CHECK(!r.has_error() && r.value() == TryLock::LOCK_SUCCEEDED, "stuck", "the lock is not free although every holder has unlocked it");
        MC_CHECK(!l->unlock().has_error(), "unlock", "unlock() fails");
    }
};
template <typename L, typename B>
void lockScenario(LockBehavior b, bool selfError, bool ownerChecked, int threads, int n)
{
    auto* o = mc::make<optional<L>>();
    MC_CHECK(!B().is_inter_process_capable(true).lock_behavior(b).create(*o).has_error(), "create", "lock cannot be created");
    MC_CHECK(B().lock_behavior(b).create(*o).has_error(), "create", "an existing lock is replaced");
    LockTest<L> t{&**o, mc::make<Ghost>(), b == LockBehavior::RECURSIVE, selfError, ownerChecked};
    t.run(threads, n);
    o->reset();
}
} // namespace

MC_SCENARIO(mutex_kinds, S(3, 40), S(4, 200))
{
    switch (mc::choose(3))
    {
    case 0:
        return lockScenario<mutex, MutexBuilder>(LockBehavior::RECURSIVE, false, true, 2, 3);
    case 1:
        return lockScenario<mutex, MutexBuilder>(LockBehavior::WITH_DEADLOCK_DETECTION, true, true, 2, 3);
    default:
        return lockScenario<mutex, MutexBuilder>(LockBehavior::NORMAL, false, false, 2, 3);
    }
}
MC_SCENARIO(spin_lock, S(2, 40), S(3, 300))
{
    lockScenario<concurrent::SpinLock, concurrent::SpinLockBuilder>(mc::choose(2) ? LockBehavior::RECURSIVE : LockBehavior::NORMAL, true, true, 2, 3);
}
MC_SCENARIO(spin_lock_three, S(2, 40), S(4, 300))
{
    lockScenario<concurrent::SpinLock, concurrent::SpinLockBuilder>(mc::choose(2) ? LockBehavior::RECURSIVE : LockBehavior::NORMAL, true, true, 3, 1);
}

// A thread dies at any point of using a robust lock: the next one is told exactly when it holds a lock the dead one held.
MC_SCENARIO(owner_dies, S(1, 30), S(2, 60))
{
    auto* o = mc::make<optional<mutex>>();
    const bool rec = mc::choose(2);
    MC_CHECK(!MutexBuilder()
                  .lock_behavior(rec ? LockBehavior::RECURSIVE : LockBehavior::WITH_DEADLOCK_DETECTION)
                  .thread_termination_behavior(MutexThreadTerminationBehavior::RELEASE_WHEN_LOCKED)
                  .create(*o)
                  .has_error(),
             "create", "lock cannot be created");
    auto* m = &**o;
    static int phase;
    phase = 0;
    mc::ignore(&phase, sizeof phase);
    const int end = mc::choose(5); // where it dies (4: it does not)
    int f = mc::spawn([m, rec, end] {
        auto now = [&](int p) {
            phase = p;
            if (end == p)
                mc::kill(mc::self());
        };
        now(0); // not locked yet
        (void)m->lock();
        now(1);
        if (rec)
            (void)m->lock();
        now(2);
        if (rec)
            (void)m->unlock();
        now(1);
        (void)m->unlock();
        now(3); // free again
        phase = 4;
    });
    const bool useTry = mc::choose(2), repair = mc::choose(2);
    mc::join(f);
    const bool died = mc::crashed(f);
    bool told = false, ok = false;
    if (useTry)
    {
        auto r = m->try_lock();
        told = r.has_error() && r.error() == TryLockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED;
        ok = !r.has_error() && r.value() == TryLock::LOCK_SUCCEEDED;
    }
    else
    {
        auto r = m->lock();
        told = r.has_error() && r.error() == LockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED;
        ok = !r.has_error();
    }
    MC_CHECK(told || ok, "owner-dies", "the lock cannot be taken after its owner died");
    MC_CHECK(!told || died, "owner-dies", "told about a dead owner although nobody died");
    if (died && (phase == 1 || phase == 2))
        MC_CHECK(told, "owner-dies", "the lock was held by a thread that died and the next holder is not told");
    if (phase == 0 || phase >= 3)
        MC_CHECK(!told, "owner-dies", "told about a dead owner although the lock was free");
    if (told && !repair)
    {
        (void)m->unlock();
        MC_CHECK(m->lock().has_error(), "owner-dies", "the lock is handed out as consistent although nobody repaired it");
        return;
    }
    m->make_consistent();
    MC_CHECK(!m->unlock().has_error(), "owner-dies", "the lock cannot be released");
    for (int i = 0; i < 2; ++i)
    {
        MC_CHECK(!m->lock().has_error(), "owner-dies", "the repaired lock cannot be taken");
        MC_CHECK(!m->unlock().has_error(), "owner-dies", "the repaired lock cannot be released");
    }
}

// ---------------------------------------------------------------- semaphores
namespace
{
// the spinning one reads the clock (100 ns each) in every round: a short limit keeps the rounds few
template <typename Sem, typename B, uint64_t WAIT_NS>
void semScenario(uint32_t init, int threads, int n, bool enough = false)
{
    auto* o = mc::make<optional<Sem>>();
    MC_CHECK(!B().initialValue(init).isInterProcessCapable(true).create(*o).has_error(), "create", "semaphore cannot be created");
    auto* s = &**o;
    struct Ghost
    {
        int posted{0}, begunPosts{0}, taken{0}, begunWaits{0}, waitsBlocked{0};
    };
    static Ghost g;
    g = Ghost{};
    mc::ignore(&g, sizeof g);
    std::vector<std::vector<int>> prog(threads);
    int posts = 0, waits = 0;
    for (int t = 0; t < threads; ++t)
        for (int i = 0; i < n; ++i)
        {
            prog[t].push_back(mc::choose(4)); // post wait tryWait timedWait
            posts += prog[t].back() == 0;
            waits += prog[t].back() == 1;
        }
    const int in = (int)init;
    if (enough && threads * n - posts > in + posts)
        mc::prune();
    for (int t = 0; t < threads; ++t)
        mc::spawn([=, &prog] {
            for (int op : prog[t])
            {
                if (op == 0)
                {
                    ++g.begunPosts;
                    MC_CHECK(!s->post().has_error(), "post", "post() fails");
                    ++g.posted;
                    continue;
                }
                const int have = in + g.posted;
                ++g.begunWaits;
                bool got = true;
                const uint64_t t0 = mc::now_ns();
                if (op == 1)
                    MC_CHECK(!s->wait().has_error(), "wait", "wait() fails");
                else if (op == 2)
                {
                    auto r = s->tryWait();
                    MC_CHECK(!r.has_error(), "wait", "tryWait() fails");
                    got = r.value();
                }
                else
                {
                    auto r = s->timedWait(Duration::fromNanoseconds(WAIT_NS));
                    MC_CHECK(!r.has_error(), "wait", "timedWait() fails");
                    got = r.value() == SemaphoreWaitState::NO_TIMEOUT;
                    MC_CHECK(got || mc::now_ns() >= t0 + WAIT_NS, "early", "timedWait() gives up after %d of %d ns", (int)(mc::now_ns() - t0), (int)WAIT_NS);
                }
                if (got)
                {
                    ++g.taken;
                    MC_CHECK(g.taken <= in + g.begunPosts, "token", "%d waits are satisfied by %d tokens", g.taken, in + g.begunPosts);
                }
                else
                    // all other waits together cannot have used up what was there when this one began
                    MC_CHECK(have <= g.begunWaits - 1, "token", "a wait is not satisfied although there are more tokens (%d) than other waits (%d)", have, g.begunWaits - 1);
            }
        });
    // waits that cannot be satisfied by the others are helped by the environment (not a deadlock of the semaphore)
    int helped = 0;
    for (;;)
    {
        std::this_thread::sleep_for(std::chrono::milliseconds(25)); // every time limit is over, and every pause of a polling thread
        mc::quiesce();
        bool all = true;
        for (int f = 1; f < mc::fibers(); ++f)
            all = all && (mc::done(f) || mc::crashed(f));
        if (all)
            break;
        MC_CHECK(in + g.posted + helped - g.taken <= 0, "stuck", "a thread waits although %d tokens are there", in + g.posted + helped - g.taken);
        MC_CHECK(helped <= waits, "stuck", "more tokens than waits, and still a thread waits");
        ++g.begunPosts;
        MC_CHECK(!s->post().has_error(), "post", "post() fails");
        ++g.posted, ++helped;
        --g.posted; // counted in helped
    }
    int left = in + g.posted + helped - g.taken;
    for (int i = 0; i < left; ++i)
    {
        auto r = s->tryWait();
        MC_CHECK(!r.has_error() && r.value(), "token", "%d of %d tokens are lost", left - i, left);
    }
    auto r = s->tryWait();
    MC_CHECK(!r.has_error() && !r.value(), "token", "there are more tokens than posts");
    o->reset();
}
} // namespace
MC_SCENARIO(semaphore, S(3, 40), S(4, 200))
{
    semScenario<UnnamedSemaphore, UnnamedSemaphoreBuilder, 20000>((uint32_t)mc::choose(2), 2, 2);
}
MC_SCENARIO(spin_semaphore, S(1, 60), S(2, 300))
{
    semScenario<concurrent::SpinSemaphore, concurrent::SpinSemaphoreBuilder, 350>((uint32_t)mc::choose(2), 2, 2);
}
// there is a token for everybody
MC_SCENARIO(spin_semaphore_three, S(2, 60), S(3, 300))
{
    semScenario<concurrent::SpinSemaphore, concurrent::SpinSemaphoreBuilder, 350>((uint32_t)mc::choose(2), 3, 1, true);
}
MC_SCENARIO(semaphore_three, S(2, 60), S(4, 300))
{
    semScenario<UnnamedSemaphore, UnnamedSemaphoreBuilder, 20000>((uint32_t)mc::choose(2), 3, 2);
}
MC_SCENARIO(semaphore_limits, S(0, 10), S(0, 10))
{
    // the largest value a semaphore may start with, and one more
    const int kind = mc::choose(2);
    const bool over = mc::choose(2);
    const uint32_t v = (uint32_t)IOX_SEM_VALUE_MAX + (over ? 1U : 0U);
    bool err = false, full = false;
    if (kind)
    {
        optional<UnnamedSemaphore> s;
        err = UnnamedSemaphoreBuilder().initialValue(v).create(s).has_error();
        full = err || (s->post().has_error() && s->tryWait().value() && !s->post().has_error());
    }
    else
    {
        optional<concurrent::SpinSemaphore> s;
        err = concurrent::SpinSemaphoreBuilder().initialValue(v).create(s).has_error();
        full = err || (s->post().has_error() && s->tryWait().value() && !s->post().has_error());
    }
    MC_CHECK(err == over, "limit", "a semaphore starting at %u is %s", v, err ? "refused" : "created");
    MC_CHECK(full, "limit", "a full semaphore takes another token");
}

// ---------------------------------------------------------------- periodic task
namespace
{
constexpr uint64_t MS = 1000000;
struct Tick
{
    int runs{0};
    bool inside{false}, stopped{true};
    std::vector<uint64_t> at;
    uint64_t takes{0};
};
Tick* tick;
struct Work
{
    void operator()()
    {
        {
            mc::Atomic a;
            MC_CHECK(!tick->stopped, "task", "the task runs although it is stopped");
            MC_CHECK(!tick->inside, "task", "the task runs twice at the same time");
            tick->inside = true;
            tick->at.push_back(mc::now_ns());
            ++tick->runs;
        }
        mc::point();
        if (tick->takes)
            std::this_thread::sleep_for(std::chrono::nanoseconds(tick->takes));
        mc::Atomic a;
        tick->inside = false;
    }
};
} // namespace
MC_SCENARIO(periodic_task, S(3, 40), S(4, 200))
{
    using Task = concurrent::detail::PeriodicTask<Work>;
    tick = mc::make<Tick>();
    mc::ignore(tick, sizeof *tick);
    tick->takes = mc::choose(2) ? 3 * MS : 0;
    const bool automatic = mc::choose(2);
    uint64_t iv = 0;
    bool active = false;
    auto begin = [&](uint64_t ms) {
        mc::Atomic a;
        iv = ms * MS;
        active = true;
        tick->stopped = false;
    };
    // started again: the former run is over first, so at most the old one's times are cleared
    Task* t;
    if (automatic)
    {
        begin(10);
        t = new Task(concurrent::detail::PeriodicTaskAutoStart, Duration::fromMilliseconds(10), "task");
    }
    else
        t = new Task(concurrent::detail::PeriodicTaskManualStart, "task");
    const int n = mc::thorough() ? 4 : 3;
    for (int i = 0; i < n; ++i)
    {
        const int op = mc::choose(4); // start(10) start(20) stop nap
        const uint64_t t0 = mc::now_ns();
        if (op <= 1)
        {
            // whoever was running has ended when start() returns; the new one may already have run
            if (active)
            {
                t->stop();
                mc::Atomic a;
                MC_CHECK(!tick->inside, "task", "the task is still running when stop() returns");
            }
            tick->at.clear();
            begin(op == 0 ? 10 : 20);
            t->start(Duration::fromMilliseconds(op == 0 ? 10 : 20));
        }
        else if (op == 2)
        {
            t->stop();
            mc::Atomic a;
            MC_CHECK(!tick->inside, "task", "the task is still running when stop() returns");
            MC_CHECK(mc::now_ns() - t0 <= tick->takes + MS, "task", "stop() waits %d us for a task that is asleep", (int)((mc::now_ns() - t0) / 1000));
            tick->stopped = true;
            active = false;
            tick->at.clear();
        }
        else
            std::this_thread::sleep_for(std::chrono::milliseconds(34));
        MC_CHECK(t->is_active() == active, "task", "is_active() is wrong");
        if (op == 3)
        {
            mc::Atomic a;
            if (!active)
                MC_CHECK(tick->at.empty(), "task", "a stopped task runs");
            else
            {
                // one run at once and one after each interval
                MC_CHECK(!tick->at.empty(), "task", "a started task does not run");
                for (size_t k = 1; k < tick->at.size(); ++k)
                {
                    const uint64_t d = tick->at[k] - tick->at[k - 1];
                    MC_CHECK(d >= iv && d <= iv + tick->takes + MS, "task", "the task with an interval of %d ms runs after %d us", (int)(iv / MS), (int)(d / 1000));
                }
                const uint64_t last = mc::now_ns() - tick->at.back();
                MC_CHECK(last <= iv + tick->takes + MS, "task", "the task has not run for %d us", (int)(last / 1000));
            }
        }
    }
    const uint64_t t0 = mc::now_ns();
    delete t;
    MC_CHECK(mc::now_ns() - t0 <= tick->takes + MS, "task", "the destructor waits %d us", (int)((mc::now_ns() - t0) / 1000));
    tick->stopped = true;
    const int runs = tick->runs;
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
    MC_CHECK(tick->runs == runs && !tick->inside, "task", "the task runs after its destruction");
    mc::joinAll();
}
// start() without a stop() before it: the old run is over before the new one begins.
MC_SCENARIO(periodic_restart, S(3, 40), S(5, 100))
{
    using Task = concurrent::detail::PeriodicTask<Work>;
    tick = mc::make<Tick>();
    mc::ignore(tick, sizeof *tick);
    tick->stopped = false;
    tick->takes = mc::choose(2) ? 3 * MS : 0;
    Task t(concurrent::detail::PeriodicTaskManualStart, "task");
    t.start(Duration::fromMilliseconds(10));
    const int nap = mc::choose(3);
    if (nap)
        std::this_thread::sleep_for(std::chrono::milliseconds(nap == 1 ? 1 : 10));
    const uint64_t t0 = mc::now_ns();
    t.start(Duration::fromMilliseconds(20));
    MC_CHECK(mc::now_ns() - t0 <= tick->takes + MS, "task", "start() waits for the former interval to end");
    const int runs = tick->runs;
    (void)runs;
    const uint64_t since = mc::now_ns();
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    t.stop();
    tick->stopped = true;
    std::vector<uint64_t> v;
    for (auto a : tick->at)
        if (a >= since)
            v.push_back(a);
    MC_CHECK(v.size() >= 4 && v.size() <= 6, "task", "a task restarted with an interval of 20 ms runs %d times in 100 ms", (int)v.size());
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
}

// ---------------------------------------------------------------- smart_lock
namespace
{
struct Pair
{
    uint64_t a{0}, b{0};
    int live{1};
    Pair() = default;
    explicit Pair(uint64_t v)
        : a(v), b(v)
    {
    }
    Pair(const Pair& o)
        : a(o.a)
    {
        mc::point();
        b = o.b;
    }
    Pair(Pair&& o)
        : Pair(static_cast<const Pair&>(o))
    {
        o.a = 0, o.b = 0;
    }
    Pair& operator=(const Pair& o)
    {
        a = o.a;
        mc::point();
        b = o.b;
        return *this;
    }
    Pair& operator=(Pair&& o)
    {
        *this = static_cast<const Pair&>(o);
        o.a = 0, o.b = 0;
        return *this;
    }
    void inc()
    {
        ++a;
        mc::point();
        ++b;
    }
    bool whole() const
    {
        auto x = a;
        mc::point();
        return x == b;
    }
};
} // namespace
MC_SCENARIO(guarded_object, S(3, 40), S(5, 200))
{
    using G = concurrent::smart_lock<Pair>;
    auto* x = new G(concurrent::ForwardArgsToCTor, 5);
    auto* y = new G(concurrent::ForwardArgsToCTor, 7);
    int ops[2];
    for (int& o : ops)
        o = mc::choose(8);
    for (int t = 0; t < 2; ++t)
        mc::spawn([=] {
            G& me = t ? *y : *x;
            G& other = t ? *x : *y;
            switch (ops[t])
            {
            case 0:
                me = other;
                break;
            case 1:
                me = std::move(other);
                break;
            case 2:
            {
                G c(other);
                MC_CHECK(c->whole(), "torn", "a copy has two halves of different values");
                break;
            }
            case 3:
            {
                G c(std::move(other));
                MC_CHECK(c->whole(), "torn", "a moved value has two halves of different values");
                break;
            }
            case 4:
                MC_CHECK(other.get_copy().whole(), "torn", "a copy has two halves of different values");
                break;
            case 5:
                other->inc();
                me->inc();
                break;
            case 6:
            {
                auto s = me.get_scope_guard();
                MC_CHECK(s->whole(), "torn", "two halves of different values");
                s->inc();
                MC_CHECK((*s).whole(), "torn", "two halves of different values");
                break;
            }
            default:
                me = me;
                other->inc();
            }
        });
    mc::joinAll();
    for (G* p : {x, y})
    {
        const G& c = *p;
        MC_CHECK(c->whole(), "torn", "two halves of different values");
        MC_CHECK(c.get_copy().whole(), "torn", "two halves of different values");
        MC_CHECK((*c.get_scope_guard()).whole(), "torn", "two halves of different values");
    }
    if (ops[0] >= 4 && ops[1] >= 4)
    {
        int ex = 5, ey = 7;
        for (int t = 0; t < 2; ++t)
        {
            int& me = t ? ey : ex;
            int& ot = t ? ex : ey;
            if (ops[t] == 5)
                ++me, ++ot;
            if (ops[t] == 6)
                ++me;
            if (ops[t] == 7)
                ++ot;
        }
        MC_CHECK(x->get_copy().a == (uint64_t)ex && y->get_copy().a == (uint64_t)ey, "lost-update", "an update under the lock is lost");
    }
    delete x;
    delete y;
}

// ---------------------------------------------------------------- singletons
namespace
{
template <int N>
struct Single
{
    static int built, gone;
    uint64_t v{0};
    bool ready{false};
    explicit Single(uint64_t x = 1)
    {
        {
            mc::Atomic a;
            ++built;
        }
        mc::point();
        v = x;
        mc::point();
        ready = true;
    }
    ~Single()
    {
        mc::Atomic a;
        ++gone;
        ready = false;
    }
};
template <int N>
int Single<N>::built;
template <int N>
int Single<N>::gone;
template <typename T>
struct Open : StaticLifetimeGuard<T>
{
    using StaticLifetimeGuard<T>::setCount;
};
} // namespace
MC_SCENARIO(singleton, S(2, 40), S(3, 200))
{
    using T = Single<0>;
    using SLG = StaticLifetimeGuard<T>;
    mc::ignore(&T::built, sizeof(int));
    mc::ignore(&T::gone, sizeof(int));
    static T* seen[3];
    const bool before = mc::choose(2); // a guard from before any instance
    int kind[3]{};
    if (before)
        for (int& k : kind)
            k = mc::choose(2);
    SLG* early = before ? new SLG() : nullptr;
    for (int t = 0; t < 3; ++t)
        mc::spawn([=] {
            if (kind[t])
            {
                SLG g;
                SLG h(g), i(std::move(h));
                MC_CHECK(SLG::count() >= 3, "singleton", "three guards count as %d", (int)SLG::count());
            }
            T& x = SLG::instance(10 + t);
            MC_CHECK(x.ready && x.v >= 10 && x.v <= 12, "singleton", "the instance is handed out before it is complete");
            seen[t] = &x;
        });
    mc::joinAll();
    MC_CHECK(T::built == 1 && T::gone == 0, "singleton", "%d instances are built and %d destroyed", T::built, T::gone);
    MC_CHECK(seen[0] == seen[1] && seen[1] == seen[2], "singleton", "two instances");
    MC_CHECK(SLG::count() == 1 + (before ? 1U : 0U), "singleton", "%d guards are counted", (int)SLG::count());
    // the end of the program: the last of all guards destroys it
    if (!before)
        early = new SLG();
    Open<T>::setCount(2); // the implicit guard (count 1) and two that die at the same time
    SLG* second = early;
    alignas(SLG) static char buf[sizeof(SLG)];
    mc::spawn([=] { second->~SLG(); });
    mc::spawn([=] { reinterpret_cast<SLG*>(buf)->~SLG(); });
    mc::joinAll();
    MC_CHECK(T::gone == 1, "singleton", "the instance is destroyed %d times with its last guard", T::gone);
    // used once more after that: built again
    Open<T>::setCount(1);
    MC_CHECK(SLG::instance(77).ready && T::built == 2, "singleton", "no instance after the end");
}
// A short-lived guard and the first use at the same time: the instance stays.
MC_SCENARIO(singleton_guard_race, S(4, 40, 0, false), S(6, 200, 0, false))
{
    using T = Single<1>;
    using SLG = StaticLifetimeGuard<T>;
    for (int t = 0; t < 2; ++t)
        mc::spawn([=] {
            SLG g;
            SLG h(g);
        });
    mc::spawn([] {
        T& x = SLG::instance(5);
        MC_CHECK(x.ready && x.v == 5, "singleton", "the instance is destroyed while it is in use");
    });
    mc::joinAll();
    MC_CHECK(T::built == 1 && T::gone == 0 && SLG::instance(9).v == 5 && SLG::instance().ready, "singleton", "the instance does not live to the end");
}

namespace
{
struct Iface
{
    virtual int id() const = 0;
    virtual ~Iface() = default;
};
template <int N>
struct Impl : Iface
{
    int v{0};
    Impl()
    {
        mc::point();
        v = N;
    }
    int id() const override { return v; }
};
int lateSets;
struct Hooks
{
    static void onSetAfterFinalize(Iface&, Iface&) noexcept
    {
        mc::Atomic a;
        ++lateSets;
    }
};
using H = PolymorphicHandler<Iface, Impl<1>, Hooks>;
struct HCall
{
    int kind;   // 0 get 1 set2 2 set3 3 reset 4 finalize
    int result; // get: id, set/reset: success
};
bool hstep(int& cur, const HCall& c)
{
    if (c.kind == 0)
        return c.result == cur;
    if (c.kind != 4 && c.result)
        cur = c.kind == 3 ? 1 : c.kind + 1;
    return true;
}
} // namespace
// Every pair of short programs of two threads: what they see is what some order of the calls gives.
MC_SCENARIO(handler, S(3, 60), S(4, 300))
{
    mc::ignore(&lateSets, sizeof lateSets);
    lateSets = 0;
    mc::threadLocals();
    auto* h = mc::make<std::vector<lin::Call<HCall>>>();
    mc::ignore(h, sizeof *h);
    static uint64_t clk;
    mc::ignore(&clk, sizeof clk);
    clk = 0;
    int prog[2][2];
    for (auto& p : prog)
        for (int& o : p)
            o = mc::choose(5);
    h->reserve(8);
    for (int t = 0; t < 2; ++t)
        mc::spawn([=] {
            for (int op : {prog[t][0], prog[t][1]})
            {
                size_t at;
                {
                    mc::Atomic a;
                    at = h->size();
                    h->push_back({{op, 0}, ++clk, ~0ULL});
                }
                int r = 0;
                switch (op)
                {
                case 0:
                    r = H::get().id();
                    break;
                case 1:
                    r = H::set(StaticLifetimeGuard<Impl<2>>());
                    break;
                case 2:
                    r = H::set(StaticLifetimeGuard<Impl<3>>());
                    break;
                case 3:
                    r = H::reset();
                    break;
                default:
                    H::finalize();
                }
                mc::Atomic a;
                (*h)[at].op.result = r;
                (*h)[at].ret = ++clk;
            }
        });
    mc::joinAll();
    h->push_back({{0, H::get().id()}, ++clk, 0});
    h->back().ret = ++clk;
    int refused = 0;
    for (auto& c : *h)
        refused += c.op.kind >= 1 && c.op.kind <= 3 && !c.op.result;
    MC_CHECK(refused == lateSets, "handler", "%d changes are refused and %d reported", refused, lateSets);
    // a change is refused once finalize() has returned, and only because of it
    for (auto& c : *h)
        if (c.op.kind >= 1 && c.op.kind <= 3)
        {
            bool over = false, begun = false;
            for (auto& f : *h)
                if (f.op.kind == 4)
                    over |= f.ret < c.call, begun |= f.call < c.ret;
            MC_CHECK(!over || !c.op.result, "handler", "the handler is changed after finalize()");
            MC_CHECK(begun || c.op.result, "handler", "a change is refused although nobody called finalize()");
        }
    std::vector<lin::Call<HCall>> c(*h);
    MC_CHECK(lin::linearizable(1, c, hstep), "handler", "what the threads see of the handler fits no order of the calls");
}

// ---------------------------------------------------------------- time
MC_SCENARIO(deadlines, S(0, 20), S(0, 20))
{
    const uint64_t d[] = {0, 1000, 50 * MS, 3600 * 1000 * MS};
    uint64_t len = d[mc::choose(4)];
    uint64_t end0 = mc::now_ns();
    deadline_timer t(Duration::fromNanoseconds(len));
    uint64_t lo = end0 + len, hi = mc::now_ns() + len; // the end lies between these
    for (int i = 0; i < 3; ++i)
    {
        switch (mc::choose(5))
        {
        case 0:
            mc::advance(len / 2);
            break;
        case 1:
            mc::advance(len);
            break;
        case 2:
            mc::advance(400);
            break;
        case 3:
            lo = mc::now_ns() + len;
            t.reset();
            hi = mc::now_ns() + len;
            break;
        default:
            len = d[mc::choose(4)];
            lo = mc::now_ns() + len;
            t.reset(Duration::fromNanoseconds(len));
            hi = mc::now_ns() + len;
        }
        uint64_t a = mc::now_ns();
        const bool e = t.hasExpired();
        uint64_t b = mc::now_ns();
        MC_CHECK(!e || b >= lo, "deadline", "the timer of %d us expires early", (int)(len / 1000));
        MC_CHECK(e || a <= hi, "deadline", "the timer of %d us does not expire", (int)(len / 1000));
        a = mc::now_ns();
        const uint64_t r = t.remainingTime().toNanoseconds();
        b = mc::now_ns();
        const uint64_t most = hi > a ? hi - a : 0, least = lo > b ? lo - b : 0;
        MC_CHECK(r <= most && r >= least, "deadline", "the remaining time is %d ns and should be between %d and %d", (int)r, (int)least, (int)most);
    }
}
