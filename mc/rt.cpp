// Model-checking runtime: deterministic fibers, exhaustive DFS over choices, happens-before race detection.
// Compiled WITHOUT -fsanitize=thread and linked in place of the tsan runtime.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.hpp"
#include <atomic>
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>

extern "C" void mc_on_thread(int parent, int child) __attribute__((weak));
namespace
{
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
#ifndef MC_MAXF
#define MC_MAXF 8
#endif
constexpr int MAXF = MC_MAXF;
constexpr u64 ARENA = 0x10000000000ULL;
constexpr u64 ARENA_SZ = 512ULL << 20;
constexpr u64 STACKS = 0x20000000000ULL;
constexpr u64 STACK_SZ = 1ULL << 20;
constexpr u64 SHADOW = 0x30000000000ULL;
constexpr int MAXCH = 1 << 16;
constexpr int MAXW = 16;

enum Kind : u8
{
    K_CHOOSE,
    K_SCHED,
    K_FAULT,
    K_CRASH,
    K_SPUR,
    K_STALE,
    K_TIME,
    K_N
};
const char* kindName[] = {"choose", "sched", "fault", "crash", "spurious", "stale", "timejump"};

struct Choice
{
    u16 n, c;
    u8 kind;
    u8 free; // alternatives cost nothing
};
struct VC
{
    u32 c[MAXF];
};
inline void vjoin(VC& a, const VC& b)
{
    for (int i = 0; i < MAXF; ++i)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}

enum FState : u8
{
    F_FREE,
    F_RUN,
    F_BLOCK,
    F_SLEEP, // timed; may also be waiting on obj
    F_QUIESCE,
    F_DONE,
    F_DEAD
};
struct Fiber
{
    FState st;
    bool yielded, mortal, timedout, daemon;
    u64 obj;
    u64 deadline;
    void* sp;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    int err;
    VC vc, acqF, relF; // acquire-fence pending, release-fence clock
    bool hasRelF;
    int locks;
    u64 writesSeen;
    std::function<void()>* sf;
    const char* ctx;
};

// Poll detection: what a fiber did since its last yield. An iteration without net effect does not wake other pollers.
constexpr int PSEQ = 2048, PUNDO = 256;
struct Poll
{
    bool iter, poller, dirty;
    int nPrev, nCur, nUndo;
    u64 seq[2][PSEQ];
    int cur;
    u64 ua[PUNDO], uv[PUNDO];
};
// --- hash tables stamped per execution ---
struct StoreRec
{
    u64 val;
    VC rel;
    u32 clk;
    u8 f, sc;
};
struct Loc
{
    u64 addr;
    u32 stamp;
    u8 first, multi, written, nst;
    VC rel; // release clock
    StoreRec st[4];
    u32 seq;             // number of stores so far
    u32 lastSeen[MAXF];  // per fiber: seq of latest store it has observed
};
struct Sync // mutex / sem / cond
{
    u64 addr;
    u32 stamp;
    u8 type;   // 1 mutex 2 sem 3 cond 4 guard
    u8 mkind;  // 0 normal 1 recursive 2 errorcheck
    u8 robust; // robust mutex
    u8 inconsistent, notrec, destroyed, first, multi;
    int owner; // -1 none
    int count;
    VC rel;
};
constexpr u32 LOCN = 1 << 14;
constexpr u32 SYNCN = 1 << 12;
struct Slot
{
    u32 clk;
    u8 mask, atomic;
    u8 pad[2];
};
struct Cell
{
    u32 stamp;
    u32 pcw[1];
    Slot w[MAXF][2];
    Slot r[MAXF][2];
};
struct Range
{
    u64 a, b;
};
constexpr u32 CONFN = 1 << 16;

struct QItem
{
    u32 len;
    u16 ch[MAXCH];
};
constexpr int QN = 64;
struct Shared
{
    std::atomic<u32> lock;
    std::atomic<int> qn, idle, stop, restart, capped;
    char sample[1200];
    std::atomic<u64> execs, steps, points, nodes, pruned, knownHits, maxlen, transitions;
    std::atomic<u32> nOut, nStates;
    std::atomic<u32> nConf;
    std::atomic<u64> conf[CONFN];
    std::atomic<u64> outs[1 << 16];
    std::atomic<u64> nonzero[K_N];
    char msg[4096];
    char sig[256];
    std::atomic<int> viol;
    u32 vlen;
    u16 vch[MAXCH];
    char known[32][256];
    std::atomic<u64> knownCnt[32];
    int nKnown;
    struct W
    {
        std::atomic<u32> len;
        std::atomic<u64> hb; // heartbeat ns at execution start
        std::atomic<u64> ex;
        u16 ch[MAXCH];
    } w[MAXW];
    QItem q[QN];
};
constexpr u64 STATEN = 1ULL << 24;

struct G
{
    Shared* sh;
    std::atomic<u64>* states;
    // run
    Fiber f[MAXF];
    int nf, cur, live;
    VC dummy;
    Choice ch[MAXCH];
    int nch;
    u16 prefix[MAXCH];
    int plen;
    // DFS frames = ch with chosen; budget
    int used[K_N];
    int bound[K_N];
    mc::Opts o;
    u32 stamp;
    u64 steps, consec, quiesceRounds, clock, writes, idleWrites, idleRounds, transitions;
    int atomicDepth;
    bool replay, inRun, aborting, dfs;
    int worker;
    // results of this run
    int result; // 0 ok 1 violation 2 pruned 3 divergence
    char msg[4096];
    char sig[256];
    void* engineSp;
    Loc loc[LOCN];
    Sync sync[SYNCN];
    u64 conf[CONFN];
    u32 nConf;
    Range prom[64], ign[64], crs[64];
    int nprom, nign, ncrs, nnames;
    Range names[64];
    const char* nameStr[64];
    u64 traceHash;
    u64 arenaTop, arenaHigh, arenaBase0;
    char* snap;
    char* snapArena;
    char* snapTls;
    char* tls;
    u64 tlsN;
    char* fiberTls; // saved thread-local storage of each fiber
    bool perFiberTls;
    u64 gA, gB;
    bool snapped;
    bool thorough;
    int crashes;
    u64 myExecs;
    mc::Scenario* scn;
    FILE* trace;
    Poll poll[MAXF];
};
G* g = nullptr;
mc::Scenario* scns = nullptr;
char* shadowBase = nullptr;

extern "C" char __data_start, _end, edata;

void rtInit()
{
    if (g)
        return;
    void* p = mmap(nullptr, sizeof(G), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
        abort();
    g = static_cast<G*>(p);
    g->sh = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g->states = static_cast<std::atomic<u64>*>(
        mmap(nullptr, STATEN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0)
        != (void*)ARENA)
        _exit(3);
    if (mmap((void*)STACKS, STACK_SZ * MAXF, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0)
        != (void*)STACKS)
        _exit(3);
    for (int i = 0; i < MAXF; ++i)
        mprotect((void*)(STACKS + i * STACK_SZ), 4096, PROT_NONE);
    g->gA = (u64)&__data_start;
    g->gB = (u64)&_end;
    u64 n = (ARENA_SZ + (g->gB - g->gA) + 64) / 8 * sizeof(Cell);
    shadowBase = static_cast<char*>(mmap(
        (void*)SHADOW, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
    if (shadowBase == MAP_FAILED)
        _exit(3);
    g->arenaTop = g->arenaHigh = ARENA;
    g->cur = 0;
    g->nf = 1;
    g->live = 1;
    g->clock = 1000000ULL * 1000000000ULL;
    g->stamp = 1;
}

u64 realNs()
{
    timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000ULL + t.tv_nsec;
}

inline u64 hash64(u64 x)
{
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdULL;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ULL;
    x ^= x >> 33;
    return x;
}

// ---------- arena ----------
[[noreturn]] void vfail(const char* sig, const char* fmt, ...);
void* arenaAlloc(u64 n, u64 al)
{
    rtInit();
    if (al < 16)
        al = 16;
    u64 p = (g->arenaTop + 16 + al - 1) & ~(al - 1);
    u64 e = p + n;
    if (e > ARENA + ARENA_SZ)
    {
        if (g->inRun)
            vfail("memory", "more than %llu MB were allocated in one execution", ARENA_SZ >> 20);
        const char m[] = "mc: arena exhausted\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(3);
    }
    *(u64*)(p - 8) = n;
    g->arenaTop = e;
    if (e > g->arenaHigh)
        g->arenaHigh = e;
    return (void*)p;
}

// ---------- end of run ----------
extern "C" void mc_switch(void** from, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

[[noreturn]] void endRun(int result)
{
    g->result = result;
    g->inRun = false;
    void* dummy;
    mc_switch(&dummy, g->engineSp);
    __builtin_unreachable();
}

[[noreturn]] void vfailv(const char* sig, const char* fmt, va_list ap)
{
    snprintf(g->sig, sizeof g->sig, "%s", sig);
    int n = vsnprintf(g->msg, sizeof g->msg, fmt, ap);
    // what the fibers were doing, as far as the harness said so
    for (int i = 0; n >= 0 && i < g->nf && g->inRun && (!strcmp(sig, "livelock") || !strcmp(sig, "deadlock")); ++i)
        if (g->f[i].ctx && n < (int)sizeof g->msg)
            n += snprintf(g->msg + n, sizeof g->msg - n, " [%s%s]", g->f[i].st == F_DEAD ? "died in " : "", g->f[i].ctx);
    if (!g->inRun)
    {
        fprintf(stderr, "mc: failure outside a run: %s: %s\n", g->sig, g->msg);
        _exit(3);
    }
    if (g->replay)
        fprintf(g->trace ? g->trace : stderr, "  !! [%d] %s: %s\n", g->cur, g->sig, g->msg);
    endRun(1);
}
[[noreturn]] void vfail(const char* sig, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfailv(sig, fmt, ap);
}

void tlog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void tlog(const char* fmt, ...)
{
    if (!g->replay)
        return;
    FILE* f = g->trace ? g->trace : stderr;
    va_list ap;
    va_start(ap, fmt);
    fprintf(f, "  [%d] ", g->cur);
    vfprintf(f, fmt, ap);
    fputc('\n', f);
    va_end(ap);
}

// ---------- choices ----------
// returns chosen alternative in [0,n); alternatives >0 cost 1 in their kind unless free
int choice(int n, Kind k, bool free)
{
    if (n <= 1)
        return 0;
    if (!free && g->used[k] >= g->bound[k])
        return 0; // budget exhausted: not a choice point (deterministic given the prefix)
    int i = g->nch;
    if (i >= MAXCH)
        vfail("horizon", "more than %d choices in one execution", MAXCH);
    int c = 0;
    Choice& x = g->ch[i];
    if (i < g->plen)
    {
        c = g->prefix[i];
        if (c >= n)
        {
            snprintf(g->msg, sizeof g->msg, "replay divergence at choice %d: want %d of %d (%s)", i, c, n, kindName[k]);
            endRun(3);
        }
    }
    x = Choice{(u16)n, (u16)c, (u8)k, (u8)free};
    g->nch = i + 1;
    Shared::W& w = g->sh->w[g->worker];
    w.ch[i] = (u16)c;
    w.len.store(i + 1, std::memory_order_relaxed);
    if (c && !free)
        g->used[k]++;
    g->traceHash = hash64(g->traceHash ^ (u64)n << 32 ^ (u64)c << 8 ^ k);
    return c;
}

// ---------- conflict set ----------
bool inConf(u64 key)
{
    u32 h = hash64(key) & (CONFN - 1);
    while (g->conf[h])
    {
        if (g->conf[h] == key)
            return true;
        h = (h + 1) & (CONFN - 1);
    }
    return false;
}
void addConfShared(u64 key)
{
    Shared* s = g->sh;
    u32 h = hash64(key) & (CONFN - 1);
    for (;;)
    {
        u64 v = s->conf[h].load();
        if (v == key)
            return;
        if (!v)
        {
            u64 e = 0;
            if (s->conf[h].compare_exchange_strong(e, key))
            {
                u32 c = s->nConf.fetch_add(1) + 1;
                s->restart.store(1);
                if (c > CONFN * 3 / 4)
                {
                    fprintf(stderr, "mc: conflict set overflow\n");
                    _exit(3);
                }
                return;
            }
            if (e == key)
                return;
        }
        h = (h + 1) & (CONFN - 1);
    }
}
void loadConf()
{
    for (u32 i = 0; i < CONFN; ++i)
        g->conf[i] = 0;
    u32 n = 0;
    for (u32 i = 0; i < CONFN; ++i)
    {
        u64 v = g->sh->conf[i].load();
        if (!v)
            continue;
        u32 h = hash64(v) & (CONFN - 1);
        while (g->conf[h])
            h = (h + 1) & (CONFN - 1);
        g->conf[h] = v;
        ++n;
    }
    g->nConf = n;
}

// ---------- scheduler ----------
inline bool timedReady(const Fiber& f)
{
    return f.st == F_SLEEP && g->clock >= f.deadline;
}
void switchTo(int t)
{
    int from = g->cur;
    if (t == from)
        return;
    Fiber& a = g->f[from];
    Fiber& b = g->f[t];
    a.err = errno;
    g->cur = t;
    g->consec = 0;
    g->transitions++;
    if (b.st == F_SLEEP)
    {
        b.st = F_RUN;
        b.timedout = true;
        b.obj = 0;
    }
    b.yielded = false;
    if (g->perFiberTls)
    {
        memcpy(g->fiberTls + from * g->tlsN, g->tls, g->tlsN);
        memcpy(g->tls, g->fiberTls + t * g->tlsN, g->tlsN);
    }
    mc_switch(&a.sp, b.sp);
    errno = g->f[g->cur].err;
}
inline void bumpWrites()
{
    Poll& p = g->poll[g->cur];
    if (!p.poller)
        g->writes++;
}
inline void hardWrite()
{
    Poll& p = g->poll[g->cur];
    p.dirty = true;
    p.poller = false;
    g->writes++;
}
// a visible operation of the current fiber: a poller that leaves its previous path is no poller any more
inline void pollStep(u64 a)
{
    Poll& p = g->poll[g->cur];
    if (!p.iter)
        return;
    if (p.poller && (p.nCur >= p.nPrev || p.seq[p.cur ^ 1][p.nCur] != a))
    {
        p.poller = false;
        g->writes++;
    }
    if (p.nCur < PSEQ)
        p.seq[p.cur][p.nCur++] = a;
    else
        p.dirty = true;
}
// the current fiber is about to write the 8-byte cell at a (shared memory)
inline void pollWrite(u64 a)
{
    Poll& p = g->poll[g->cur];
    if (!p.iter || p.dirty)
        return;
    a &= ~7ULL;
    for (int i = 0; i < p.nUndo; ++i)
        if (p.ua[i] == a)
            return;
    if (p.nUndo == PUNDO)
    {
        p.dirty = true;
        return;
    }
    p.ua[p.nUndo] = a;
    p.uv[p.nUndo++] = *(u64*)a;
}
void pollYield()
{
    Poll& p = g->poll[g->cur];
    if (p.iter)
    {
        bool prod = p.dirty;
        for (int i = 0; i < p.nUndo && !prod; ++i)
            prod = *(u64*)p.ua[i] != p.uv[i];
        if (prod && p.poller)
            g->writes++;
        p.poller = !prod;
        p.nPrev = p.nCur;
        p.cur ^= 1;
    }
    p.iter = true;
    p.dirty = false;
    p.nCur = p.nUndo = 0;
}
// collect enabled fibers (excluding `skip`)
int enabled(int* out, int skip)
{
    int n = 0;
    for (int i = 0; i < g->nf; ++i)
    {
        if (i == skip)
            continue;
        Fiber& f = g->f[i];
        if (f.st == F_RUN && f.yielded && f.writesSeen != g->writes)
            f.yielded = false;
        if (f.st == F_RUN && !f.yielded)
            out[n++] = i;
        else if (timedReady(f))
            out[n++] = i;
    }
    return n;
}
[[noreturn]] void deadlock()
{
    char b[1024];
    int n = 0;
    for (int i = 0; i < g->nf && n < 900; ++i)
    {
        char o[64];
        u64 ob = g->f[i].obj; // addresses outside of the arena differ from process to process
        snprintf(o, sizeof o, "%llx", (unsigned long long)(ob - ARENA < ARENA_SZ ? ob : ob ? 1 : 0));
        for (int k = 0; k < g->nnames; ++k)
            if (g->f[i].obj >= g->names[k].a && g->f[i].obj < g->names[k].b)
                snprintf(o, sizeof o, "%s", g->nameStr[k]);
        n += snprintf(b + n, sizeof b - n, " f%d:%s@%s", i,
                      g->f[i].st == F_BLOCK     ? "blocked"
                      : g->f[i].st == F_QUIESCE ? "quiesce"
                      : g->f[i].st == F_DEAD    ? "crashed"
                      : g->f[i].st == F_DONE    ? "done"
                                                : "?",
                      o);
    }
    vfail("deadlock", "no fiber can run:%s", b);
}
// current fiber cannot continue (blocked / done / yielded / sleeping): pick another
void reschedule()
{
    int en[MAXF];
    for (;;)
    {
        int n = enabled(en, -1);
        if (n > 0)
        {
            // pollers that only look again after time has passed go in a fixed order
            int c = g->idleRounds || g->o.det ? 0 : choice(n, K_SCHED, true);
            if (g->idleRounds && g->writes != g->idleWrites)
                g->idleRounds = 0, c = g->o.det ? 0 : choice(n, K_SCHED, true);
            switchTo(en[c]);
            return;
        }
        // before the harness continues after quiesce(), plain sleepers look again at what changed since they slept
        bool quiescer = false, again = false;
        for (int i = 0; i < g->nf; ++i)
            if (g->f[i].st == F_QUIESCE)
                quiescer = true;
        if (quiescer && g->quiesceRounds < 200)
            for (int i = 0; i < g->nf && !again; ++i)
                if (g->f[i].st == F_SLEEP && !g->f[i].obj && g->f[i].writesSeen != g->writes)
                {
                    g->quiesceRounds++;
                    g->clock = g->f[i].deadline;
                    again = true;
                }
        if (again)
            continue;
        for (int i = 0; i < g->nf; ++i)
            if (g->f[i].st == F_QUIESCE)
            {
                bool ok = true;
                for (int j = 0; j < g->nf; ++j)
                    if (j != i && g->f[j].st == F_RUN && !g->f[j].yielded)
                        ok = false;
                if (ok)
                {
                    g->f[i].st = F_RUN;
                    switchTo(i);
                    return;
                }
            }
        bool any = false;
        for (int i = 0; i < g->nf; ++i)
            if (g->f[i].st == F_RUN && g->f[i].yielded)
                any = true;
        u64 dl = ~0ULL;
        for (int i = 0; i < g->nf; ++i)
            if (g->f[i].st == F_SLEEP && g->f[i].deadline < dl)
                dl = g->f[i].deadline;
        if (any)
        {
            // only pollers (and sleepers): let time pass and let the pollers look again
            if (g->writes != g->idleWrites)
                g->idleRounds = 0;
            g->idleWrites = g->writes;
            if (++g->idleRounds > 400)
                vfail("livelock", "only polling fibers are left and nothing changes");
            int sh = g->idleRounds < 50 ? 0 : (int)(g->idleRounds - 50) / 10;
            u64 t = g->clock + (1000000ULL << (sh > 14 ? 14 : sh));
            g->clock = dl < t ? (dl > g->clock ? dl : g->clock) : t;
            for (int i = 0; i < g->nf; ++i)
                g->f[i].yielded = false;
            continue;
        }
        if (dl != ~0ULL)
        {
            if (dl > g->clock)
                g->clock = dl;
            continue;
        }
        deadlock();
    }
}
void maybeCrash()
{
    Fiber& f = g->f[g->cur];
    if (!f.mortal || g->atomicDepth || f.locks > 0 || g->bound[K_CRASH] == 0)
        return;
    if (choice(2, K_CRASH, false))
    {
        tlog("*** fiber %d crashes here", g->cur);
        f.st = F_DEAD;
        f.mortal = false;
        g->live--;
        g->writes++;
        for (int i = 0; i < g->nf; ++i)
            if (g->f[i].st == F_BLOCK && g->f[i].obj == (u64)&f)
            {
                g->f[i].st = F_RUN;
                vjoin(g->f[i].vc, f.vc);
            }
        reschedule();
        abort();
    }
}
// scheduling point before a visible operation
void schedPoint()
{
    if (g->atomicDepth || !g->inRun)
        return;
    maybeCrash();
    if (g->live <= 1 && g->nf == 1)
        return;
    int en[MAXF + 1];
    int n = 1;
    en[0] = g->cur;
    n += enabled(en + 1, g->cur);
    int m = n;
    if (g->bound[K_TIME] > g->used[K_TIME])
    {
        // timed waiters may fire although others could still run
        int tw[MAXF], k = 0;
        for (int i = 0; i < g->nf; ++i)
            if (g->f[i].st == F_SLEEP && !timedReady(g->f[i]))
                tw[k++] = i;
        if (k)
        {
            int c = choice(k + 1, K_TIME, false);
            if (c)
            {
                Fiber& t = g->f[tw[c - 1]];
                if (t.deadline > g->clock)
                    g->clock = t.deadline;
                tlog("time jumps to the deadline of fiber %d", tw[c - 1]);
                switchTo(tw[c - 1]);
                return;
            }
        }
    }
    if (m <= 1)
        return;
    int c = choice(m, K_SCHED, false);
    if (c)
    {
        tlog("--- preempted, switching to fiber %d", en[c]);
        switchTo(en[c]);
    }
}
void doYield()
{
    if (!g->inRun || g->atomicDepth)
        return;
    Fiber& f = g->f[g->cur];
    maybeCrash();
    pollYield();
    f.yielded = true;
    f.writesSeen = g->writes;
    if (++g->steps > g->o.max_steps)
        vfail("livelock", "more than %llu steps", (unsigned long long)g->o.max_steps);
    reschedule();
}
void stepCount()
{
    if (++g->steps > g->o.max_steps)
        vfail("livelock", "more than %llu atomic steps in one execution", (unsigned long long)g->o.max_steps);
    if (++g->consec > g->o.spin && !g->atomicDepth && g->live > 1)
    {
        g->consec = 0;
        doYield();
    }
}
void blockOn(u64 obj)
{
    Fiber& f = g->f[g->cur];
    if (g->atomicDepth)
        vfail("deadlock", "blocking operation inside an atomic harness section");
    f.st = F_BLOCK;
    f.obj = obj;
    reschedule();
}
// returns true if timed out
bool blockOnUntil(u64 obj, u64 deadline)
{
    Fiber& f = g->f[g->cur];
    if (g->clock >= deadline)
        return true;
    f.st = F_SLEEP;
    f.obj = obj;
    f.deadline = deadline;
    f.writesSeen = g->writes;
    f.timedout = false;
    reschedule();
    if (f.st == F_SLEEP) // nobody else ran
    {
        f.st = F_RUN;
        f.timedout = true;
        f.obj = 0;
    }
    return f.timedout;
}
void wakeAll(u64 obj)
{
    for (int i = 0; i < g->nf; ++i)
    {
        Fiber& f = g->f[i];
        if ((f.st == F_BLOCK || f.st == F_SLEEP) && f.obj == obj)
        {
            f.st = F_RUN;
            f.obj = 0;
            f.timedout = false;
        }
    }
}
inline bool conc()
{
    return g && g->inRun && g->nf > 1;
}

// ---------- locations ----------
Loc* loc(u64 a)
{
    u32 h = hash64(a) & (LOCN - 1);
    for (u32 i = 0; i < LOCN; ++i)
    {
        Loc& l = g->loc[h];
        if (l.stamp != g->stamp)
        {
            memset(&l, 0, sizeof l);
            l.addr = a;
            l.stamp = g->stamp;
            l.first = 0xff;
            return &l;
        }
        if (l.addr == a)
            return &l;
        h = (h + 1) & (LOCN - 1);
    }
    fprintf(stderr, "mc: too many atomic locations\n");
    _exit(3);
}
Sync* syncObj(u64 a, u8 type)
{
    u32 h = hash64(a) & (SYNCN - 1);
    for (u32 i = 0; i < SYNCN; ++i)
    {
        Sync& l = g->sync[h];
        if (l.stamp != g->stamp)
        {
            memset(&l, 0, sizeof l);
            l.addr = a;
            l.stamp = g->stamp;
            l.type = type;
            l.owner = -1;
            l.first = 0xff;
            return &l;
        }
        if (l.addr == a)
        {
            if (l.type != type)
            {
                memset(&l, 0, sizeof l);
                l.addr = a;
                l.stamp = g->stamp;
                l.type = type;
                l.owner = -1;
                l.first = 0xff;
            }
            return &l;
        }
        h = (h + 1) & (SYNCN - 1);
    }
    fprintf(stderr, "mc: too many sync objects\n");
    _exit(3);
}
// conflict bookkeeping; returns true if the location is visible (scheduling point needed)
bool touch(u64 key, u8& first, u8& multi, u8* written, bool wr)
{
    u8 me = (u8)g->cur;
    if (g->nf > 1 && g->live > 1)
    {
        if (first == 0xff)
            first = me;
        else if (first != me)
            multi = 1;
        if (written && wr)
            *written = 1;
        if (multi && (!written || *written) && !inConf(key))
            addConfShared(key);
    }
    return inConf(key);
}

// ---------- race detection ----------
inline Cell* cell(u64 a)
{
    u64 off;
    if (a - ARENA < ARENA_SZ)
        off = a - ARENA;
    else if (a - g->gA < g->gB - g->gA)
        off = ARENA_SZ + (a - g->gA);
    else
        return nullptr;
    Cell* c = (Cell*)(shadowBase + (off >> 3) * sizeof(Cell));
    if (c->stamp != g->stamp)
    {
        memset(c, 0, sizeof *c);
        c->stamp = g->stamp;
    }
    return c;
}
inline bool inR(const Range* r, int n, u64 a)
{
    for (int i = 0; i < n; ++i)
        if (a >= r[i].a && a < r[i].b)
            return true;
    return false;
}
void note(Slot* s, u32 clk, u8 mask, u8 atomic)
{
    if (s[0].mask == mask && s[0].atomic == atomic)
    {
        s[0].clk = clk;
        return;
    }
    if (s[1].mask == mask && s[1].atomic == atomic)
    {
        s[1].clk = clk;
        return;
    }
    Slot* t = s[0].clk <= s[1].clk ? s : s + 1;
    t->clk = clk;
    t->mask = mask;
    t->atomic = atomic;
}
[[noreturn]] void reportRace(u64 a, int other, bool ow, bool w, bool oa, bool at, void* pc)
{
    tlog("race at pc %p", pc);
    vfail("data-race",
          "%s %s of fiber %d at %llx is not ordered after %s %s of fiber %d (pc %p)",
          at ? "atomic" : "plain",
          w ? "write" : "read",
          g->cur,
          (unsigned long long)a,
          oa ? "atomic" : "plain",
          ow ? "write" : "read",
          other,
          pc);
}
void access1(u64 a, u8 mask, bool w, bool atomic, void* pc)
{
    Cell* c = cell(a);
    if (!c)
        return;
    int me = g->cur;
    const VC& vc = g->f[me].vc;
    for (int f = 0; f < g->nf; ++f)
    {
        if (f == me)
            continue;
        u32 seen = vc.c[f];
        for (int k = 0; k < 2; ++k)
        {
            Slot& s = c->w[f][k];
            if (s.clk > seen && (s.mask & mask) && !(atomic && s.atomic))
                reportRace(a, f, true, w, s.atomic, atomic, pc);
            if (w)
            {
                Slot& r = c->r[f][k];
                if (r.clk > seen && (r.mask & mask) && !(atomic && r.atomic))
                    reportRace(a, f, false, w, r.atomic, atomic, pc);
            }
        }
    }
    note(w ? c->w[me] : c->r[me], vc.c[me], mask, atomic);
}
void access(u64 a, u64 n, bool w, bool atomic, void* pc)
{
    if (!g->o.races)
        return;
    if (!(a - ARENA < ARENA_SZ) && !(a - g->gA < g->gB - g->gA))
        return;
    u64 e = a + n;
    while (a < e)
    {
        u64 b = a & ~7ULL;
        u64 hi = b + 8 < e ? b + 8 : e;
        u8 mask = (u8)(((1u << (hi - b)) - 1) & ~((1u << (a - b)) - 1));
        access1(b, mask, w, atomic, pc);
        a = hi;
    }
}
inline void plain(u64 a, u64 n, bool w, void* pc)
{
    if (!g || !g->inRun)
        return;
    if (g->nf <= 1)
        return;
    if (a - STACKS < STACK_SZ * MAXF)
        return;
    if (g->atomicDepth)
        return;
    if (w && g->ncrs && g->f[g->cur].mortal && inR(g->crs, g->ncrs, a))
        maybeCrash();
    if (g->nprom && inR(g->prom, g->nprom, a))
    {
        Loc* l = loc(a & ~7ULL);
        stepCount();
        if (touch(a & ~7ULL, l->first, l->multi, &l->written, w))
        {
            if (g->replay)
                tlog("%s(shared) %llx pc %p", w ? "write" : "read", (unsigned long long)a, pc);
            schedPoint();
        }
        if (w)
        {
            pollWrite(a);
            bumpWrites();
        }
        return;
    }
    if (g->nign && inR(g->ign, g->nign, a))
        return;
    if (w && g->poll[g->cur].iter && ((a - ARENA < ARENA_SZ) || (a - g->gA < g->gB - g->gA)))
        for (u64 b = a & ~7ULL; b < a + n; b += 8)
            pollWrite(b);
    access(a, n, w, false, pc);
}

// ---------- atomics ----------
inline bool isAcq(int mo)
{
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
inline bool isRel(int mo)
{
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
// pre: scheduling
Loc* apre(u64 a, u64 n, bool w, const char* op, void* pc)
{
    Loc* l = loc(a);
    stepCount();
    if (touch(a, l->first, l->multi, &l->written, w))
    {
        schedPoint();
        g->transitions++;
    }
    else if (g->f[g->cur].mortal && w)
        maybeCrash();
    if (g->replay)
        tlog("%s %llx pc %p", op, (unsigned long long)a, pc);
    pollStep(a);
    if (w)
        pollWrite(a);
    if (!g->atomicDepth && !(g->nprom && inR(g->prom, g->nprom, a)))
        access(a, n, w, true, pc);
    return l;
}
void acquireFrom(const VC& rel, int mo)
{
    Fiber& f = g->f[g->cur];
    if (isAcq(mo))
        vjoin(f.vc, rel);
    else
        vjoin(f.acqF, rel);
}
void releaseTo(Loc* l, int mo, bool rmw)
{
    Fiber& f = g->f[g->cur];
    if (!rmw)
        memset(&l->rel, 0, sizeof l->rel);
    if (isRel(mo))
        vjoin(l->rel, f.vc);
    else if (f.hasRelF)
        vjoin(l->rel, f.relF);
    f.vc.c[g->cur]++;
    bumpWrites();
}
void recStore(Loc* l, u64 old, u64 val, int mo)
{
    if (l->seq == 0)
    {
        // the value before the first concurrent store
        l->seq = 1;
        StoreRec& r = l->st[1];
        memset(&r, 0, sizeof r);
        r.val = old;
    }
    l->seq++;
    l->lastSeen[g->cur] = l->seq;
    if (!g->bound[K_STALE])
        return;
    StoreRec& r = l->st[l->seq & 3];
    r.val = val;
    r.rel = l->rel;
    r.f = (u8)g->cur;
    r.clk = g->f[g->cur].vc.c[g->cur] - 1; // clk at the store (releaseTo already incremented)
    r.sc = mo == __ATOMIC_SEQ_CST;
}

template <typename T>
T aload(const volatile T* p, int mo, void* pc)
{
    if (!conc())
        return *p;
    u64 a = (u64)p;
    Loc* l = apre(a, sizeof(T), false, "load", pc);
    if (g->bound[K_STALE] > g->used[K_STALE] && !g->atomicDepth && l->seq > 0 && mo != __ATOMIC_SEQ_CST)
    {
        // candidate stores: newest first; an older store is readable if the next newer one is not
        // happens-before this load and this fiber has not observed it.
        Fiber& f = g->f[g->cur];
        int k = 0;
        u32 s = l->seq;
        while (k < 3 && s > 1 && s > l->lastSeen[g->cur])
        {
            StoreRec& newer = l->st[s & 3];
            if (newer.clk <= f.vc.c[newer.f])
                break;
            if (s - 1 < 1)
                break;
            --s;
            ++k;
        }
        if (k)
        {
            int c = choice(k + 1, K_STALE, false);
            if (c)
            {
                u32 q = l->seq - c;
                StoreRec& r = l->st[q & 3];
                l->lastSeen[g->cur] = q;
                acquireFrom(r.rel, mo);
                tlog("stale read of %llx -> %llx", (unsigned long long)a, (unsigned long long)r.val);
                return (T)r.val;
            }
        }
    }
    l->lastSeen[g->cur] = l->seq;
    acquireFrom(l->rel, mo);
    return *p;
}
template <typename T>
void astore(volatile T* p, T v, int mo, void* pc)
{
    if (!conc())
    {
        *p = v;
        return;
    }
    Loc* l = apre((u64)p, sizeof(T), true, "store", pc);
    T o = *p;
    *p = v;
    releaseTo(l, mo, false);
    recStore(l, (u64)o, (u64)v, mo);
}
template <typename T, typename F>
T armw(volatile T* p, int mo, F f, const char* op, void* pc)
{
    if (!conc())
    {
        T o = *p;
        *p = f(o);
        return o;
    }
    Loc* l = apre((u64)p, sizeof(T), true, op, pc);
    T o = *p;
    *p = f(o);
    acquireFrom(l->rel, mo);
    releaseTo(l, mo, true);
    recStore(l, (u64)o, (u64)*p, mo);
    return o;
}
template <typename T>
bool acas(volatile T* p, T* exp, T des, int mo, int fmo, bool weak, void* pc)
{
    if (!conc())
    {
        T o = *p;
        if (o == *exp)
        {
            *p = des;
            return true;
        }
        *exp = o;
        return false;
    }
    Loc* l = apre((u64)p, sizeof(T), true, weak ? "cas-weak" : "cas", pc);
    T o = *p;
    l->lastSeen[g->cur] = l->seq;
    if (o == *exp)
    {
        if (weak && !g->atomicDepth && choice(2, K_SPUR, false))
        {
            tlog("spurious failure");
            acquireFrom(l->rel, fmo);
            return false;
        }
        *p = des;
        acquireFrom(l->rel, mo);
        releaseTo(l, mo, true);
        recStore(l, (u64)o, (u64)des, mo);
        return true;
    }
    acquireFrom(l->rel, fmo);
    *exp = o;
    return false;
}
} // namespace

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void* p) { plain((u64)p, n, false, PC); }                                                      \
    void __tsan_write##n(void* p) { plain((u64)p, n, true, PC); }                                                      \
    void __tsan_read_write##n(void* p)                                                                                 \
    {                                                                                                                  \
        plain((u64)p, n, false, PC);                                                                                   \
        plain((u64)p, n, true, PC);                                                                                    \
    }                                                                                                                  \
    void __tsan_unaligned_read##n(void* p) { plain((u64)p, n, false, PC); }                                            \
    void __tsan_unaligned_write##n(void* p) { plain((u64)p, n, true, PC); }                                            \
    void __tsan_unaligned_read_write##n(void* p)                                                                       \
    {                                                                                                                  \
        plain((u64)p, n, false, PC);                                                                                   \
        plain((u64)p, n, true, PC);                                                                                    \
    }                                                                                                                  \
    void __tsan_volatile_read##n(void* p) { plain((u64)p, n, false, PC); }                                             \
    void __tsan_volatile_write##n(void* p) { plain((u64)p, n, true, PC); }                                             \
    void __tsan_unaligned_volatile_read##n(void* p) { plain((u64)p, n, false, PC); }                                   \
    void __tsan_unaligned_volatile_write##n(void* p) { plain((u64)p, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, unsigned long n) { plain((u64)p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { plain((u64)p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { plain((u64)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { plain((u64)p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n)
{
    if (n && g && g->inRun && g->nf > 1)
    {
        plain((u64)s, n, false, PC);
        plain((u64)d, n, true, PC);
        if (n > 8 && g->nprom && (inR(g->prom, g->nprom, (u64)s) || inR(g->prom, g->nprom, (u64)d)))
        {
            unsigned long h = n / 2;
            memcpy(d, s, h);
            plain((u64)s + h, n - h, false, PC);
            plain((u64)d + h, n - h, true, PC);
            memcpy((char*)d + h, (const char*)s + h, n - h);
            return d;
        }
    }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n)
{
    if (n)
    {
        plain((u64)s, n, false, PC);
        plain((u64)d, n, true, PC);
    }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n)
{
    if (n)
        plain((u64)d, n, true, PC);
    return memset(d, c, n);
}
#define AT(N, T)                                                                                                       \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) { return aload<T>(p, mo, PC); }                             \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { astore<T>(p, v, mo, PC); }                             \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo)                                                          \
    {                                                                                                                  \
        return armw<T>(p, mo, [v](T) { return v; }, "xchg", PC);                                                       \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo)                                                         \
    {                                                                                                                  \
        return armw<T>(p, mo, [v](T o) { return (T)(o + v); }, "add", PC);                                             \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo)                                                         \
    {                                                                                                                  \
        return armw<T>(p, mo, [v](T o) { return (T)(o - v); }, "sub", PC);                                             \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo)                                                         \
    {                                                                                                                  \
        return armw<T>(p, mo, [v](T o) { return (T)(o & v); }, "and", PC);                                             \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo)                                                          \
    {                                                                                                                  \
        return armw<T>(p, mo, [v](T o) { return (T)(o | v); }, "or", PC);                                              \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo)                                                         \
    {                                                                                                                  \
        return armw<T>(p, mo, [v](T o) { return (T)(o ^ v); }, "xor", PC);                                             \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo)                                                        \
    {                                                                                                                  \
        return armw<T>(p, mo, [v](T o) { return (T) ~(o & v); }, "nand", PC);                                          \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int f)                            \
    {                                                                                                                  \
        return acas<T>(p, e, d, mo, f, false, PC);                                                                     \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int f)                              \
    {                                                                                                                  \
        return acas<T>(p, e, d, mo, f, true, PC);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int mo, int f)                                  \
    {                                                                                                                  \
        acas<T>(p, &e, d, mo, f, false, PC);                                                                           \
        return e;                                                                                                      \
    }
AT(8, u8)
AT(16, u16)
AT(32, u32)
AT(64, u64)
void __tsan_atomic_thread_fence(int mo)
{
    if (!conc())
        return;
    Fiber& f = g->f[g->cur];
    if (f.mortal)
        maybeCrash();
    if (isAcq(mo))
        vjoin(f.vc, f.acqF);
    if (isRel(mo))
    {
        f.relF = f.vc;
        f.hasRelF = true;
        f.vc.c[g->cur]++;
    }
}
void __tsan_atomic_signal_fence(int) {}

// ---------- pthreads ----------
static void fiberMain()
{
    Fiber& f = g->f[g->cur];
    errno = 0;
    if (f.sf)
        (*f.sf)();
    else
        f.ret = f.fn(f.arg);
    Fiber& me = g->f[g->cur];
    me.st = F_DONE;
    me.mortal = false;
    g->live--;
    g->writes++;
    tlog("fiber done");
    if (g->cur == 0)
        endRun(0);
    for (int i = 0; i < g->nf; ++i)
        if (g->f[i].st == F_BLOCK && g->f[i].obj == (u64)&me)
        {
            g->f[i].st = F_RUN;
            g->f[i].obj = 0;
            vjoin(g->f[i].vc, me.vc);
        }
    reschedule();
    abort();
}
static void prepStack(int id)
{
    u64 top = STACKS + (id + 1) * STACK_SZ - 64;
    void** sp = (void**)top;
    *--sp = nullptr;           // alignment / fake return
    *--sp = (void*)&fiberMain; // ret target
    for (int i = 0; i < 6; ++i)
        *--sp = nullptr;
    g->f[id].sp = sp;
}
static int newFiber(void* (*fn)(void*), void* arg, std::function<void()>* sf)
{
    if (g->nf >= MAXF)
        vfail("harness", "too many fibers");
    int id = g->nf;
    Fiber& f = g->f[id];
    memset(&f, 0, sizeof f);
    f.fn = fn;
    f.arg = arg;
    f.sf = sf;
    f.vc = g->f[g->cur].vc;
    f.vc.c[id] = 1;
    g->f[g->cur].vc.c[g->cur]++;
    prepStack(id);
    if (g->perFiberTls)
        memset(g->fiberTls + id * g->tlsN, 0, g->tlsN);
    f.st = F_RUN;
    g->nf++;
    g->live++;
    tlog("spawn fiber %d", id);
    if (mc_on_thread)
        mc_on_thread(g->cur, id);
    return id;
}
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!g || !g->inRun)
    {
        // set up before the explored executions: background threads of the fixture never run
        *t = (pthread_t)0xfffff;
        return 0;
    }
    int id = newFiber(fn, arg, nullptr);
    *t = (pthread_t)(id + 1);
    schedPoint();
    return 0;
}
static void joinFiber(int id)
{
    Fiber& t = g->f[id];
    if (t.st != F_DONE && t.st != F_DEAD)
        blockOn((u64)&t);
    vjoin(g->f[g->cur].vc, t.vc);
}
int pthread_join(pthread_t t, void** r)
{
    if (t == (pthread_t)0xfffff)
        return 0;
    int id = (int)(u64)t - 1;
    if (!g || id < 0 || id >= g->nf)
        return ESRCH;
    joinFiber(id);
    if (r)
        *r = g->f[id].ret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { return g && g->inRun ? (pthread_t)(u64)(g->cur + 1) : (pthread_t)1; }
int pthread_setname_np(pthread_t, const char*) { return 0; }
int pthread_getname_np(pthread_t, char* b, size_t n)
{
    if (n)
        snprintf(b, n, "fiber");
    return 0;
}

static Sync* mtx(pthread_mutex_t* m)
{
    Sync* s = syncObj((u64)m, 1);
    if (s->first == 0xff && s->owner == -1 && s->count == 0 && s->mkind == 0)
    {
        int k = m->__data.__kind;
        s->mkind = (u8)(k & 3);
        s->robust = (k & 16) != 0;
    }
    return s;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    int kind = 0, robust = 0;
    if (a)
    {
        pthread_mutexattr_gettype(a, &kind);
        pthread_mutexattr_getrobust(a, &robust);
    }
    m->__data.__kind = (kind & 3) | (robust == PTHREAD_MUTEX_ROBUST ? 16 : 0);
    if (g && g->inRun)
    {
        Sync* s = syncObj((u64)m, 1);
        u32 st = s->stamp;
        memset(s, 0, sizeof *s);
        s->addr = (u64)m;
        s->stamp = st;
        s->type = 1;
        s->owner = -1;
        s->first = 0xff;
        s->mkind = (u8)(kind & 3);
        s->robust = robust == PTHREAD_MUTEX_ROBUST;
    }
    return 0;
}
static int lockImpl(pthread_mutex_t* m, bool tryOnly, const timespec* abs)
{
    if (!g || !g->inRun)
        return 0;
    Sync* s = mtx(m);
    if (s->destroyed)
        vfail("destroyed-mutex", "lock of a destroyed mutex %p", (void*)m);
    stepCount();
    if (touch((u64)m ^ 1, s->first, s->multi, nullptr, true))
        schedPoint();
    if (g->replay)
        tlog("%s %p pc %p", tryOnly ? "trylock" : "lock", (void*)m, PC);
    if (s->notrec)
        return ENOTRECOVERABLE;
    Fiber& f = g->f[g->cur];
    if (s->owner == g->cur)
    {
        if (s->mkind == PTHREAD_MUTEX_RECURSIVE)
        {
            s->count++;
            f.locks++;
            return 0;
        }
        if (tryOnly)
            return EBUSY;
        if (s->mkind == PTHREAD_MUTEX_ERRORCHECK)
            return EDEADLK;
        vfail("deadlock", "fiber %d locks the non-recursive mutex %p it already holds", g->cur, (void*)m);
    }
    while (s->owner != -1)
    {
        if (s->owner >= 0 && g->f[s->owner].st == F_DEAD)
        {
            if (s->robust)
            {
                s->inconsistent = 1;
                s->owner = g->cur;
                s->count = 1;
                f.locks++;
                return EOWNERDEAD;
            }
        }
        if (tryOnly)
            return EBUSY;
        if (abs)
        {
            if (blockOnUntil((u64)m, abs->tv_sec * 1000000000ULL + abs->tv_nsec))
                return ETIMEDOUT;
        }
        else
            blockOn((u64)m);
        if (s->notrec)
            return ENOTRECOVERABLE;
    }
    s->owner = g->cur;
    s->count = 1;
    f.locks++;
    vjoin(f.vc, s->rel);
    return 0;
}
static int unlockImpl(pthread_mutex_t* m)
{
    if (!g || !g->inRun)
        return 0;
    Sync* s = mtx(m);
    if (s->destroyed)
        vfail("destroyed-mutex", "unlock of a destroyed mutex %p", (void*)m);
    if (s->owner != g->cur)
    {
        if (s->mkind != 0 || s->robust)
            return EPERM;
        vfail("bad-unlock", "fiber %d unlocks mutex %p owned by %d", g->cur, (void*)m, s->owner);
    }
    Fiber& f = g->f[g->cur];
    f.locks--;
    if (--s->count > 0)
        return 0;
    if (s->inconsistent)
        s->notrec = 1;
    s->owner = -1;
    s->rel = f.vc;
    f.vc.c[g->cur]++;
    pollStep((u64)m);
    bumpWrites();
    if (g->replay)
        tlog("unlock %p", (void*)m);
    wakeAll((u64)m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lockImpl(m, false, nullptr); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lockImpl(m, true, nullptr); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return lockImpl(m, false, t); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return unlockImpl(m); }
int pthread_mutex_consistent(pthread_mutex_t* m)
{
    Sync* s = mtx(m);
    if (!s->robust || !s->inconsistent || s->owner != g->cur)
        return EINVAL;
    s->inconsistent = 0;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!g || !g->inRun)
        return 0;
    Sync* s = mtx(m);
    if (s->owner != -1)
        return EBUSY;
    s->destroyed = 1;
    return 0;
}
// conditions
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* abs)
{
    if (!g->inRun)
        return 0;
    stepCount();
    schedPoint();
    unlockImpl(m);
    int r = 0;
    if (abs)
    {
        if (blockOnUntil((u64)c, abs->tv_sec * 1000000000ULL + abs->tv_nsec))
            r = ETIMEDOUT;
    }
    else
        blockOn((u64)c);
    lockImpl(m, false, nullptr);
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, nullptr); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return condWait(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t)
{
    return condWait(c, m, t);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!g || !g->inRun)
        return 0;
    schedPoint();
    int w[MAXF], n = 0;
    for (int i = 0; i < g->nf; ++i)
        if ((g->f[i].st == F_BLOCK || g->f[i].st == F_SLEEP) && g->f[i].obj == (u64)c)
            w[n++] = i;
    if (n)
    {
        int k = g->o.det ? 0 : choice(n, K_SCHED, true);
        Fiber& f = g->f[w[k]];
        f.st = F_RUN;
        f.obj = 0;
        f.timedout = false;
    }
    hardWrite();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!g || !g->inRun)
        return 0;
    schedPoint();
    wakeAll((u64)c);
    hardWrite();
    return 0;
}
// semaphores (value kept in the sync table)
int sem_init(sem_t* s, int, unsigned v)
{
    memset(s, 0, sizeof *s);
    if (!g || !g->inRun)
        return 0;
    if (v > 0x7fffffffu)
    {
        errno = EINVAL;
        return -1;
    }
    Sync* y = syncObj((u64)s, 2);
    u32 st = y->stamp;
    memset(y, 0, sizeof *y);
    y->addr = (u64)s;
    y->stamp = st;
    y->type = 2;
    y->first = 0xff;
    y->owner = -1;
    y->count = (int)v;
    return 0;
}
int sem_destroy(sem_t* s)
{
    if (!g || !g->inRun)
        return 0;
    Sync* y = syncObj((u64)s, 2);
    for (int i = 0; i < g->nf; ++i)
        if ((g->f[i].st == F_BLOCK || g->f[i].st == F_SLEEP) && g->f[i].obj == (u64)s)
            vfail("sem-destroy", "semaphore destroyed while fiber %d waits on it", i);
    y->destroyed = 1;
    return 0;
}
static Sync* semPre(sem_t* s, const char* op, void* pc)
{
    Sync* y = syncObj((u64)s, 2);
    if (y->destroyed)
        vfail("destroyed-sem", "%s on a destroyed semaphore", op);
    stepCount();
    if (touch((u64)s ^ 2, y->first, y->multi, nullptr, true))
        schedPoint();
    if (g->replay)
        tlog("%s %p (value %d) pc %p", op, (void*)s, y->count, pc);
    return y;
}
int sem_post(sem_t* s)
{
    if (!g || !g->inRun)
        return 0;
    Sync* y = semPre(s, "sem_post", PC);
    if (y->count == 0x7fffffff)
    {
        errno = EOVERFLOW;
        return -1;
    }
    y->count++;
    vjoin(y->rel, g->f[g->cur].vc);
    g->f[g->cur].vc.c[g->cur]++;
    hardWrite();
    wakeAll((u64)s);
    return 0;
}
static int semWait(sem_t* s, bool tryOnly, const timespec* abs, void* pc)
{
    if (!g || !g->inRun)
        return 0;
    Sync* y = semPre(s, tryOnly ? "sem_trywait" : "sem_wait", pc);
    while (y->count == 0)
    {
        if (tryOnly)
        {
            errno = EAGAIN;
            return -1;
        }
        if (abs)
        {
            if (blockOnUntil((u64)s, abs->tv_sec * 1000000000ULL + abs->tv_nsec))
            {
                errno = ETIMEDOUT;
                return -1;
            }
        }
        else
            blockOn((u64)s);
    }
    y->count--;
    vjoin(g->f[g->cur].vc, y->rel);
    hardWrite();
    return 0;
}
int sem_wait(sem_t* s) { return semWait(s, false, nullptr, PC); }
int sem_trywait(sem_t* s) { return semWait(s, true, nullptr, PC); }
int sem_timedwait(sem_t* s, const timespec* t) { return semWait(s, false, t, PC); }
int sem_clockwait(sem_t* s, clockid_t, const timespec* t) { return semWait(s, false, t, PC); }
int sem_getvalue(sem_t* s, int* v)
{
    *v = syncObj((u64)s, 2)->count;
    return 0;
}
int sched_yield()
{
    if (g && g->inRun)
    {
        tlog("yield");
        doYield();
    }
    return 0;
}
static int sleepUntil(u64 d)
{
    if (!g || !g->inRun)
        return 0;
    tlog("sleep");
    if (g->atomicDepth)
    {
        if (d > g->clock)
            g->clock = d;
        return 0;
    }
    maybeCrash();
    stepCount();
    blockOnUntil(0, d > g->clock ? d : g->clock + 1);
    return 0;
}
int nanosleep(const timespec* r, timespec*) { return sleepUntil(g->clock + r->tv_sec * 1000000000ULL + r->tv_nsec); }
int clock_nanosleep(clockid_t, int flags, const timespec* r, timespec*)
{
    u64 t = r->tv_sec * 1000000000ULL + r->tv_nsec;
    return sleepUntil(flags & TIMER_ABSTIME ? t : g->clock + t);
}
int usleep(useconds_t us) { return sleepUntil(g->clock + us * 1000ULL); }
unsigned sleep(unsigned s)
{
    sleepUntil(g->clock + s * 1000000000ULL);
    return 0;
}
int clock_gettime(clockid_t c, timespec* t)
{
    if (!g || !g->inRun)
        return (int)syscall(SYS_clock_gettime, c, t);
    g->clock += 100;
    t->tv_sec = g->clock / 1000000000ULL;
    t->tv_nsec = g->clock % 1000000000ULL;
    return 0;
}
time_t time(time_t* t)
{
    time_t v = g ? g->clock / 1000000000ULL : 0;
    if (t)
        *t = v;
    return v;
}
// static-local guards (libstdc++'s are invisible to us)
int __cxa_guard_acquire(u64* gu)
{
    if (*(u8*)gu)
    {
        if (g && g->inRun && g->nf > 1)
            vjoin(g->f[g->cur].vc, syncObj((u64)gu, 4)->rel);
        return 0;
    }
    if (g && g->inRun)
    {
        Sync* s = syncObj((u64)gu, 4);
        while (s->owner != -1)
        {
            blockOn((u64)gu);
            if (*(u8*)gu)
            {
                vjoin(g->f[g->cur].vc, s->rel);
                return 0;
            }
        }
        s->owner = g->cur;
    }
    return 1;
}
void __cxa_guard_release(u64* gu)
{
    *(u8*)gu = 1;
    if (g && g->inRun)
    {
        Sync* s = syncObj((u64)gu, 4);
        s->owner = -1;
        s->rel = g->f[g->cur].vc;
        g->f[g->cur].vc.c[g->cur]++;
        // the inline fast path is an acquire load of the guard byte
        Loc* l = loc((u64)gu);
        vjoin(l->rel, s->rel);
        wakeAll((u64)gu);
    }
}
void __cxa_guard_abort(u64* gu)
{
    if (g && g->inRun)
    {
        syncObj((u64)gu, 4)->owner = -1;
        wakeAll((u64)gu);
    }
}
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int atexit(void (*)(void)) { return 0; }
void abort()
{
    if (g && g->inRun)
        vfail("abort", "the code under test called abort()");
    signal(SIGABRT, SIG_DFL);
    kill(getpid(), SIGABRT);
    _exit(134);
}
} // extern C

void* operator new(size_t n) { return arenaAlloc(n, 16); }
void* operator new[](size_t n) { return arenaAlloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return arenaAlloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return arenaAlloc(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return arenaAlloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return arenaAlloc(n, 16); }
static void arenaFree(void* p)
{
    if (!p || !g)
        return;
    u64 a = (u64)p;
    if (a - ARENA >= ARENA_SZ)
        return;
    // never reused inside one execution; the content is destroyed so that stale use is visible
    u64 n = *(u64*)(a - 8);
    if (n <= ARENA_SZ && a + n <= g->arenaTop)
    {
        plain(a, n ? n : 1, true, PC);
        memset(p, 0xDD, n);
    }
}
void operator delete(void* p) noexcept { arenaFree(p); }
void operator delete[](void* p) noexcept { arenaFree(p); }
void operator delete(void* p, size_t) noexcept { arenaFree(p); }
void operator delete[](void* p, size_t) noexcept { arenaFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { arenaFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { arenaFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { arenaFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { arenaFree(p); }

// ---------- public API ----------
namespace mc
{
Scenario::Scenario(const char* n, Opts q, Opts t, void (*b)()) noexcept
    : name(n), quick(q), thorough(t), body(b), next(nullptr)
{
    Scenario** p = &scns;
    while (*p)
        p = &(*p)->next;
    *p = this;
}
bool thorough() noexcept { return g->thorough; }
int choose(int n) noexcept
{
    int c = choice(n, K_CHOOSE, true);
    if (g->replay)
        tlog("choose %d of %d", c, n);
    return c;
}
int choose_fault(int n) noexcept
{
    int c = choice(n, K_FAULT, false);
    if (g->replay && c)
        tlog("fault %d of %d", c, n);
    return c;
}
void fail(const char* sig, const char* fmt, ...) noexcept
{
    va_list ap;
    va_start(ap, fmt);
    vfailv(sig, fmt, ap);
}
void prune() noexcept { endRun(2); }
void log(const char* fmt, ...) noexcept
{
    if (!g->replay)
        return;
    FILE* f = g->trace ? g->trace : stderr;
    va_list ap;
    va_start(ap, fmt);
    fprintf(f, "  [%d] # ", g->cur);
    vfprintf(f, fmt, ap);
    fputc('\n', f);
    va_end(ap);
}
bool replaying() noexcept { return g->replay; }
void outcome(uint64_t h) noexcept
{
    h = hash64(h + 1) | 1;
    u32 i = h & 0xffff;
    if (g->sh->nOut.load(std::memory_order_relaxed) > 50000)
        return;
    for (;;)
    {
        u64 v = g->sh->outs[i].load(std::memory_order_relaxed);
        if (v == h)
            return;
        if (!v)
        {
            u64 e = 0;
            if (g->sh->outs[i].compare_exchange_strong(e, h))
            {
                g->sh->nOut++;
                return;
            }
            if (e == h)
                return;
        }
        i = (i + 1) & 0xffff;
    }
}
bool transition() noexcept
{
    if ((++g->transitions & 0xfff) == 0)
    {
        g->sh->w[g->worker].hb.store(realNs());
        int st = g->sh->stop.load(std::memory_order_relaxed);
        if (st)
            return false;
    }
    return true;
}
void incomplete() noexcept
{
    g->sh->capped.store(1);
}
bool state(uint64_t h) noexcept
{
    h = hash64(h + 77) | 1;
    u64 i = h & (STATEN - 1);
    for (int k = 0; k < 64; ++k)
    {
        u64 v = g->states[i].load(std::memory_order_relaxed);
        if (v == h)
            return false;
        if (!v)
        {
            u64 e = 0;
            if (g->states[i].compare_exchange_strong(e, h))
            {
                g->sh->nStates++;
                return true;
            }
            if (e == h)
                return false;
        }
        i = (i + 1) & (STATEN - 1);
    }
    return true; // table full: treat as new (no pruning, only cost)
}
int spawn(std::function<void()> f) noexcept
{
    auto* p = new std::function<void()>(static_cast<std::function<void()>&&>(f));
    return newFiber(nullptr, nullptr, p);
}
void join(int fid) noexcept { joinFiber(fid); }
void joinAll() noexcept
{
    for (int i = 1; i < g->nf; ++i)
        joinFiber(i);
}
int self() noexcept { return g->cur; }
void quiesce() noexcept
{
    Fiber& f = g->f[g->cur];
    f.st = F_QUIESCE;
    g->quiesceRounds = 0;
    reschedule();
    // everything the others did so far is considered observed by the harness
    for (int i = 0; i < g->nf; ++i)
        vjoin(f.vc, g->f[i].vc);
    for (int i = 0; i < g->nf; ++i)
        if (i != g->cur)
            g->f[i].vc.c[i]++;
}
bool done(int fid) noexcept { return g->f[fid].st == F_DONE; }
bool blocked(int fid) noexcept { return g->f[fid].st == F_BLOCK || (g->f[fid].st == F_SLEEP && g->f[fid].obj); }
bool crashed(int fid) noexcept
{
    if (g->f[fid].st != F_DEAD)
        return false;
    vjoin(g->f[g->cur].vc, g->f[fid].vc);
    return true;
}
void yield() noexcept { doYield(); }
void point() noexcept
{
    stepCount();
    schedPoint();
}
Atomic::Atomic() noexcept { g->atomicDepth++; }
Atomic::~Atomic() noexcept { g->atomicDepth--; }
static void addR(Range* r, int& n, const volatile void* p, size_t s)
{
    if (n >= 64)
        vfail("harness", "too many ranges");
    r[n++] = Range{(u64)p, (u64)p + s};
}
void promote(const volatile void* p, size_t n) noexcept { addR(g->prom, g->nprom, p, n); }
void ignore(const volatile void* p, size_t n) noexcept { addR(g->ign, g->nign, p, n); }
void crashable(const volatile void* p, size_t n) noexcept { addR(g->crs, g->ncrs, p, n); }
void name(const volatile void* p, size_t n, const char* what) noexcept
{
    g->nameStr[g->nnames] = what;
    addR(g->names, g->nnames, p, n);
}
void mortal(int fid) noexcept { g->f[fid].mortal = true; }
void immortal(int fid) noexcept { g->f[fid].mortal = false; }
void kill(int fid) noexcept
{
    Fiber& f = g->f[fid];
    if (f.st == F_DONE || f.st == F_DEAD)
        return;
    f.st = F_DEAD;
    f.mortal = false;
    g->live--;
    g->writes++;
    for (int i = 0; i < g->nf; ++i)
        if (g->f[i].st == F_BLOCK && g->f[i].obj == (u64)&f)
        {
            g->f[i].st = F_RUN;
            vjoin(g->f[i].vc, f.vc);
        }
    if (fid == g->cur)
    {
        reschedule();
        abort();
    }
}
int fibers() noexcept { return g->nf; }
void context(const char* what) noexcept { g->f[g->cur].ctx = what; }
uint64_t now_ns() noexcept { return g->clock; }
void threadLocals() noexcept
{
    if (g->nf != 1)
        vfail("harness", "threadLocals() after the first fiber");
    g->perFiberTls = g->tlsN != 0;
}
void advance(uint64_t ns) noexcept { g->clock += ns; }
uint64_t steps() noexcept { return g->steps; }
void* raw(size_t n, size_t al) noexcept { return arenaAlloc(n, al); }
} // namespace mc

// ---------- engine ----------
namespace
{
extern "C" void mc_at_start() __attribute__((weak));

int findTls(dl_phdr_info* i, size_t, void*)
{
    // the first object is the executable; its TLS block ends at the thread pointer
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS)
        {
            u64 al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1;
            u64 n = (i->dlpi_phdr[k].p_memsz + al - 1) & ~(al - 1);
            g->tls = (char*)__builtin_thread_pointer() - n;
            g->tlsN = n;
        }
    return 1;
}
void takeSnapshot()
{
    dl_iterate_phdr(findTls, nullptr);
    if (g->tlsN)
    {
        g->snapTls = (char*)mmap(nullptr, g->tlsN + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memcpy(g->snapTls, g->tls, g->tlsN);
        g->fiberTls = (char*)mmap(nullptr, g->tlsN * MAXF + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    g->arenaBase0 = g->arenaTop;
    u64 n = g->gB - g->gA;
    g->snap = (char*)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    u64 m = g->arenaTop - ARENA;
    g->snapArena = (char*)mmap(nullptr, m + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g->snapped = true;
    memcpy(g->snapArena, (void*)ARENA, m);
    memcpy(g->snap, (void*)g->gA, n);
}
void restoreSnapshot()
{
    memcpy((void*)g->gA, g->snap, g->gB - g->gA);
    memcpy((void*)ARENA, g->snapArena, g->arenaBase0 - ARENA);
    if (g->arenaHigh > g->arenaBase0)
        memset((void*)g->arenaBase0, 0, g->arenaHigh - g->arenaBase0);
    if (g->tlsN)
        memcpy(g->tls, g->snapTls, g->tlsN);
    g->arenaTop = g->arenaHigh = g->arenaBase0;
}

void bodyTramp()
{
    g->scn->body();
}

// run one execution with g->prefix[0..plen)
void runOnce()
{
    restoreSnapshot();
    if (++g->stamp == 0)
        g->stamp = 1;
    memset(g->f, 0, sizeof g->f);
    g->nf = 1;
    g->cur = 0;
    g->live = 1;
    g->nch = 0;
    g->nprom = g->nign = g->ncrs = g->nnames = 0;
    memset(g->used, 0, sizeof g->used);
    g->steps = g->consec = g->idleRounds = 0;
    g->transitions = 0;
    g->writes = 1;
    g->idleWrites = 0;
    for (auto& p : g->poll)
    {
        p.iter = p.poller = p.dirty = false;
        p.nPrev = p.nCur = p.nUndo = p.cur = 0;
    }
    g->clock = 1000000ULL * 1000000000ULL;
    g->atomicDepth = 0;
    g->perFiberTls = false;
    g->traceHash = 0;
    g->result = -1;
    g->msg[0] = g->sig[0] = 0;
    Fiber& f = g->f[0];
    f.st = F_RUN;
    f.vc.c[0] = 1;
    f.fn = [](void*) -> void* {
        bodyTramp();
        return nullptr;
    };
    prepStack(0);
    Shared::W& w = g->sh->w[g->worker];
    w.len.store(0, std::memory_order_relaxed);
    w.hb.store(realNs(), std::memory_order_relaxed);
    w.ex.fetch_add(1, std::memory_order_relaxed);
    g->inRun = true;
    mc_switch(&g->engineSp, f.sp);
    g->inRun = false;
    w.hb.store(0, std::memory_order_relaxed);
}

void lockQ()
{
    while (g->sh->lock.exchange(1, std::memory_order_acquire))
        syscall(SYS_sched_yield);
}
void unlockQ()
{
    g->sh->lock.store(0, std::memory_order_release);
}
bool popQ()
{
    bool ok = false;
    lockQ();
    int n = g->sh->qn.load();
    if (n > 0)
    {
        QItem& q = g->sh->q[n - 1];
        memcpy(g->prefix, q.ch, q.len * 2);
        g->plen = (int)q.len;
        g->sh->qn.store(n - 1);
        ok = true;
    }
    unlockQ();
    return ok;
}
int nWorkers = 8;
void reportViolation()
{
    lockQ();
    if (!g->sh->viol.load())
    {
        g->sh->viol.store(1);
        snprintf(g->sh->msg, sizeof g->sh->msg, "%s", g->msg);
        snprintf(g->sh->sig, sizeof g->sh->sig, "%s", g->sig);
        g->sh->vlen = (u32)g->nch;
        for (int i = 0; i < g->nch; ++i)
            g->sh->vch[i] = g->ch[i].c;
        g->sh->stop.store(1);
    }
    unlockQ();
}
bool isKnown(const char* sig, const char* msg)
{
    for (int i = 0; i < g->sh->nKnown; ++i)
    {
        const char* k = g->sh->known[i];
        // "sig@scenario|substring of message"
        const char* bar = strchr(k, '|');
        size_t l = bar ? (size_t)(bar - k) : strlen(k);
        char key[256];
        snprintf(key, sizeof key, "%s@%s", sig, g->scn ? g->scn->name : "");
        if (strlen(key) == l && !strncmp(key, k, l) && (!bar || strstr(msg, bar + 1)))
        {
            g->sh->knownCnt[i]++;
            return true;
        }
    }
    return false;
}
} // namespace
namespace mc
{
void finding(const char* sig, const char* fmt, ...) noexcept
{
    char m[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(m, sizeof m, fmt, ap);
    va_end(ap);
    if (replaying())
        return log("finding %s: %s", sig, m);
    if (!isKnown(sig, m))
        fail(sig, "%s", m);
}
} // namespace mc
namespace
{
// write out one execution: its non-default choices
void sample()
{
    lockQ();
    char* b = g->sh->sample;
    size_t n = 0, cap = sizeof g->sh->sample;
    n += snprintf(b, cap, "%d choices; non-default:", g->nch);
    for (int i = 0; i < g->nch && n < cap - 40; ++i)
        if (g->ch[i].c)
            n += snprintf(b + n, cap - n, " #%d %s %d/%d", i, kindName[g->ch[i].kind], g->ch[i].c, g->ch[i].n);
    snprintf(b + n, cap - n, "; result %s", g->result == 0 ? "ok" : g->result == 2 ? "pruned" : g->sig);
    unlockQ();
}
// explore the subtree below g->prefix (DFS)
void exploreUnit()
{
    int base = g->plen;
    Shared* s = g->sh;
    for (;;)
    {
        if (s->stop.load(std::memory_order_relaxed) || s->restart.load(std::memory_order_relaxed))
            return;
        runOnce();
        s->execs.fetch_add(1, std::memory_order_relaxed);
        s->steps.fetch_add(g->steps, std::memory_order_relaxed);
        s->transitions.fetch_add(g->transitions + 1, std::memory_order_relaxed);
        s->points.fetch_add((u64)g->nch, std::memory_order_relaxed);
        if (g->nch >= g->plen)
            s->nodes.fetch_add((u64)(g->nch - g->plen) + 1, std::memory_order_relaxed);
        if (((++g->myExecs) & (g->myExecs - 1)) == 0)
            sample();
        for (int i = 0; i < g->nch; ++i)
            if (g->ch[i].c)
                s->nonzero[g->ch[i].kind].fetch_add(1, std::memory_order_relaxed);
        u64 ml = s->maxlen.load(std::memory_order_relaxed);
        if ((u64)g->nch > ml)
            s->maxlen.store(g->nch, std::memory_order_relaxed);
        if (s->restart.load(std::memory_order_relaxed))
            return; // a new shared location appeared: the round is repeated with it
        if (g->result == 2)
            s->pruned.fetch_add(1, std::memory_order_relaxed);
        if (g->result == 3)
        {
            fprintf(stderr, "mc: %s\n", g->msg);
            s->stop.store(2);
            return;
        }
        if (g->result == 1 && !isKnown(g->sig, g->msg))
        {
            reportViolation();
            return;
        }
        if (g->nch < g->plen && g->result != 1)
        {
            fprintf(stderr, "mc: execution ended inside the replayed prefix (%d < %d)\n", g->nch, g->plen);
            s->stop.store(2);
            return;
        }
        // cost already spent up to each position
        int used[K_N];
        memset(used, 0, sizeof used);
        for (int i = 0; i < g->nch; ++i)
            if (g->ch[i].c && !g->ch[i].free)
                used[g->ch[i].kind]++;
        // donate work: the shallowest open alternative
        if (nWorkers > 1 && s->qn.load(std::memory_order_relaxed) < 8)
        {
            for (int i = base; i < g->nch; ++i)
            {
                Choice& x = g->ch[i];
                if (x.c + 1 < x.n)
                {
                    lockQ();
                    int n = s->qn.load();
                    // all remaining alternatives at this depth, if they fit
                    int rem = x.n - x.c - 1;
                    if (n + rem <= QN)
                    {
                        for (int k = x.n - 1; k > x.c; --k)
                        {
                            QItem& q = s->q[n++];
                            for (int j = 0; j < i; ++j)
                                q.ch[j] = g->ch[j].c;
                            q.ch[i] = (u16)k;
                            q.len = (u32)i + 1;
                        }
                        s->qn.store(n);
                        base = i + 1;
                    }
                    unlockQ();
                    break;
                }
            }
        }
        // backtrack
        int i = g->nch - 1;
        for (; i >= base; --i)
            if (g->ch[i].c + 1 < g->ch[i].n)
                break;
        if (i < base)
            return;
        for (int j = 0; j < i; ++j)
            g->prefix[j] = g->ch[j].c;
        g->prefix[i] = (u16)(g->ch[i].c + 1);
        g->plen = i + 1;
    }
}

void onCrash(int sig, siginfo_t* si, void*)
{
    if (g && g->inRun)
    {
        g->inRun = false;
        snprintf(g->sig, sizeof g->sig, "signal");
        snprintf(g->msg, sizeof g->msg, "signal %d (%s) at address %p in the code under test", sig, strsignal(sig), si->si_addr);
        if (g->replay)
        {
            fprintf(g->trace ? g->trace : stderr, "  !! [%d] %s\n", g->cur, g->msg);
            printf("REPLAY sig=%s msg=%s\n", g->sig, g->msg);
            fflush(nullptr);
            _exit(1);
        }
        reportViolation();
        _exit(42);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}
void installHandlers()
{
    static char* alt = (char*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t st{};
    st.ss_sp = alt;
    st.ss_size = 1 << 16;
    sigaltstack(&st, nullptr);
    struct sigaction sa
    {
    };
    sa.sa_sigaction = onCrash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP})
        sigaction(s, &sa, nullptr);
}
void workerLoop()
{
    Shared* s = g->sh;
    bool idle = false;
    for (;;)
    {
        if (s->stop.load() || s->restart.load())
            _exit(0);
        if (idle)
            s->idle.fetch_sub(1);
        bool got = popQ();
        if (!got)
        {
            s->idle.fetch_add(1);
            idle = true;
            if (s->idle.load() == nWorkers && s->qn.load() == 0)
                _exit(0);
            timespec t{0, 200000};
            syscall(SYS_nanosleep, &t, nullptr);
            continue;
        }
        idle = false;
        exploreUnit();
    }
}

void setBounds(const mc::Opts& o, int pre)
{
    g->o = o;
    g->bound[K_CHOOSE] = 1 << 30;
    g->bound[K_SCHED] = pre;
    g->bound[K_FAULT] = o.fault;
    g->bound[K_CRASH] = o.crash;
    g->bound[K_SPUR] = o.spurious;
    g->bound[K_STALE] = o.stale;
    g->bound[K_TIME] = o.timejump;
}

struct RoundRes
{
    bool completed;
    bool violation;
    bool error;
};
RoundRes runRound(const mc::Opts& o, int pre, u64 deadline)
{
    Shared* s = g->sh;
    setBounds(o, pre);
    for (;;)
    {
        s->qn.store(0);
        s->idle.store(0);
        s->stop.store(0);
        s->capped.store(0);
        s->restart.store(0);
        s->execs.store(0);
        s->steps.store(0);
        s->points.store(0);
        s->nodes.store(0);
        s->sample[0] = 0;
        s->pruned.store(0);
        s->transitions.store(0);
        s->maxlen.store(0);
        for (auto& x : s->knownCnt)
            x.store(0);
        for (auto& x : s->nonzero)
            x.store(0);
        if (s->nOut.load())
        {
            for (auto& x : s->outs)
                x.store(0);
            s->nOut.store(0);
        }
        if (s->nStates.load())
        {
            madvise(g->states, STATEN * 8, MADV_REMOVE);
            memset((void*)g->states, 0, STATEN * 8);
            s->nStates.store(0);
        }
        loadConf();
        s->q[0].len = 0;
        s->qn.store(1);
        pid_t pid[MAXW];
        for (int i = 0; i < nWorkers; ++i)
        {
            s->w[i].hb.store(0);
            s->w[i].len.store(0);
        }
        fflush(nullptr);
        for (int i = 0; i < nWorkers; ++i)
        {
            pid[i] = fork();
            if (pid[i] == 0)
            {
                g->worker = i;
                installHandlers();
                workerLoop();
                _exit(0);
            }
        }
        int alive = nWorkers;
        bool hang = false, err = false, cap = false;
        while (alive > 0)
        {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0)
            {
                for (int i = 0; i < nWorkers; ++i)
                    if (pid[i] == p)
                    {
                        pid[i] = 0;
                        --alive;
                        if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 42)) && !hang && !cap)
                        {
                            fprintf(stderr, "mc: worker %d ended with status %x\n", i, st);
                            err = true;
                            s->stop.store(2);
                        }
                    }
                continue;
            }
            u64 now = realNs();
            for (int i = 0; i < nWorkers && !hang; ++i)
            {
                u64 hb = s->w[i].hb.load();
                if (pid[i] && hb && now > hb + 20000000000ULL && !s->viol.load())
                {
                    // hang inside one execution: take its choices
                    lockQ();
                    s->viol.store(1);
                    snprintf(s->msg, sizeof s->msg, "one execution does not terminate (no visible step for 20 s)");
                    snprintf(s->sig, sizeof s->sig, "hang");
                    s->vlen = s->w[i].len.load();
                    memcpy(s->vch, s->w[i].ch, s->vlen * 2);
                    s->stop.store(1);
                    unlockQ();
                    hang = true;
                }
            }
            if (hang)
                for (int i = 0; i < nWorkers; ++i)
                    if (pid[i])
                        kill(pid[i], SIGKILL);
            if (now > deadline && !s->stop.load())
            {
                cap = true;
                s->stop.store(3);
            }
            timespec t{0, 1000000};
            syscall(SYS_nanosleep, &t, nullptr);
        }
        int stop = s->stop.load();
        s->lock.store(0);
        RoundRes r{};
        r.violation = s->viol.load() != 0;
        r.error = !r.violation && (err || stop == 2);
        if (r.violation || r.error)
            return r;
        if (stop == 3)
        {
            r.completed = false;
            return r;
        }
        if (s->restart.load())
            continue;
        r.completed = !s->capped.load();
        return r;
    }
}

void jsonStr(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s)
    {
        if (*s == '"' || *s == '\\')
            fprintf(f, "\\%c", *s);
        else if ((unsigned char)*s < 32)
            fprintf(f, "\\u%04x", *s);
        else
            fputc(*s, f);
    }
    fputc('"', f);
}
} // namespace

// usage: prog list
//        prog explore <quick|thorough> <out.json> [-s scenario] [-k knownsig]... [-p preempt] [-j workers] [-v viol.replay]
//        prog replay <quick|thorough> <replayfile> [tracefile]
int main(int argc, char** argv)
{
    rtInit();
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc < 2)
        return 2;
    if (!strcmp(argv[1], "list"))
    {
        for (auto* s = scns; s; s = s->next)
            printf("%s\n", s->name);
        return 0;
    }
    if (mc_at_start)
        mc_at_start();
    bool thor = !strcmp(argv[2], "thorough");
    g->thorough = thor;
    if (!strcmp(argv[1], "replay"))
    {
        FILE* f = fopen(argv[3], "r");
        if (!f)
            return 2;
        char line[256], name[128] = "";
        int pre = 0;
        int n = 0;
        int bounds[K_N] = {};
        while (fgets(line, sizeof line, f))
        {
            if (line[0] == '#')
                continue;
            int v;
            if (sscanf(line, "scenario %127s", name) == 1)
                continue;
            if (sscanf(line, "tier %d", &v) == 1)
            {
                g->thorough = v;
                continue;
            }
            if (sscanf(line, "bounds %d %d %d %d %d %d", &pre, bounds + 2, bounds + 3, bounds + 4, bounds + 5, bounds + 6) == 6)
                continue;
            unsigned long long k = 0;
            if (sscanf(line, "conf %llx", &k) == 1)
            {
                addConfShared(k);
                continue;
            }
            if (sscanf(line, "c %d", &v) == 1 && n < MAXCH)
                g->prefix[n++] = (u16)v;
        }
        fclose(f);
        g->stamp = 1;
        g->plen = n;
        for (auto* s = scns; s; s = s->next)
            if (!strcmp(s->name, name))
                g->scn = s;
        if (!g->scn)
            return 2;
        setBounds(g->thorough ? g->scn->thorough : g->scn->quick, pre);
        for (int i = 2; i < K_N; ++i)
            g->bound[i] = bounds[i];
        loadConf();
        g->replay = true;
        g->trace = argc > 4 ? fopen(argv[4], "w") : nullptr;
        takeSnapshot();
        installHandlers();
        runOnce();
        if (g->trace)
            fflush(g->trace);
        if (g->result == 1)
        {
            printf("REPLAY sig=%s msg=%s\n", g->sig, g->msg);
            _exit(1);
        }
        printf("REPLAY result=%d %s\n", g->result, g->msg);
        _exit(g->result == 0 || g->result == 2 ? 0 : 2);
    }
    const char* only = nullptr;
    const char* vfile = "violation.replay";
    int forcePre = -1;
    double capScale = 1;
    for (int i = 4; i < argc; ++i)
    {
        if (!strcmp(argv[i], "-s"))
            only = argv[++i];
        else if (!strcmp(argv[i], "-p"))
            forcePre = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-j"))
            nWorkers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-v"))
            vfile = argv[++i];
        else if (!strcmp(argv[i], "-t"))
            capScale = atof(argv[++i]);
        else if (!strcmp(argv[i], "-k"))
        {
            if (g->sh->nKnown < 32)
                snprintf(g->sh->known[g->sh->nKnown++], 256, "%s", argv[++i]);
        }
    }
    takeSnapshot();
    FILE* out = fopen(argv[3], "w");
    if (!out)
        return 2;
    fprintf(out, "{\"scenarios\":[");
    bool first = true;
    int rc = 0;
    for (auto* s = scns; s && rc == 0; s = s->next)
    {
        if (only && strcmp(only, s->name))
            continue;
        g->scn = s;
        const mc::Opts& o0 = thor ? s->thorough : s->quick;
        mc::Opts o = o0;
        if (forcePre >= 0)
            o.preempt = forcePre;
        if (o.preempt < 0)
            continue; // scenario not part of this tier
        for (auto& x : g->sh->conf)
            x.store(0);
        g->sh->nConf.store(0);
        u64 t0 = realNs();
        u64 deadline = t0 + (u64)(o.seconds * capScale * 1e9);
        int completedBound = -1;
        RoundRes r{};
        u64 ex = 0, st = 0, pts = 0, tr = 0;
        for (int pre = o.preempt > 0 ? 0 : o.preempt; pre <= o.preempt; ++pre)
        {
            if (pre > 1 && pre < o.preempt)
                continue; // 0, 1, then the full bound
            r = runRound(o, pre, deadline);
            if (r.completed)
                completedBound = pre;
            ex = g->sh->execs.load();
            st = g->sh->steps.load();
            pts = g->sh->points.load();
            tr = g->sh->transitions.load();
            if (r.violation || r.error || !r.completed)
            {
                if (r.violation)
                {
                    FILE* v = fopen(vfile, "w");
                    fprintf(v, "# %s: %s\nscenario %s\ntier %d\n", g->sh->sig, g->sh->msg, s->name, thor ? 1 : 0);
                    fprintf(v, "bounds %d %d %d %d %d %d\n", pre, o.fault, o.crash, o.spurious, o.stale, o.timejump);
                    for (u32 i = 0; i < CONFN; ++i)
                        if (g->conf[i])
                            fprintf(v, "conf %llx\n", (unsigned long long)g->conf[i]);
                    for (u32 i = 0; i < g->sh->vlen; ++i)
                        fprintf(v, "c %d\n", g->sh->vch[i]);
                    fclose(v);
                }
                break;
            }
        }
        double wall = (realNs() - t0) / 1e9;
        fprintf(out, "%s\n {\"name\":", first ? "" : ",");
        first = false;
        jsonStr(out, s->name);
        fprintf(out,
                ",\"executions\":%llu,\"steps\":%llu,\"choice_points\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"outcomes\":%u,"
                "\"states\":%u,"
                "\"shared_locations\":%u,\"max_choices\":%llu,\"preemption_bound\":%d,\"completed_bound\":%d,\"exhaustive\":%s,"
                "\"bounds\":{\"fault\":%d,\"crash\":%d,\"spurious\":%d,\"stale\":%d,\"timejump\":%d},\"wall_s\":%.2f,\"deviations\":{",
                (unsigned long long)ex,
                (unsigned long long)st,
                (unsigned long long)pts,
                (unsigned long long)tr,
                (unsigned long long)g->sh->pruned.load(),
                g->sh->nOut.load(),
                g->sh->nStates.load(),
                g->nConf,
                (unsigned long long)g->sh->maxlen.load(),
                o.preempt,
                completedBound,
                completedBound == o.preempt ? "true" : "false",
                o.fault,
                o.crash,
                o.spurious,
                o.stale,
                o.timejump,
                wall);
        for (int k = 0; k < K_N; ++k)
            fprintf(out, "%s\"%s\":%llu", k ? "," : "", kindName[k], (unsigned long long)g->sh->nonzero[k].load());
        fprintf(out, "},\"tree_nodes\":%llu,\"sample\":", (unsigned long long)g->sh->nodes.load());
        jsonStr(out, g->sh->sample);
        fprintf(out, ",\"known_hits\":{");
        bool kf = true;
        for (int k = 0; k < g->sh->nKnown; ++k)
            if (g->sh->knownCnt[k].load())
            {
                fprintf(out, "%s", kf ? "" : ",");
                kf = false;
                jsonStr(out, g->sh->known[k]);
                fprintf(out, ":%llu", (unsigned long long)g->sh->knownCnt[k].load());
            }
        fprintf(out, "}");
        printf("%-28s execs=%llu points=%llu outcomes=%u states=%u conf=%u bound=%d/%d maxch=%llu %.1fs%s\n",
               s->name,
               (unsigned long long)ex,
               (unsigned long long)pts,
               g->sh->nOut.load(),
               g->sh->nStates.load(),
               g->nConf,
               completedBound,
               o.preempt,
               (unsigned long long)g->sh->maxlen.load(),
               wall,
               completedBound == o.preempt ? "" : "  (capped)");
        if (r.violation)
        {
            printf("FOUND %s: %s: %s\n", s->name, g->sh->sig, g->sh->msg);
            fprintf(out, ",\"violation\":{\"sig\":");
            jsonStr(out, g->sh->sig);
            fprintf(out, ",\"msg\":");
            jsonStr(out, g->sh->msg);
            fprintf(out, ",\"replay\":");
            jsonStr(out, vfile);
            fprintf(out, "}");
            rc = 1;
        }
        if (r.error)
            rc = 2;
        fprintf(out, "}");
    }
    fprintf(out, "\n]}\n");
    fclose(out);
    _exit(rc);
}
