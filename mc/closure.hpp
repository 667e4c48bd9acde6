// Explicit-state exploration of sequential objects of the real code: the whole world (objects under test and the
// reference model) is one block of bytes at a fixed address; every operation is executed on every reachable state until
// no new state appears (a fixpoint, no bound on the length of the sequences) or the state limit is reached.
#pragma once
#include "ioxsup.hpp"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <setjmp.h>
#include <sys/mman.h>

namespace cl
{
using u32 = uint32_t;
using u64 = uint64_t;

// ---- elements with a tracked lifetime -------------------------------------------------------------------------------
constexpr u32 ALIVE = 0xA11FE000u, MOVED = 0xEEEE;
inline int64_t live = 0; // constructed minus destroyed
[[noreturn]] void failPath(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CL_CHECK(c, sig, ...)                                                                                          \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(c))                                                                                                      \
            ::cl::failPath(sig, __VA_ARGS__);                                                                          \
    } while (0)

struct E
{
    u32 magic;
    u32 v;
    void born(u32 x)
    {
        volatile u32* m = &magic;
        CL_CHECK(*m != ALIVE, "lifetime", "an element is constructed over a living one");
        *m = ALIVE;
        volatile u32* p = &v;
        *p = x;
        ++live;
    }
    void alive(const char* what) const
    {
        CL_CHECK(*(const volatile u32*)&magic == ALIVE, "lifetime", "%s an object that is not alive", what);
    }
    E() { born(7); }
    E(u32 x) { born(x); }
    E(const E& o)
    {
        o.alive("copy from");
        born(o.v);
    }
    E(E&& o)
    {
        o.alive("move from");
        u32 x = o.v;
        o.v = MOVED;
        born(x);
    }
    E& operator=(const E& o)
    {
        o.alive("assign from");
        alive("assign to");
        v = o.v;
        return *this;
    }
    E& operator=(E&& o)
    {
        o.alive("move-assign from");
        alive("move-assign to");
        if (this != &o)
        {
            v = o.v;
            o.v = MOVED;
        }
        return *this;
    }
    ~E()
    {
        alive("destroy");
        *(volatile u32*)&magic = 0;
        *(volatile u32*)&v = 0;
        --live;
    }
    bool operator==(const E& o) const
    {
        alive("compare");
        o.alive("compare");
        return v == o.v;
    }
    bool operator!=(const E& o) const { return !(*this == o); }
    u32 get() const
    {
        alive("read");
        return v;
    }
};
// trivially copyable with constructors, and a plain one
struct TC
{
    u32 v;
    TC() : v(7) {}
    TC(u32 x) : v(x) {}
    bool operator==(const TC& o) const { return v == o.v; }
    bool operator!=(const TC& o) const { return v != o.v; }
};
inline u32 val(const E& e) { return e.get(); }
inline u32 val(const TC& e) { return e.v; }
inline u32 val(const u32& e) { return e; }
template <class T>
constexpr bool tracked() { return false; }
template <>
constexpr bool tracked<E>() { return true; }
template <class T>
constexpr u32 dflt() { return 7; }
template <>
constexpr u32 dflt<u32>() { return 0; }

// ---- operations -----------------------------------------------------------------------------------------------------
struct Cur
{
    int want;
    int at = 0;
    char desc[64];
    bool operator()(const char* name, long x = -1, long y = -1)
    {
        if (at++ != want)
            return false;
        if (x < 0)
            snprintf(desc, sizeof desc, "%s", name);
        else if (y < 0)
            snprintf(desc, sizeof desc, "%s(%ld)", name, x);
        else
            snprintf(desc, sizeof desc, "%s(%ld,%ld)", name, x, y);
        return true;
    }
};

struct Engine
{
    char* store = nullptr; // states, back to back
    u32* parent = nullptr;
    u32* viaOp = nullptr;
    u32* table = nullptr;
    u64 n = 0, cap = 0, size = 0, tsize = 0;
    u64 transitions = 0;
    u64 curState = 0;
    int curOp = -1;
    Cur* cur = nullptr;
    void (*redo)(u64 state, int op, char* desc) = nullptr;
};
inline Engine* eng = nullptr;

inline void path(char* out, size_t len)
{
    out[0] = 0;
    if (!eng)
        return;
    u32 ops[4096];
    u64 sts[4096];
    int k = 0;
    for (u64 s = eng->curState; s && k < 4096; s = eng->parent[s])
    {
        ops[k] = eng->viaOp[s];
        sts[k++] = eng->parent[s];
    }
    size_t o = 0;
    char d[64];
    char last[64];
    snprintf(last, sizeof last, "%s", eng->cur ? eng->cur->desc : "?");
    for (int i = k - 1; i >= 0; --i)
    {
        eng->redo(sts[i], (int)ops[i], d);
        o += (size_t)snprintf(out + o, o < len ? len - o : 0, "%s; ", d);
        if (o >= len)
            return;
    }
    snprintf(out + o, o < len ? len - o : 0, "%s", last);
}
inline void failPath(const char* sig, const char* fmt, ...)
{
    char m[512], p[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(m, sizeof m, fmt, ap);
    va_end(ap);
    static bool nested = false;
    if (nested)
        mc::fail(sig, "%s", m);
    nested = true;
    path(p, sizeof p);
    mc::fail(sig, "%s; after: %s", m, p);
}
// runs f and returns whether it ended in a panic of the code under test
template <class F>
bool panics(F&& f)
{
    static jmp_buf jb;
    int64_t l = live;
    auto& x = sup::panicHook();
    bool p = false;
    if (_setjmp(jb) == 0)
    {
        x = [](void*) { _longjmp(jb, 1); };
        f();
    }
    else
        p = true;
    x = [](void*) { failPath("fatal", "the code under test terminates"); };
    if (p)
        live = l;
    return p;
}

// W: trivially copyable in the sense that its bytes, put back at the same address, are the same world.
//   static void ops(W&, Cur&): executes operation number Cur::want (if any) on the objects and on the reference
//   void check(): compares
template <class W>
void closure(W* w, u64 maxStates)
{
    static W* sw;
    sw = w;
    static Engine e;
    e = Engine();
    eng = &e;
    e.size = sizeof(W);
    e.cap = maxStates + 4096;
    e.tsize = 1;
    while (e.tsize < e.cap * 2)
        e.tsize *= 2;
    auto map = [](u64 b) {
        void* p = mmap(nullptr, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
            abort();
        return p;
    };
    e.store = (char*)map(e.cap * e.size);
    e.parent = (u32*)map(e.cap * 4);
    e.viaOp = (u32*)map(e.cap * 4);
    e.table = (u32*)map(e.tsize * 4);
    e.redo = [](u64 s, int op, char* d) {
        memcpy((void*)sw, eng->store + s * eng->size, eng->size);
        Cur c{op};
        c.desc[0] = 0;
        W::ops(*sw, c);
        snprintf(d, 64, "%s", c.desc);
    };
    auto hash = [&](const char* p) {
        u64 h = 0x1234;
        u64 i = 0;
        for (; i + 8 <= e.size; i += 8)
        {
            u64 x;
            memcpy(&x, p + i, 8);
            h = mc::mix(h, x);
        }
        for (; i < e.size; ++i)
            h = mc::mix(h, (unsigned char)p[i]);
        return h;
    };
    bool full = false;
    auto add = [&](u64 parent, int op) {
        u64 h = hash((char*)w);
        u64 k = h & (e.tsize - 1);
        while (e.table[k])
        {
            if (!memcmp(e.store + (e.table[k] - 1) * e.size, (void*)w, e.size))
                return;
            k = (k + 1) & (e.tsize - 1);
        }
        if (e.n >= maxStates)
        {
            full = true;
            return;
        }
        memcpy(e.store + e.n * e.size, (void*)w, e.size);
        e.parent[e.n] = (u32)parent;
        e.viaOp[e.n] = (u32)op;
        e.table[k] = (u32)++e.n;
        mc::state(h);
    };
    sup::panicHook() = [](void*) { failPath("fatal", "the code under test terminates"); };
    w->check();
    add(0, 0);
    for (u64 s = 0; s < e.n; ++s)
    {
        e.curState = s;
        memcpy((void*)w, e.store + s * e.size, e.size);
        live = (int64_t)w->liveNow();
        Cur cnt{-1};
        e.cur = &cnt;
        snprintf(cnt.desc, sizeof cnt.desc, "counting");
        W::ops(*w, cnt);
        for (int op = 0; op < cnt.at; ++op)
        {
            memcpy((void*)w, e.store + s * e.size, e.size);
            live = (int64_t)w->liveNow();
            Cur c{op};
            c.desc[0] = 0;
            e.cur = &c;
            W::ops(*w, c);
            w->check();
            CL_CHECK(live == (int64_t)w->liveNow(), "lifetime", "%lld elements are alive, the containers hold %lld", (long long)live, (long long)w->liveNow());
            ++e.transitions;
            if (!mc::transition())
            {
                full = true;
                goto out;
            }
            add(s, op);
        }
    }
out:
    mc::outcome(mc::mix(e.n, e.transitions));
    if (full)
        mc::incomplete();
    eng = nullptr;
    munmap(e.store, e.cap * e.size);
    munmap(e.parent, e.cap * 4);
    munmap(e.viaOp, e.cap * 4);
    munmap(e.table, e.tsize * 4);
    sup::panicHook() = nullptr;
}
} // namespace cl
