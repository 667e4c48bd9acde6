// C18: addresses that cross process boundaries: relative pointers and the segment registry behind them, relocatable
// pointers, the packed pointer data; and the way memory segments are divided (bump allocator, memory providers).
#include "closure.hpp"
#include "mem.hpp"
#include "iceoryx_posh/roudi/memory/generic_memory_block.hpp"
#include "iceoryx_posh/roudi/memory/memory_block.hpp"
#include "iceoryx_posh/roudi/memory/memory_provider.hpp"
#include "iceoryx_posh/roudi/memory/roudi_memory_manager.hpp"
#include "iox/bump_allocator.hpp"
#include "iox/detail/pointer_repository.hpp"
#include "iox/detail/relative_pointer_data.hpp"
#include "iox/relative_pointer.hpp"
#include "iox/relocatable_ptr.hpp"
#include <new>

using namespace cl;
using sup::B;

namespace
{
template <class W>
W* world()
{
    static char* raw = (char*)mc::raw(1 << 17, 4096);
    memset(raw, 0, sizeof(W));
    static_assert(sizeof(W) <= (1 << 17), "");
    return reinterpret_cast<W*>(raw);
}
void hook()
{
    sup::panicHook() = [](void*) { failPath("fatal", "the code under test terminates"); };
}

// ---- the registry of segments ---------------------------------------------------------------------------------------
struct Seg
{
    u64 base, size;
};
// neighbours, a gap, one byte, a big one, not in the order of their addresses
constexpr Seg SEGS[] = {{0x4000, 0x100}, {0x4100, 0x40}, {0x1000, 1}, {0x2000, 0x1000}};
constexpr int NSEG = 4;

struct WRepo
{
    using R = iox::PointerRepository<u64, void*, 5>;
    alignas(16) char m[sizeof(R)];
    int ref[5]; // id -> segment + 1
    R& r() { return *reinterpret_cast<R*>(m); }
    u64 liveNow() const { return 0; }
    bool has(int seg) const
    {
        for (int i = 1; i < 5; ++i)
            if (ref[i] == seg + 1)
                return true;
        return false;
    }
    void check()
    {
        for (u64 id = 0; id < 8; ++id)
        {
            void* want = id < 5 && ref[id] ? (void*)SEGS[ref[id] - 1].base : nullptr;
            CL_CHECK(r().getBasePtr(id) == want, "base", "base address of segment %lu is wrong", (unsigned long)id);
        }
        for (int s = 0; s < NSEG; ++s)
            for (u64 p : {SEGS[s].base - 1, SEGS[s].base, SEGS[s].base + SEGS[s].size / 2, SEGS[s].base + SEGS[s].size - 1, SEGS[s].base + SEGS[s].size})
            {
                u64 id = r().searchId((void*)p);
                bool any = false;
                for (int i = 1; i < 5; ++i)
                    any |= ref[i] && p >= SEGS[ref[i] - 1].base && p < SEGS[ref[i] - 1].base + SEGS[ref[i] - 1].size;
                if (!any)
                    CL_CHECK(id == 0, "search", "address %#lx is in no registered segment but is attributed to segment %lu", (unsigned long)p, (unsigned long)id);
                else
                    CL_CHECK(id >= 1 && id < 5 && ref[id] && p >= SEGS[ref[id] - 1].base && p < SEGS[ref[id] - 1].base + SEGS[ref[id] - 1].size, "search",
                             "address %#lx is attributed to segment %lu which does not contain it", (unsigned long)p, (unsigned long)id);
            }
    }
    static void ops(WRepo& w, Cur& o)
    {
        R& r = w.r();
        for (int s = 0; s < NSEG; ++s)
        {
            for (u64 id = 1; id < 7; ++id)
                if (o("register with id", (long)id, s))
                {
                    bool ok = r.registerPtrWithId(id, (void*)SEGS[s].base, SEGS[s].size);
                    CL_CHECK(ok == (id < 5 && !w.ref[id]), "register", "registration with id %lu %s", (unsigned long)id, ok ? "succeeds" : "fails");
                    if (ok)
                        w.ref[id] = s + 1;
                }
            if (o("register", s))
            {
                auto x = r.registerPtr((void*)SEGS[s].base, SEGS[s].size);
                int used = 0;
                for (int i = 1; i < 5; ++i)
                    used += w.ref[i] != 0;
                CL_CHECK(x.has_value() == (used < 4), "register", "registration %s with %d of 4 ids in use", x.has_value() ? "succeeds" : "fails", used);
                if (x.has_value())
                {
                    CL_CHECK(*x >= 1 && *x < 5 && !w.ref[*x], "register", "the new segment gets id %lu which is not free", (unsigned long)*x);
                    w.ref[*x] = s + 1;
                }
            }
        }
        for (u64 id = 0; id < 7; ++id)
            if (o("unregister", (long)id))
            {
                bool ok = r.unregisterPtr(id);
                CL_CHECK(ok == (id >= 1 && id < 5 && w.ref[id]), "unregister", "unregistering id %lu %s", (unsigned long)id, ok ? "succeeds" : "fails");
                if (ok)
                    w.ref[id] = 0;
            }
        if (o("unregister all"))
        {
            r.unregisterAll();
            memset(w.ref, 0, sizeof w.ref);
        }
    }
};

// ---- relative pointers seen from processes with different mappings ---------------------------------------------------
// three segments; every process maps them somewhere else and in another order, one does not know segment 1
constexpr int NP = 4;
constexpr u64 SIZES[3] = {64, 4096, 256};
u64 BASE[NP][3]; // 0: not mapped

using RP = iox::RelativePointer<u32>;
struct WRel
{
    RP p[2];
    struct
    {
        int seg; // 0 null, 1..3 segment, 4 outside
        u64 off;
    } ref[2];
    u64 proc;
    u64 outside;
    u64 liveNow() const { return 0; }
    void enter()
    {
        RP::unregisterAll();
        for (int s = 0; s < 3; ++s)
            if (BASE[proc][s])
                CL_CHECK(RP::registerPtrWithId(iox::segment_id_t{(u64)s + 1}, (u32*)BASE[proc][s], SIZES[s]), "register", "segment %d cannot be registered", s + 1);
    }
    // 0: cannot be resolved in this process
    bool address(int i, u64* a) const
    {
        *a = 0;
        if (ref[i].seg == 0)
            return true;
        if (ref[i].seg == 4)
        {
            *a = outside + ref[i].off;
            return true;
        }
        if (!BASE[proc][ref[i].seg - 1])
            return false;
        *a = BASE[proc][ref[i].seg - 1] + ref[i].off;
        return true;
    }
    void check()
    {
        enter();
        u64 a[2];
        bool k[2];
        for (int i = 0; i < 2; ++i)
        {
            k[i] = address(i, &a[i]);
            if (!k[i])
                continue;
            const RP& c = p[i];
            CL_CHECK(c.get() == (u32*)a[i], "resolve", "pointer %d resolves to %p in process %lu instead of %p", i, (void*)c.get(), (unsigned long)proc, (void*)a[i]);
            CL_CHECK((bool)c == (a[i] != 0), "bool", "conversion to bool is wrong");
            CL_CHECK((c == (const u32*)a[i]) && ((const u32*)a[i] == c) && !(c != (const u32*)a[i]) && !((const u32*)a[i] != c), "compare", "comparison with the address is wrong");
            CL_CHECK(!(c == (const u32*)(a[i] + 4)) && (c != (const u32*)(a[i] + 4)), "compare", "comparison with another address is wrong");
            CL_CHECK((c == nullptr) == !a[i] && (nullptr == c) == !a[i] && (c != nullptr) == (a[i] != 0) && (nullptr != c) == (a[i] != 0), "compare", "comparison with nullptr is wrong");
            if (a[i])
                CL_CHECK(c.operator->() == (u32*)a[i] && &*c == (u32*)a[i], "resolve", "dereferencing is wrong");
            if (ref[i].seg >= 1 && ref[i].seg <= 3)
                CL_CHECK(c.getId() == (u64)ref[i].seg && c.getOffset() == ref[i].off && c.getBasePtr() == (u32*)BASE[proc][ref[i].seg - 1], "parts", "id or offset is wrong");
            // bytes copied to another address mean the same
            alignas(RP) char copy[sizeof(RP)];
            memcpy(copy, (const void*)&c, sizeof(RP));
            CL_CHECK(reinterpret_cast<RP*>(copy)->get() == (u32*)a[i], "resolve", "a copy of the bytes resolves to something else");
        }
    }
    static void ops(WRel& w, Cur& o)
    {
        if (o.want >= 0)
            w.enter();
        for (u64 q = 0; q < NP; ++q)
            if (o("go to process", (long)q))
                w.proc = q;
        for (int i = 0; i < 2; ++i)
        {
            for (int s = 0; s < 4; ++s)
                for (int k = 0; k < 4; ++k)
                {
                    u64 sz = s < 3 ? SIZES[s] : 64;
                    u64 off = k == 0 ? 0 : k == 1 ? 4 : k == 2 ? sz / 2 : sz - 4;
                    if (s == 3 && k > 1)
                        continue;
                    u64 base = s < 3 ? BASE[w.proc][s] : w.outside;
                    if (!base)
                        continue;
                    u32* a = (u32*)(base + off);
                    auto set = [&] {
                        w.ref[i].seg = s + 1;
                        w.ref[i].off = off;
                    };
                    if (o("assign address", i, s * 10 + k))
                    {
                        w.p[i] = a;
                        set();
                    }
                    if (o("construct from address", i, s * 10 + k))
                    {
                        w.p[i].~RP();
                        new (&w.p[i]) RP(a);
                        set();
                    }
                    if (s < 3)
                    {
                        if (o("construct from address and id", i, s * 10 + k))
                        {
                            w.p[i].~RP();
                            new (&w.p[i]) RP(a, iox::segment_id_t{(u64)s + 1});
                            set();
                        }
                        if (o("construct from offset and id", i, s * 10 + k))
                        {
                            w.p[i].~RP();
                            new (&w.p[i]) RP(off, iox::segment_id_t{(u64)s + 1});
                            set();
                        }
                        if (o("static functions", s, k))
                        {
                            iox::segment_id_t id{(u64)s + 1};
                            CL_CHECK(RP::getOffset(id, a) == off && RP::getPtr(id, off) == a && RP::searchId(a) == (u64)s + 1 && RP::getBasePtr(id) == (u32*)base, "parts", "offset, pointer or id is wrong");
                        }
                    }
                }
            if (o("assign nullptr", i))
            {
                w.p[i] = nullptr;
                w.ref[i] = {};
            }
            if (o("construct null", i))
            {
                w.p[i].~RP();
                new (&w.p[i]) RP();
                w.ref[i] = {};
            }
            if (o("construct from nullptr", i))
            {
                w.p[i].~RP();
                new (&w.p[i]) RP(nullptr);
                w.ref[i] = {};
            }
            int j = 1 - i;
            if (o("copy assign", i))
            {
                w.p[i] = w.p[j];
                w.ref[i] = w.ref[j];
            }
            if (o("copy construct", i))
            {
                w.p[i].~RP();
                new (&w.p[i]) RP(static_cast<const RP&>(w.p[j]));
                w.ref[i] = w.ref[j];
            }
            if (o("move assign", i))
            {
                w.p[i] = static_cast<RP&&>(w.p[j]);
                w.ref[i] = w.ref[j];
                w.ref[j] = {};
            }
            if (o("move construct", i))
            {
                w.p[i].~RP();
                new (&w.p[i]) RP(static_cast<RP&&>(w.p[j]));
                w.ref[i] = w.ref[j];
                w.ref[j] = {};
            }
            if (o("self assign", i))
            {
                RP& x = w.p[i];
                w.p[i] = x;
            }
            if (o("self move", i))
            {
                RP& x = w.p[i];
                w.p[i] = static_cast<RP&&>(x);
            }
            u64 a;
            if (w.address(i, &a) && !a)
                if (o("dereference null", i))
                {
                    bool p = panics([&] { (void)w.p[i].operator->(); });
                    CL_CHECK(p, "null", "dereferencing a null pointer is not detected");
                }
        }
    }
};

// ---- relocatable pointers ---------------------------------------------------------------------------------------------
struct Host
{
    iox::relocatable_ptr<Host> self;
    iox::relocatable_ptr<u32> p[2];
    u32 v[2];
};
struct WReloc
{
    alignas(16) char slot[3][sizeof(Host) + 8];
    // each host: where it lives, what its pointers refer to: 0 null, 1 + host * 2 + index; self: 0 null, 1 + host
    int at[2];
    int ref[2][2];
    int self[2];
    Host& h(int i) { return *reinterpret_cast<Host*>(slot[at[i]]); }
    u64 liveNow() const { return 0; }
    u32* target(int r) { return r ? &h((r - 1) / 2).v[(r - 1) % 2] : nullptr; }
    void check()
    {
        for (int i = 0; i < 2; ++i)
        {
            const Host& c = h(i);
            Host* s = self[i] ? &h(self[i] - 1) : nullptr;
            CL_CHECK(c.self.get() == s && h(i).self.get() == s && (const Host*)c.self == s && (Host*)h(i).self == s && c.self.operator->() == s, "resolve", "pointer to the own object is wrong");
            for (int k = 0; k < 2; ++k)
            {
                u32* a = target(ref[i][k]);
                CL_CHECK(c.p[k].get() == a && h(i).p[k].get() == a, "resolve", "relocatable pointer %d of object %d is wrong", k, i);
                CL_CHECK((const u32*)c.p[k] == a && (u32*)h(i).p[k] == a && h(i).p[k].operator->() == a, "resolve", "conversion of a relocatable pointer is wrong");
                if (a)
                    CL_CHECK(&*c.p[k] == a && &*h(i).p[k] == a, "resolve", "dereferencing a relocatable pointer is wrong");
                for (int i2 = 0; i2 < 2; ++i2)
                    for (int k2 = 0; k2 < 2; ++k2)
                        CL_CHECK((c.p[k] == h(i2).p[k2]) == (ref[i][k] == ref[i2][k2]) && (c.p[k] != h(i2).p[k2]) == (ref[i][k] != ref[i2][k2]), "compare", "comparison of relocatable pointers is wrong");
            }
        }
    }
    static void ops(WReloc& w, Cur& o)
    {
        using P = iox::relocatable_ptr<u32>;
        for (int i = 0; i < 2; ++i)
        {
            bool cross = false;
            for (int k = 0; k < 2; ++k)
                cross |= (w.ref[i][k] && (w.ref[i][k] - 1) / 2 != i) || (w.ref[1 - i][k] && (w.ref[1 - i][k] - 1) / 2 == i);
            cross |= (w.self[i] && w.self[i] != i + 1) || w.self[1 - i] == i + 1;
            if (!cross && o("relocate", i))
            {
                int free = 3 - w.at[0] - w.at[1];
                char* dst = w.slot[free];
                char* src = w.slot[w.at[i]];
                memcpy(dst, src, sizeof(Host));
                memset(src, 0, sizeof(Host));
                w.at[i] = free;
            }
            for (int s = 0; s < 3; ++s)
            {
                if (o("self =", i, s))
                {
                    w.h(i).self = s ? &w.h(s - 1) : nullptr;
                    w.self[i] = s;
                }
            }
            for (int k = 0; k < 2; ++k)
            {
                for (int r = 0; r < 5; ++r)
                {
                    if (o("assign", i * 10 + k, r))
                    {
                        w.h(i).p[k] = w.target(r);
                        w.ref[i][k] = r;
                    }
                    if (o("construct", i * 10 + k, r))
                    {
                        w.h(i).p[k].~P();
                        new (&w.h(i).p[k]) P(w.target(r));
                        w.ref[i][k] = r;
                    }
                }
                for (int i2 = 0; i2 < 2; ++i2)
                    for (int k2 = 0; k2 < 2; ++k2)
                    {
                        bool same = i == i2 && k == k2;
                        if (o("copy assign", i * 10 + k, i2 * 10 + k2))
                        {
                            const P& x = w.h(i2).p[k2];
                            w.h(i).p[k] = x;
                            w.ref[i][k] = w.ref[i2][k2];
                        }
                        if (o("move assign", i * 10 + k, i2 * 10 + k2))
                        {
                            P& x = w.h(i2).p[k2];
                            w.h(i).p[k] = static_cast<P&&>(x);
                            if (!same)
                            {
                                w.ref[i][k] = w.ref[i2][k2];
                                w.ref[i2][k2] = 0;
                            }
                        }
                        if (same)
                            continue;
                        if (o("copy construct", i * 10 + k, i2 * 10 + k2))
                        {
                            w.h(i).p[k].~P();
                            new (&w.h(i).p[k]) P(static_cast<const P&>(w.h(i2).p[k2]));
                            w.ref[i][k] = w.ref[i2][k2];
                        }
                        if (o("move construct", i * 10 + k, i2 * 10 + k2))
                        {
                            w.h(i).p[k].~P();
                            new (&w.h(i).p[k]) P(static_cast<P&&>(w.h(i2).p[k2]));
                            w.ref[i][k] = w.ref[i2][k2];
                            w.ref[i2][k2] = 0;
                        }
                    }
            }
        }
    }
};

// ---- dividing memory --------------------------------------------------------------------------------------------------
constexpr u64 LEN = 20;
int startOffset;
struct WBump
{
    alignas(16) char m[sizeof(iox::BumpAllocator)];
    u64 used; // bitmap of the bytes handed out
    u64 end;  // end of the last allocation
    u64 start;
    iox::BumpAllocator& a() { return *reinterpret_cast<iox::BumpAllocator*>(m); }
    u64 liveNow() const { return 0; }
    void check() {}
    static void ops(WBump& w, Cur& o)
    {
        const u64 M = ~(u64)0;
        const u64 sizes[] = {0, 1, 3, 8, 19, 20, 21, (u64)1 << 32, (u64)1 << 63, M - 63, M - 19, M - 15, M - 7, M - 3, M - 1, M};
        for (u64 sz : sizes)
            for (u64 al : {(u64)1, (u64)2, (u64)8, (u64)32, (u64)256})
                if (o("allocate", (long)(sz > 100 ? 1000 + (M - sz) % 1000 : sz), (long)al))
                {
                    unsigned __int128 pos = (((unsigned __int128)w.start + w.end + al - 1) / al) * al - w.start;
                    bool fits = sz != 0 && pos + sz <= LEN;
                    auto r = w.a().allocate(sz, al);
                    if (!fits)
                    {
                        CL_CHECK(r.has_error(), "overflow", "allocation of %lu bytes with alignment %lu behind %lu of %lu bytes succeeds", (unsigned long)sz, (unsigned long)al, (unsigned long)w.end, (unsigned long)LEN);
                        CL_CHECK((r.error() == iox::BumpAllocatorError::REQUESTED_ZERO_SIZED_MEMORY) == (sz == 0), "error", "wrong error");
                        continue;
                    }
                    CL_CHECK(!r.has_error(), "refused", "allocation of %lu bytes with alignment %lu behind %lu of %lu bytes fails", (unsigned long)sz, (unsigned long)al, (unsigned long)w.end, (unsigned long)LEN);
                    u64 p = (u64)r.value();
                    CL_CHECK(p % al == 0, "alignment", "allocation at %#lx, alignment %lu", (unsigned long)p, (unsigned long)al);
                    CL_CHECK(p >= w.start && p + sz <= w.start + LEN, "outside", "allocation outside of the memory");
                    u64 bits = (((u64)1 << sz) - 1) << (p - w.start);
                    CL_CHECK(!(w.used & bits), "overlap", "an allocation overlaps another one");
                    w.used |= bits;
                    w.end = p - w.start + sz;
                }
        if (o("deallocate"))
        {
            w.a().deallocate();
            w.used = 0;
            w.end = 0;
        }
    }
};

struct Block : iox::roudi::MemoryBlock
{
    u64 sz = 0, al = 1;
    void* told = nullptr;
    int tells = 0, destroyed = 0;
    uint64_t size() const noexcept override { return sz; }
    uint64_t alignment() const noexcept override { return al; }
    void onMemoryAvailable(iox::not_null<void*> m) noexcept override
    {
        told = m;
        ++tells;
    }
    void destroy() noexcept override { ++destroyed; }
};
struct Provider : iox::roudi::MemoryProvider
{
    char* raw = nullptr;
    u64 asked = 0, alignment = 0;
    int created = 0, destroyed = 0;
    bool failCreate = false, failDestroy = false;
    iox::expected<void*, iox::roudi::MemoryProviderError> createMemory(const uint64_t size, const uint64_t al) noexcept override
    {
        if (failCreate)
            return iox::err(iox::roudi::MemoryProviderError::MEMORY_CREATION_FAILED);
        ++created;
        asked = size;
        alignment = al;
        // not better aligned than requested
        u64 a = (u64)raw;
        a = (a + 4095) / 4096 * 4096 + al;
        return iox::ok((void*)a);
    }
    iox::expected<void, iox::roudi::MemoryProviderError> destroyMemory() noexcept override
    {
        if (failDestroy)
            return iox::err(iox::roudi::MemoryProviderError::MEMORY_DESTRUCTION_FAILED);
        ++destroyed;
        return iox::ok();
    }
};
using E = iox::roudi::MemoryProviderError;

void providers(int nblocks)
{
    static const u64 sizes[] = {1, 8, 24, 100};
    static const u64 aligns[] = {1, 8, 32, 128};
    Block b[4];
    Provider p;
    p.raw = (char*)mc::raw(16384, 4096);
    MC_CHECK(p.create().has_error() && !p.isAvailable() && p.created == 0, "no-blocks", "memory is created for a provider without blocks");
    MC_CHECK(!p.baseAddress().has_value() && !p.segmentId().has_value() && p.destroy().error() == E::MEMORY_NOT_AVAILABLE, "availability", "memory is available before it was created");
    for (int i = 0; i < nblocks; ++i)
    {
        int c = mc::choose(16);
        b[i].sz = sizes[c & 3];
        b[i].al = aligns[c >> 2];
        MC_CHECK(!p.addMemoryBlock(&b[i]).has_error(), "add", "a block cannot be added");
        MC_CHECK(!b[i].memory().has_value(), "availability", "a block has memory before it was created");
    }
    p.failCreate = mc::choose(2) == 1;
    if (p.failCreate)
    {
        MC_CHECK(p.create().has_error() && !p.isAvailable() && !p.baseAddress().has_value(), "availability", "memory is available after a failed creation");
        for (int i = 0; i < nblocks; ++i)
            MC_CHECK(b[i].tells == 0, "availability", "a block is told about memory which could not be created");
        p.failCreate = false;
    }
    // other segments exist in this process before and after
    auto other = iox::UntypedRelativePointer::registerPtr(p.raw + 12288, 16);
    MC_CHECK(!p.create().has_error(), "create", "memory cannot be created");
    MC_CHECK(p.create().error() == E::MEMORY_ALREADY_CREATED && p.created == 1, "twice", "memory is created twice");
    MC_CHECK(p.addMemoryBlock(&b[3]).error() == E::MEMORY_ALREADY_CREATED, "late", "a block can be added after the memory was created");
    MC_CHECK(p.isAvailable() && p.baseAddress().has_value() && p.segmentId().has_value() && p.size() == p.asked, "availability", "memory is not available after its creation");
    u64 base = (u64)*p.baseAddress();
    p.announceMemoryAvailable();
    p.announceMemoryAvailable();
    MC_CHECK(p.isAvailableAnnounced(), "announce", "memory is not announced");
    for (int i = 0; i < nblocks; ++i)
    {
        u64 m = (u64)*b[i].memory();
        MC_CHECK(b[i].tells == 1 && (u64)b[i].told == m, "announce", "a block was told %d times about its memory", b[i].tells);
        MC_CHECK(m % b[i].al == 0, "alignment", "block %d is not aligned to %lu", i, (unsigned long)b[i].al);
        MC_CHECK(m >= base && m + b[i].sz <= base + p.size(), "outside", "block %d lies outside of the segment", i);
        for (int j = 0; j < i; ++j)
        {
            u64 q = (u64)*b[j].memory();
            MC_CHECK(m >= q + b[j].sz || q >= m + b[i].sz, "overlap", "blocks %d and %d overlap", i, j);
        }
        for (u64 a : {m, m + b[i].sz - 1})
        {
            iox::UntypedRelativePointer r((void*)a);
            MC_CHECK(r.getId() == *p.segmentId() && r.getOffset() == a - base && (u64)r.get() == a, "segment", "an address in block %d is not attributed to the segment", i);
        }
    }
    if (mc::choose(2))
    {
        p.failDestroy = true;
        MC_CHECK(p.destroy().has_error(), "destroy", "a failing destruction is not reported");
        p.failDestroy = false;
    }
    int before = b[0].destroyed;
    u64 seg = *p.segmentId();
    MC_CHECK(!p.destroy().has_error() && p.destroyed == 1, "destroy", "memory cannot be destroyed");
    for (int i = 0; i < nblocks; ++i)
        MC_CHECK(b[i].destroyed == before + 1, "destroy", "block %d was not destroyed once", i);
    MC_CHECK(!p.isAvailable() && !p.baseAddress().has_value() && !p.segmentId().has_value() && p.size() == 0, "availability", "memory is available after its destruction");
    MC_CHECK(p.destroy().error() == E::MEMORY_NOT_AVAILABLE && p.destroyed == 1, "destroy", "memory is destroyed twice");
    MC_CHECK(iox::UntypedRelativePointer::getBasePtr(iox::segment_id_t{seg}) == nullptr, "segment", "the segment is still registered after its destruction");
    // a segment registered later at the same place gets its own identity
    auto later = iox::UntypedRelativePointer::registerPtr((void*)base, 64);
    MC_CHECK(later.has_value() && iox::UntypedRelativePointer((void*)(base + 1)).getId() == *later, "segment", "an address in a new segment is attributed to the destroyed one");
    iox::UntypedRelativePointer::unregisterPtr(iox::segment_id_t{*later});
    iox::UntypedRelativePointer::unregisterPtr(iox::segment_id_t{*other});
    mc::outcome(mc::mix(p.asked, p.alignment));
}

void managers()
{
    iox::roudi::RouDiMemoryManager mgr;
    MC_CHECK(mgr.createAndAnnounceMemory().has_error(), "no-provider", "memory is created without a provider");
    constexpr int N = 2;
    static Block* b;
    static Provider* p;
    b = mc::make<Block>();
    Block* b2 = mc::make<Block>();
    p = mc::make<Provider>();
    Provider* p2 = mc::make<Provider>();
    Provider* pp[N] = {p, p2};
    Block* bb[N] = {b, b2};
    int n = 1 + mc::choose(N);
    int failing = mc::choose(n + 1); // this provider (minus one) cannot create its memory
    for (int i = 0; i < n; ++i)
    {
        pp[i]->raw = (char*)mc::raw(16384, 4096);
        bb[i]->sz = 64;
        bb[i]->al = 8;
        pp[i]->failCreate = failing == i + 1;
        MC_CHECK(!pp[i]->addMemoryBlock(bb[i]).has_error() && !mgr.addMemoryProvider(pp[i]).has_error(), "add", "a provider cannot be added");
    }
    bool ok = !mgr.createAndAnnounceMemory().has_error();
    MC_CHECK(ok == (failing == 0), "create", "creation %s with %s", ok ? "succeeds" : "fails", failing ? "a failing provider" : "working providers");
    for (int i = 0; i < n; ++i)
    {
        MC_CHECK(bb[i]->tells == (ok ? 1 : 0), "announce", "block %d is told %d times about its memory", i, bb[i]->tells);
        if (ok)
            MC_CHECK(pp[i]->isAvailable() && bb[i]->told == *bb[i]->memory(), "announce", "block %d got the wrong memory", i);
    }
    int fd = mc::choose(n + 1);
    if (fd)
        pp[fd - 1]->failDestroy = true;
    bool mustFail = fd && pp[fd - 1]->isAvailable();
    bool dok = !mgr.destroyMemory().has_error();
    MC_CHECK(dok == !mustFail, "destroy", "destruction %s", dok ? "succeeds" : "fails");
    for (int i = 0; i < n; ++i)
        MC_CHECK(pp[i]->destroyed == (fd == i + 1 ? 0 : pp[i]->created), "destroy", "memory %d is not destroyed", i);
    if (fd)
        pp[fd - 1]->failDestroy = false;
    MC_CHECK(!mgr.destroyMemory().has_error(), "destroy", "remaining memory cannot be destroyed");
    for (int i = 0; i < n; ++i)
        MC_CHECK(pp[i]->destroyed == pp[i]->created, "destroy", "memory %d is destroyed %d times", i, pp[i]->destroyed);
}
} // namespace

MC_SCENARIO(registry, B(0, 60), B(0, 600))
{
    hook();
    auto* w = world<WRepo>();
    new (w->m) WRepo::R();
    closure(w, 2000000);
}
MC_SCENARIO(relative, B(0, 60), B(0, 600))
{
    hook();
    static char* area = (char*)mc::raw(1 << 16, 4096);
    // neighbours on purpose; the addresses of process 1 are those of other segments in process 0
    u64 a = (u64)area;
    u64 init[NP][3] = {{a, a + 64, a + 64 + 4096}, {a + 256 + 4096, a + 256, a}, {a + 8192 + 4096, a + 8192, a}, {0, a, a + 8192}};
    memcpy(BASE, init, sizeof init);
    auto* w = world<WRel>();
    new (&w->p[0]) RP();
    new (&w->p[1]) RP();
    w->outside = a + 32768;
    closure(w, 400000);
}
MC_SCENARIO(relocatable, B(0, 60), B(0, 600))
{
    hook();
    auto* w = world<WReloc>();
    w->at[1] = 1;
    new (w->slot[0]) Host();
    new (w->slot[1]) Host();
    closure(w, 400000);
}
MC_SCENARIO(packed, B(0, 60), B(0, 600))
{
    hook();
    using D = iox::RelativePointerData;
    D none;
    MC_CHECK(none.isLogicalNullptr(), "null", "default constructed data is not null");
    int step = mc::thorough() ? 1 : 7;
    for (int id = 0; id <= 65535; id += (id > 64 && id < 65400) ? step : 1)
    {
        if (!mc::transition())
            break;
        for (int k = 0; k < 64; ++k)
            for (int d = -1; d <= 1; ++d)
            {
                u64 off = ((u64)1 << k) + (u64)(int64_t)d;
                D x((uint16_t)id, off);
                bool valid = id != 65535 && off < ((u64)1 << 48) - 1;
                MC_CHECK(x.isLogicalNullptr() == !valid, "null", "id %d offset %#lx: null %d", id, (unsigned long)off, (int)x.isLogicalNullptr());
                if (valid)
                    MC_CHECK(x.id() == id && x.offset() == off, "packing", "id %d offset %#lx come back as %d %#lx", id, (unsigned long)off, (int)x.id(), (unsigned long)x.offset());
                x.reset();
                MC_CHECK(x.isLogicalNullptr(), "null", "data is not null after a reset");
            }
    }
}
MC_SCENARIO(bump, B(0, 60), B(0, 600))
{
    hook();
    static char* area = (char*)mc::raw(8192, 4096);
    static const int offs[] = {0, 1, 4, 8, 32, 250};
    auto* w = world<WBump>();
    w->start = (u64)area + (u64)offs[mc::choose(6)];
    new (w->m) iox::BumpAllocator((void*)w->start, LEN);
    closure(w, 2000000);
}
MC_SCENARIO(provider_1, B(0, 60), B(0, 600)) { providers(1); }
MC_SCENARIO(provider_2, B(0, 60), B(0, 600)) { providers(2); }
MC_SCENARIO(provider_3, B(0, 60), B(0, 600)) { providers(3); }
MC_SCENARIO(manager, B(0, 60), B(0, 600)) { managers(); }
