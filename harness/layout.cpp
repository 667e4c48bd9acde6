// C13: what an allocation hands out: layout of the chunk, choice of the pool, memory requirements, usage figures.
#include "mem.hpp"
#include <vector>

using namespace sup;
using namespace iox;
using namespace iox::mepoo;
using mc::choose;

namespace
{
using u64 = uint64_t;
using u128 = unsigned __int128;
constexpr u64 H = sizeof(ChunkHeader);
bool pow2(u64 v)
{
    return v && !(v & (v - 1));
}
// what any layout needs at least: header, user header, back offset (unless it coincides with the header's), payload
u128 least(u64 payload, u64 userHeader)
{
    return (u128)H + userHeader + payload;
}
void checkChunk(ChunkHeader* h, u64 chunkSize, u64 payload, u64 palign, u64 uh, u64 ualign)
{
    auto* base = reinterpret_cast<char*>(h);
    auto* p = static_cast<char*>(h->userPayload());
    MC_CHECK(h->chunkSize() == chunkSize && h->userPayloadSize() == payload && h->userHeaderSize() == uh, "layout", "the header does not say what was asked for");
    MC_CHECK(h->userPayloadAlignment() == (palign ? palign : 1), "layout", "wrong alignment in the header");
    MC_CHECK(reinterpret_cast<u64>(p) % (palign ? palign : 1) == 0, "layout", "payload is not aligned to %llu", (unsigned long long)palign);
    MC_CHECK(p >= base + H + uh, "layout", "payload overlaps the headers (user header %llu)", (unsigned long long)uh);
    MC_CHECK(p + payload <= base + chunkSize, "layout", "payload of %llu (align %llu, user header %llu) exceeds the chunk of %llu", (unsigned long long)payload,
             (unsigned long long)palign, (unsigned long long)uh, (unsigned long long)chunkSize);
    MC_CHECK(h->usedSizeOfChunk() == (u64)(p - base) + payload, "layout", "used size is wrong");
    auto* u = static_cast<char*>(h->userHeader());
    if (uh == 0)
        MC_CHECK(u == nullptr && h->userHeaderId() == ChunkHeader::NO_USER_HEADER, "layout", "a user header out of nowhere");
    else
    {
        MC_CHECK(u >= base + H && u + uh <= p, "layout", "user header outside of its space");
        MC_CHECK(reinterpret_cast<u64>(u) % (ualign ? ualign : 1) == 0, "layout", "user header is not aligned");
        MC_CHECK(h->userHeaderId() != ChunkHeader::NO_USER_HEADER, "layout", "the user header has no id");
        memset(u, 0xa5, uh);
        MC_CHECK(ChunkHeader::fromUserHeader(u) == h, "layout", "header not found from the user header");
    }
    memset(p, 0x5a, payload);
    MC_CHECK(ChunkHeader::fromUserPayload(p) == h, "layout", "header not found from the payload (align %llu, user header %llu)", (unsigned long long)palign, (unsigned long long)uh);
    const ChunkHeader* ch = h;
    MC_CHECK(ch->userPayload() == p && ch->userHeader() == u && ch->chunkSize() == chunkSize && ch->userPayloadSize() == payload && ch->userHeaderSize() == uh, "layout",
             "writing payload and user header changes the chunk header");
    MC_CHECK(ch->chunkHeaderVersion() == ChunkHeader::CHUNK_HEADER_VERSION, "layout", "wrong version");
    for (u64 i = 0; i < uh; ++i)
        MC_CHECK((unsigned char)u[i] == 0xa5, "layout", "payload overlaps the user header");
}
} // namespace

// all alignments x user headers x payload sizes x chunk positions
MC_SCENARIO(settings, B(0, 60), B(0, 600))
{
    static const uint32_t PA[] = {0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 24, 32, 64, 96, 128, 256, 1024, 4096};
    static const uint32_t UA[] = {0, 1, 2, 3, 4, 8, 12, 16, 32};
    const int nPa = sizeof PA / sizeof *PA, nUa = sizeof UA / sizeof *UA;
    uint32_t pa = PA[choose(nPa)], ua = UA[choose(nUa)];
    const uint32_t maxUh = mc::thorough() ? 136 : 72;
    uint32_t uh = (uint32_t)choose((int)maxUh + 1);
    const u64 maxPay = mc::thorough() ? 80 : 24;
    auto* mem = static_cast<char*>(mc::raw(3 * 4096 + 4096, 4096));
    uint64_t n = 0;
    for (u64 pay = 0; pay <= maxPay; ++pay)
    {
        auto s = ChunkSettings::create(pay, pa, uh, ua);
        bool p2 = (pa == 0 || pow2(pa)) && (ua == 0 || pow2(ua));
        uint32_t eua = ua ? ua : 1;
        if (!p2)
            MC_CHECK(s.has_error() && s.error() == ChunkSettings::Error::ALIGNMENT_NOT_POWER_OF_TWO, "settings", "alignment %u/%u accepted", pa, ua);
        else if (eua > alignof(ChunkHeader))
            MC_CHECK(s.has_error() && s.error() == ChunkSettings::Error::USER_HEADER_ALIGNMENT_EXCEEDS_CHUNK_HEADER_ALIGNMENT, "settings", "user header alignment %u accepted", ua);
        else if (uh % eua)
            MC_CHECK(s.has_error() && s.error() == ChunkSettings::Error::USER_HEADER_SIZE_NOT_MULTIPLE_OF_ITS_ALIGNMENT, "settings", "user header size %u accepted", uh);
        else
        {
            MC_CHECK(!s.has_error(), "settings", "valid settings refused: payload %llu align %u user header %u align %u", (unsigned long long)pay, pa, uh, ua);
            auto& c = s.value();
            MC_CHECK(c.userPayloadSize() == pay && c.userHeaderSize() == uh && c.userPayloadAlignment() == (pa ? pa : 1) && c.userHeaderAlignment() == eua, "settings",
                     "the settings changed");
            u64 need = c.requiredChunkSize();
            if (uh == 0 && pa <= alignof(ChunkHeader))
                MC_CHECK(need == H + pay, "settings", "a plain payload of %llu does not fit into a chunk for it", (unsigned long long)pay);
            // a chunk of the smallest possible size at every position a pool can produce
            u64 size = (need + 7) & ~7ULL;
            for (u64 off = 0; off < (pa > 8 ? pa : 8); off += 8)
            {
                memset(mem + off, 0xcc, size + 64);
                auto* h = new (mem + off) ChunkHeader(size, c);
                checkChunk(h, size, pay, pa, uh, ua);
                for (u64 i = size; i < size + 64; ++i)
                    MC_CHECK((unsigned char)mem[off + i] == 0xcc, "layout", "write behind the chunk");
                ++n;
            }
        }
    }
    mc::outcome(mc::mix(mc::mix(pa, ua), mc::mix(uh, n)));
}
// sizes around the representable maximum: refused, never wrapped
MC_SCENARIO(huge, B(0, 60), B(0, 600))
{
    static const uint32_t PA[] = {1, 8, 16, 4096, 1u << 20, 1u << 31};
    static const uint32_t UH[] = {0, 1, 8, 40, 1024, 1u << 20, 0x7ffffff8u};
    uint32_t pa = PA[choose(6)], uh = UH[choose(7)];
    for (u64 k = 0; k <= 4200; ++k)
        for (int base = 0; base < 4; ++base)
        {
            u64 pay = base == 0 ? ~0ULL - k : base == 1 ? (1ULL << 63) - 2100 + k : base == 2 ? (1ULL << 32) - 2100 + k : ~0ULL - (1ULL << 31) - 2100 + k;
            auto s = ChunkSettings::create(pay, pa, uh, 1);
            if (s.has_error())
            {
                MC_CHECK(s.error() == ChunkSettings::Error::REQUIRED_CHUNK_SIZE_EXCEEDS_MAX_CHUNK_SIZE, "settings", "wrong error for a huge payload");
                MC_CHECK((u128)pay + H + uh + pa + 64 > (u128)~0ULL, "settings", "payload %llu refused although it can be represented", (unsigned long long)pay);
            }
            else
                MC_CHECK((u128)s.value().requiredChunkSize() >= least(pay, uh), "settings", "payload %llu: the required size wrapped to %llu", (unsigned long long)pay,
                         (unsigned long long)s.value().requiredChunkSize());
        }
    mc::outcome(mc::mix(pa, uh));
}

namespace
{
struct Ref
{
    std::vector<PoolSpec> pools;
    uint32_t used[4] = {0, 0, 0, 0};
    uint32_t minFree[4];
};
struct Guarded
{
    MemoryManager* mgr;
    char *m, *c;
    u64 ms, cs;
    Guarded(const MePooConfig& cfg)
    {
        ms = MemoryManager::requiredManagementMemorySize(cfg);
        cs = MemoryManager::requiredChunkMemorySize(cfg);
        MC_CHECK(MemoryManager::requiredFullMemorySize(cfg) == ms + cs, "memory-size", "full size is not the sum");
        m = static_cast<char*>(mc::raw(ms + 64, 64));
        c = static_cast<char*>(mc::raw(cs + 64, 64));
        memset(m + ms, 0xcc, 64);
        memset(c + cs, 0xcc, 64);
        mgr = mc::make<MemoryManager>();
        BumpAllocator a(m, ms), b(c, cs);
        mgr->configureMemoryManager(cfg, a, b);
    }
    void intact() const
    {
        for (int i = 0; i < 64; ++i)
            MC_CHECK((unsigned char)m[ms + i] == 0xcc && (unsigned char)c[cs + i] == 0xcc, "memory-size", "write behind the pool memory");
    }
};
} // namespace
// all small configurations: the announced memory is sufficient, all chunks can be allocated, are disjoint and inside
MC_SCENARIO(configurations, B(0, 60), B(0, 600))
{
    int np = 1 + choose(3);
    MePooConfig cfg;
    Ref r;
    u64 size = 0;
    for (int i = 0; i < np; ++i)
    {
        size += 8 * (1 + (u64)choose(mc::thorough() ? 6 : 4));
        uint32_t cnt = 1 + (uint32_t)choose(mc::thorough() ? 5 : 3);
        cfg.addMemPool({size, cnt});
        r.pools.push_back({size, cnt});
    }
    Guarded g(cfg);
    MC_CHECK(g.mgr->getNumberOfMemPools() == (uint32_t)np, "pools", "number of pools");
    std::vector<SharedChunk> held;
    for (int i = 0; i < np; ++i)
    {
        auto set = ChunkSettings::create(r.pools[i].size, 8).value();
        for (uint32_t k = 0; k < r.pools[i].count; ++k)
        {
            auto c = g.mgr->getChunk(set);
            MC_CHECK(!c.has_error(), "pools", "pool %d of %d hands out only %u of %u chunks", i, np, k, r.pools[i].count);
            auto* h = c.value().getChunkHeader();
            auto* b = reinterpret_cast<char*>(h);
            MC_CHECK(h->chunkSize() == r.pools[i].size + H, "pools", "chunk of %llu from the pool of %llu", (unsigned long long)h->chunkSize(), (unsigned long long)r.pools[i].size);
            MC_CHECK(b >= g.c && b + h->chunkSize() <= g.c + g.cs, "pools", "chunk outside of the memory");
            for (auto& o : held)
            {
                auto* oh = reinterpret_cast<char*>(o.getChunkHeader());
                MC_CHECK(b + h->chunkSize() <= oh || oh + o.getChunkHeader()->chunkSize() <= b, "pools", "chunks overlap");
            }
            memset(h->userPayload(), 0x77, r.pools[i].size);
            held.push_back(c.value());
        }
        auto c = g.mgr->getChunk(set);
        MC_CHECK(c.has_error() && c.error() == MemoryManager::Error::MEMPOOL_OUT_OF_CHUNKS, "pools", "an exhausted pool does not say so");
    }
    auto big = g.mgr->getChunk(ChunkSettings::create(size + 1, 1).value());
    MC_CHECK(big.has_error() && big.error() == MemoryManager::Error::NO_MEMPOOL_FOR_REQUESTED_CHUNK_SIZE, "pools", "too large a chunk");
    g.intact();
    for (int i = 0; i < np; ++i)
    {
        auto info = g.mgr->getMemPoolInfo((uint32_t)i);
        MC_CHECK(info.m_usedChunks == r.pools[i].count && info.m_minFreeChunks == 0 && info.m_numChunks == r.pools[i].count && info.m_chunkSize == r.pools[i].size + H, "usage",
                 "usage figures");
    }
    held.clear();
    for (int i = 0; i < np; ++i)
        MC_CHECK(g.mgr->getMemPoolInfo((uint32_t)i).m_usedChunks == 0, "usage", "chunks still counted");
    g.intact();
}
// all histories of allocating and releasing
MC_SCENARIO(histories, B(0, 60), B(0, 600))
{
    const int depth = mc::thorough() ? 8 : 6;
    Ref r;
    r.pools = {{16, 2}, {40, 1}, {64, 2}};
    MePooConfig cfg;
    for (auto& p : r.pools)
        cfg.addMemPool({p.size, p.count});
    Guarded g(cfg);
    for (int i = 0; i < 3; ++i)
        r.minFree[i] = r.pools[i].count;
    std::vector<std::pair<SharedChunk, int>> held;
    static const u64 SZ[] = {0, 16, 17, 40, 41, 64, 65};
    for (int d = 0; d < depth; ++d)
    {
        int nAlloc = 7;
        int op = choose(nAlloc + (int)held.size());
        if (op < nAlloc)
        {
            u64 sz = SZ[op];
            int pool = 0;
            while (pool < 3 && r.pools[pool].size < sz)
                ++pool;
            auto c = g.mgr->getChunk(ChunkSettings::create(sz, 1).value());
            if (pool == 3)
                MC_CHECK(c.has_error() && c.error() == MemoryManager::Error::NO_MEMPOOL_FOR_REQUESTED_CHUNK_SIZE, "pools", "too large a chunk");
            else if (r.used[pool] == r.pools[pool].count)
                MC_CHECK(c.has_error() && c.error() == MemoryManager::Error::MEMPOOL_OUT_OF_CHUNKS, "pools", "chunk from an exhausted pool");
            else
            {
                MC_CHECK(!c.has_error(), "pools", "no chunk for %llu bytes although the fitting pool has free chunks", (unsigned long long)sz);
                auto* h = c.value().getChunkHeader();
                MC_CHECK(h->chunkSize() == r.pools[pool].size + H, "pools", "not the smallest fitting pool for %llu bytes", (unsigned long long)sz);
                for (auto& o : held)
                    MC_CHECK(o.first.getChunkHeader() != h, "pools", "chunk handed out twice");
                ++r.used[pool];
                r.minFree[pool] = std::min(r.minFree[pool], r.pools[pool].count - r.used[pool]);
                held.emplace_back(c.value(), pool);
            }
        }
        else
        {
            auto it = held.begin() + (op - nAlloc);
            --r.used[it->second];
            held.erase(it);
        }
        for (int i = 0; i < 3; ++i)
        {
            auto info = g.mgr->getMemPoolInfo((uint32_t)i);
            MC_CHECK(info.m_usedChunks == r.used[i], "usage", "pool %d reports %u used chunks instead of %u", i, info.m_usedChunks, r.used[i]);
            MC_CHECK(info.m_minFreeChunks == r.minFree[i], "usage", "pool %d reports a minimum of %u free chunks instead of %u", i, info.m_minFreeChunks, r.minFree[i]);
        }
    }
    g.intact();
    mc::outcome(mc::mix(r.used[0] * 100 + r.used[1] * 10 + r.used[2], r.minFree[0] * 100 + r.minFree[1] * 10 + r.minFree[2]));
}
static size_t cfgMax()
{
    MePooConfig c;
    return std::min<size_t>(c.m_mempoolConfig.capacity(), 5) + 1;
}
// the pool configuration of a segment is merged and sorted whatever the order of its entries
MC_SCENARIO(optimize, B(0, 60), B(0, 600))
{
    int n = choose((int)cfgMax());
    MePooConfig cfg;
    uint32_t sum[4] = {0, 0, 0, 0};
    for (int i = 0; i < n; ++i)
    {
        int s = choose(4);
        uint32_t c = 1 + (uint32_t)choose(2);
        sum[s] += c;
        cfg.addMemPool({8ull * (1u + (unsigned)s), c});
    }
    cfg.optimize();
    size_t k = 0;
    for (int s = 0; s < 4; ++s)
        if (sum[s])
        {
            MC_CHECK(k < cfg.m_mempoolConfig.size() && cfg.m_mempoolConfig[k].m_size == 8ull * (1u + (unsigned)s) && cfg.m_mempoolConfig[k].m_chunkCount == sum[s], "config",
                     "the merged configuration lacks %u chunks of size %d", sum[s], 8 * (1 + s));
            ++k;
        }
    MC_CHECK(k == cfg.m_mempoolConfig.size(), "config", "the merged configuration has additional entries");
    mc::outcome(mc::mix(sum[0] * 16 + sum[1], sum[2] * 16 + sum[3]));
}
// the usage figures stay exact when threads allocate and release concurrently
static void figures(int threads, int ops, uint32_t count)
{
    Mem mem({{64, count}});
    mem.promoteMgmt();
    // number of chunks certainly held at the same time (lower bound) and possibly held (upper bound)
    uint32_t sure = 0, maxSure = 0, maybe = 0, maxMaybe = 0;
    for (int t = 0; t < threads; ++t)
        mc::spawn([&] {
            for (int i = 0; i < ops; ++i)
            {
                {
                    mc::Atomic a;
                    ++maybe;
                    maxMaybe = std::max(maxMaybe, maybe);
                }
                auto c = mem.mgr.getChunk(ChunkSettings::create(32, 8).value());
                MC_CHECK(!c.has_error(), "pools", "no chunk although one is free");
                {
                    mc::Atomic a;
                    ++sure;
                    maxSure = std::max(maxSure, sure);
                }
                mc::point();
                {
                    mc::Atomic a;
                    --sure;
                }
                c.value() = SharedChunk();
                {
                    mc::Atomic a;
                    --maybe;
                }
            }
        });
    mc::joinAll();
    auto info = mem.mgr.getMemPoolInfo(0);
    MC_CHECK(info.m_usedChunks == 0, "usage", "%u chunks reported in use after all were released", info.m_usedChunks);
    MC_CHECK(info.m_minFreeChunks <= count - maxSure, "usage", "minimum of free chunks reported as %u although %u of %u were in use at the same time", info.m_minFreeChunks, maxSure,
             count);
    MC_CHECK(info.m_minFreeChunks >= count - maxMaybe, "usage", "minimum of free chunks reported as %u although never more than %u of %u were in use", info.m_minFreeChunks,
             maxMaybe, count);
    mc::outcome(mc::mix(maxSure, info.m_minFreeChunks));
}
MC_SCENARIO(figures_2, B(3, 60), B(5, 600)) { figures(2, 1, 3); }
MC_SCENARIO(figures_2x2, B(2, 60), B(4, 600)) { figures(2, 2, 2); }
MC_SCENARIO(figures_3, B(2, 60), B(4, 600)) { figures(3, 1, 3); }
