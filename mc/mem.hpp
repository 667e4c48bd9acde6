// Fixture: a MemoryManager with explicit pools in arena memory.
#pragma once
#include "ioxsup.hpp"
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iox/bump_allocator.hpp"

namespace sup
{
struct PoolSpec
{
    uint64_t size;
    uint32_t count;
};
struct Mem
{
    iox::mepoo::MemoryManager mgr;
    char* mgmt{nullptr};
    uint64_t mgmtSize{0};
    char* chunks{nullptr};
    uint64_t chunksSize{0};
    uint32_t total{0};

    explicit Mem(std::initializer_list<PoolSpec> pools)
    {
        iox::mepoo::MePooConfig cfg;
        for (auto& p : pools)
        {
            cfg.addMemPool({p.size, p.count});
            total += p.count;
        }
        mgmtSize = iox::mepoo::MemoryManager::requiredManagementMemorySize(cfg);
        chunksSize = iox::mepoo::MemoryManager::requiredChunkMemorySize(cfg);
        mgmt = static_cast<char*>(mc::raw(mgmtSize, 64));
        chunks = static_cast<char*>(mc::raw(chunksSize, 64));
        iox::BumpAllocator a(mgmt, mgmtSize);
        iox::BumpAllocator b(chunks, chunksSize);
        mgr.configureMemoryManager(cfg, a, b);
    }
    // the free-list links live in the management memory and are read optimistically by design
    void promoteMgmt()
    {
        mc::promote(mgmt, mgmtSize);
    }
    uint32_t used() const
    {
        uint32_t n = 0;
        for (uint32_t i = 0; i < mgr.getNumberOfMemPools(); ++i)
            n += mgr.getMemPoolInfo(i).m_usedChunks;
        return n;
    }
    // every pool must be able to hand out all of its chunks again, all disjoint
    void checkAllFree(const char* when)
    {
        using namespace iox::mepoo;
        for (uint32_t i = 0; i < mgr.getNumberOfMemPools(); ++i)
        {
            auto info = mgr.getMemPoolInfo(i);
            MC_CHECK(info.m_usedChunks == 0, "leak", "%s: pool %u reports %u chunks in use", when, i, info.m_usedChunks);
        }
        SharedChunk held[16];
        uint32_t n = 0;
        for (uint32_t i = 0; i < mgr.getNumberOfMemPools(); ++i)
        {
            auto info = mgr.getMemPoolInfo(i);
            uint32_t got = 0;
            for (;;)
            {
                auto s = ChunkSettings::create(static_cast<uint32_t>(info.m_chunkSize - sizeof(ChunkHeader)), 8U);
                auto c = mgr.getChunk(s.value());
                if (c.has_error())
                    break;
                ++got;
                MC_CHECK(got <= info.m_numChunks, "double-owner", "%s: pool %u hands out more chunks than it has", when, i);
                auto* h = reinterpret_cast<char*>(c.value().getChunkHeader());
                MC_CHECK(h >= chunks && h + info.m_chunkSize <= chunks + chunksSize, "bad-chunk", "%s: chunk outside the pool memory", when);
                for (uint32_t k = 0; k < n; ++k)
                {
                    auto* o = held[k].getChunkHeader();
                    auto* oc = reinterpret_cast<char*>(o);
                    MC_CHECK(h + info.m_chunkSize <= oc || oc + o->chunkSize() <= h, "double-owner", "%s: two live chunks overlap", when);
                }
                held[n++] = c.value();
                MC_CHECK(n < 16, "harness", "too many chunks");
            }
            MC_CHECK(got == info.m_numChunks, "leak", "%s: pool %u hands out only %u of %u chunks", when, i, got, info.m_numChunks);
        }
        for (uint32_t k = 0; k < n; ++k)
            held[k] = SharedChunk();
        MC_CHECK(used() == 0, "leak", "%s: chunks still in use after releasing all", when);
    }
};
inline mc::Opts B(int p, double s)
{
    mc::Opts o;
    o.preempt = p;
    o.seconds = s;
    return o;
}
} // namespace sup
