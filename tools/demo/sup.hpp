// demo support: port fixtures as RouDi creates them (no scheduler)
#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <initializer_list>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "iox/logging.hpp"
namespace mc
{
inline void* raw(size_t n, size_t a = 64)
{
    void* p = nullptr;
    if (posix_memalign(&p, a, n ? n : 1))
        abort();
    memset(p, 0, n);
    return p;
}
template <typename T, typename... A>
T* make(A&&... a)
{
    return new (raw(sizeof(T), alignof(T) < 64 ? 64 : alignof(T))) T(static_cast<A&&>(a)...);
}
inline void promote(const volatile void*, size_t) {}
struct Opts
{
    int preempt;
    double seconds;
};
}
#define MC_CHECK(c, sig, ...)                                                                                          \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(c))                                                                                                      \
        {                                                                                                              \
            printf(__VA_ARGS__);                                                                                       \
            printf("\n");                                                                                             \
            fflush(stdout);                                                                                            \
            _exit(1);                                                                                                  \
        }                                                                                                              \
    } while (0)
inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
// runs f; fails if it does not return in time
inline void within(int millis, const char* what, std::function<void()> f)
{
    std::atomic<bool> done{false};
    std::thread t([&] { f(); done = true; });
    for (int i = 0; i < millis && !done; ++i)
        ms(1);
    MC_CHECK(done, "", "%s: still blocked", what);
    t.join();
}
// Fixture: a MemoryManager with explicit pools in arena memory.
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iox/bump_allocator.hpp"

namespace sup
{
struct PoolSpec
{
    uint64_t size;
    uint32_t count;
};
struct Mem
{
    iox::mepoo::MemoryManager mgr;
    char* mgmt{nullptr};
    uint64_t mgmtSize{0};
    char* chunks{nullptr};
    uint64_t chunksSize{0};
    uint32_t total{0};

    explicit Mem(std::initializer_list<PoolSpec> pools)
    {
        iox::mepoo::MePooConfig cfg;
        for (auto& p : pools)
        {
            cfg.addMemPool({p.size, p.count});
            total += p.count;
        }
        mgmtSize = iox::mepoo::MemoryManager::requiredManagementMemorySize(cfg);
        chunksSize = iox::mepoo::MemoryManager::requiredChunkMemorySize(cfg);
        mgmt = static_cast<char*>(mc::raw(mgmtSize, 64));
        chunks = static_cast<char*>(mc::raw(chunksSize, 64));
        iox::BumpAllocator a(mgmt, mgmtSize);
        iox::BumpAllocator b(chunks, chunksSize);
        mgr.configureMemoryManager(cfg, a, b);
    }
    // the free-list links live in the management memory and are read optimistically by design
    void promoteMgmt()
    {
        mc::promote(mgmt, mgmtSize);
    }
    uint32_t used() const
    {
        uint32_t n = 0;
        for (uint32_t i = 0; i < mgr.getNumberOfMemPools(); ++i)
            n += mgr.getMemPoolInfo(i).m_usedChunks;
        return n;
    }
    // every pool must be able to hand out all of its chunks again, all disjoint
    void checkAllFree(const char* when)
    {
        using namespace iox::mepoo;
        for (uint32_t i = 0; i < mgr.getNumberOfMemPools(); ++i)
        {
            auto info = mgr.getMemPoolInfo(i);
            MC_CHECK(info.m_usedChunks == 0, "leak", "%s: pool %u reports %u chunks in use", when, i, info.m_usedChunks);
        }
        SharedChunk held[16];
        uint32_t n = 0;
        for (uint32_t i = 0; i < mgr.getNumberOfMemPools(); ++i)
        {
            auto info = mgr.getMemPoolInfo(i);
            uint32_t got = 0;
            for (;;)
            {
                auto s = ChunkSettings::create(static_cast<uint32_t>(info.m_chunkSize - sizeof(ChunkHeader)), 8U);
                auto c = mgr.getChunk(s.value());
                if (c.has_error())
                    break;
                ++got;
                MC_CHECK(got <= info.m_numChunks, "double-owner", "%s: pool %u hands out more chunks than it has", when, i);
                auto* h = reinterpret_cast<char*>(c.value().getChunkHeader());
                MC_CHECK(h >= chunks && h + info.m_chunkSize <= chunks + chunksSize, "bad-chunk", "%s: chunk outside the pool memory", when);
                for (uint32_t k = 0; k < n; ++k)
                {
                    auto* o = held[k].getChunkHeader();
                    auto* oc = reinterpret_cast<char*>(o);
                    MC_CHECK(h + info.m_chunkSize <= oc || oc + o->chunkSize() <= h, "double-owner", "%s: two live chunks overlap", when);
                }
                held[n++] = c.value();
                MC_CHECK(n < 16, "harness", "too many chunks");
            }
            MC_CHECK(got == info.m_numChunks, "leak", "%s: pool %u hands out only %u of %u chunks", when, i, got, info.m_numChunks);
        }
        for (uint32_t k = 0; k < n; ++k)
            held[k] = SharedChunk();
        MC_CHECK(used() == 0, "leak", "%s: chunks still in use after releasing all", when);
    }
};
inline mc::Opts B(int p, double s)
{
    mc::Opts o;
    o.preempt = p;
    o.seconds = s;
    return o;
}
} // namespace sup
// Fixture: publisher / subscriber ports exactly as RouDi creates them, connected through the CaPro messages RouDi uses.
#include "iceoryx_posh/internal/popo/ports/publisher_port_data.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_roudi.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_user.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_data.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_multi_producer.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_single_producer.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp"

namespace sup
{
using namespace iox;
using namespace iox::popo;
inline const capro::ServiceDescription& sd()
{
    static const capro::ServiceDescription s{"S", "I", "E"};
    return s;
}
struct Sample
{
    uint64_t v[4];
    void set(uint64_t x)
    {
        for (auto& e : v)
            e = x * 0x0101010101010101ULL;
    }
    bool is(uint64_t x) const
    {
        for (auto& e : v)
            if (e != x * 0x0101010101010101ULL)
                return false;
        return true;
    }
};
struct Pub
{
    PublisherPortData* data;
    PublisherPortUser* user;
    PublisherPortRouDi* roudi;
    uint64_t id; // high nibble of sample values
    uint64_t next{0};
    Pub(mepoo::MemoryManager* mgr, uint64_t ident, const PublisherOptions& o, const char* app = "pubapp")
        : id(ident)
    {
        data = mc::make<PublisherPortData>(sd(), RuntimeName_t(TruncateToCapacity, app), roudi::DEFAULT_UNIQUE_ROUDI_ID, mgr, o);
        user = mc::make<PublisherPortUser>(data);
        roudi = mc::make<PublisherPortRouDi>(data);
    }
    mepoo::ChunkHeader* alloc()
    {
        auto r = user->tryAllocateChunk(sizeof(Sample), alignof(Sample), CHUNK_NO_USER_HEADER_SIZE, CHUNK_NO_USER_HEADER_ALIGNMENT);
        return r.has_error() ? nullptr : r.value();
    }
    // allocate, fill, send; false: no chunk
    bool send(uint64_t val)
    {
        auto* h = alloc();
        if (!h)
            return false;
        static_cast<Sample*>(h->userPayload())->set(val);
        user->sendChunk(h);
        return true;
    }
    void offer()
    {
        user->offer();
        (void)roudi->tryGetCaProMessage();
    }
};
struct Sub
{
    SubscriberPortData* data;
    SubscriberPortUser* user;
    SubscriberPortRouDi* roudi;
    bool multi;
    Sub(bool multiProducer, bool blocking, const SubscriberOptions& o, const char* app = "subapp")
        : multi(multiProducer)
    {
        auto t = blocking ? (multi ? VariantQueueTypes::FiFo_MultiProducerSingleConsumer : VariantQueueTypes::FiFo_SingleProducerSingleConsumer)
                          : (multi ? VariantQueueTypes::SoFi_MultiProducerSingleConsumer : VariantQueueTypes::SoFi_SingleProducerSingleConsumer);
        data = mc::make<SubscriberPortData>(sd(), RuntimeName_t(TruncateToCapacity, app), roudi::DEFAULT_UNIQUE_ROUDI_ID, t, o);
        user = mc::make<SubscriberPortUser>(data);
        if (multi)
            roudi = mc::make<SubscriberPortMultiProducer>(data);
        else
            roudi = mc::make<SubscriberPortSingleProducer>(data);
    }
    // RouDi's discovery step for this subscriber
    void discover(std::initializer_list<Pub*> pubs)
    {
        auto m = roudi->tryGetCaProMessage();
        if (!m.has_value())
            return;
        for (auto* p : pubs)
        {
            auto r = p->roudi->dispatchCaProMessageAndGetPossibleResponse(*m);
            if (r.has_value())
                (void)roudi->dispatchCaProMessageAndGetPossibleResponse(*r);
        }
    }
    void connect(std::initializer_list<Pub*> pubs)
    {
        user->subscribe();
        discover(pubs);
    }
};
inline uint64_t valueOf(const mepoo::ChunkHeader* h)
{
    auto* s = static_cast<const Sample*>(h->userPayload());
    uint64_t v = s->v[0] & 0xff;
    MC_CHECK(s->is(v), "torn-sample", "received payload was never published: %016llx %016llx %016llx %016llx", (unsigned long long)s->v[0],
             (unsigned long long)s->v[1], (unsigned long long)s->v[2], (unsigned long long)s->v[3]);
    return v;
}
inline PublisherOptions pubOpts(uint64_t history, bool wait)
{
    PublisherOptions o;
    o.historyCapacity = history;
    o.subscriberTooSlowPolicy = wait ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
    return o;
}
inline SubscriberOptions subOpts(uint64_t cap, uint64_t history, bool block)
{
    SubscriberOptions o;
    o.queueCapacity = cap;
    o.historyRequest = history;
    o.queueFullPolicy = block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
    return o;
}
} // namespace sup
// Fixture: a real PortManager on a port pool in arena memory (what RouDi runs, without processes and IPC).
#include "iceoryx_posh/internal/popo/ports/client_port_user.hpp"
#include "iceoryx_posh/internal/popo/ports/server_port_user.hpp"
#include "iceoryx_posh/internal/roudi/port_manager.hpp"
#include "iceoryx_posh/internal/roudi/port_pool_data.hpp"
#include "iceoryx_posh/roudi/memory/roudi_memory_interface.hpp"
#include "iceoryx_posh/roudi/port_pool.hpp"

namespace sup
{
using namespace iox;
using namespace iox::popo;
using iox::roudi::PortManager;
using iox::roudi::PortPool;
using iox::roudi::PortPoolData;
using iox::roudi::RouDiMemoryInterface;
using iox::roudi::RouDiMemoryManagerError;
using iox::roudi::PosixShmMemoryProvider;
using iox::roudi::HeartbeatPool;
using iox::roudi::ServiceRegistry;

class Manager : public PortManager
{
  public:
    using PortManager::PortManager;
    using PortManager::serviceRegistry;
};
class RouDiMem : public RouDiMemoryInterface
{
  public:
    PortPoolData* data;
    PortPool* pool;
    Mem* intro;
    Mem* disc;
    RouDiMem(uint32_t discoveryChunks)
    {
        data = mc::make<PortPoolData>(roudi::DEFAULT_UNIQUE_ROUDI_ID);
        pool = mc::make<PortPool>(*data);
        intro = mc::make<Mem>(std::initializer_list<PoolSpec>{{128, 1}}); // too small for the topics: nothing is sent
        disc = mc::make<Mem>(std::initializer_list<PoolSpec>{{(sizeof(ServiceRegistry) + 63) & ~63ULL, discoveryChunks}});
    }
    expected<void, RouDiMemoryManagerError> createAndAnnounceMemory() noexcept override { return ok(); }
    expected<void, RouDiMemoryManagerError> destroyMemory() noexcept override { return ok(); }
    const PosixShmMemoryProvider* mgmtMemoryProvider() const noexcept override { return nullptr; }
    optional<PortPool*> portPool() noexcept override { return make_optional<PortPool*>(pool); }
    optional<mepoo::MemoryManager*> introspectionMemoryManager() const noexcept override { return make_optional<mepoo::MemoryManager*>(&intro->mgr); }
    optional<mepoo::MemoryManager*> discoveryMemoryManager() const noexcept override { return make_optional<mepoo::MemoryManager*>(&disc->mgr); }
    optional<HeartbeatPool*> heartbeatPool() const noexcept override { return nullopt; }
    optional<mepoo::SegmentManager<>*> segmentManager() const noexcept override { return nullopt; }
};
struct Fixture
{
    RouDiMem* mem;
    Manager* pm;
    Mem* user;
    uint32_t internalPublishers{0};
    Fixture(uint32_t discoveryChunks, std::initializer_list<PoolSpec> pools)
    {
        mem = mc::make<RouDiMem>(discoveryChunks);
        pm = mc::make<Manager>(mem);
        user = mc::make<Mem>(pools);
        pm->doDiscovery();
        for (auto& p : mem->pool->getPublisherPortDataList())
        {
            (void)p;
            ++internalPublishers;
        }
    }
};
inline capro::ServiceDescription svc(int i)
{
    static const capro::ServiceDescription s[3] = {{"S", "I", "E"}, {"S", "I", "F"}, {"T", "I", "E"}};
    return s[i];
}
inline RuntimeName_t app(int i)
{
    return RuntimeName_t(TruncateToCapacity, i == 0 ? "appA" : i == 1 ? "appB" : "appC");
}
} // namespace sup
