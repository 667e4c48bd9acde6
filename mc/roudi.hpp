// Fixture: a real PortManager on a port pool in arena memory (what RouDi runs, without processes and IPC).
#pragma once
#include "mem.hpp"
#include "iceoryx_posh/internal/popo/ports/client_port_user.hpp"
#include "iceoryx_posh/internal/popo/ports/server_port_user.hpp"
#include "iceoryx_posh/internal/roudi/port_manager.hpp"
#include "iceoryx_posh/internal/roudi/port_pool_data.hpp"
#include "iceoryx_posh/roudi/memory/roudi_memory_interface.hpp"
#include "iceoryx_posh/roudi/port_pool.hpp"

namespace sup
{
using namespace iox;
using namespace iox::popo;
using iox::roudi::PortManager;
using iox::roudi::PortPool;
using iox::roudi::PortPoolData;
using iox::roudi::RouDiMemoryInterface;
using iox::roudi::RouDiMemoryManagerError;
using iox::roudi::PosixShmMemoryProvider;
using iox::roudi::HeartbeatPool;
using iox::roudi::ServiceRegistry;

class Manager : public PortManager
{
  public:
    using PortManager::PortManager;
    using PortManager::serviceRegistry;
};
class RouDiMem : public RouDiMemoryInterface
{
  public:
    PortPoolData* data;
    PortPool* pool;
    Mem* intro;
    Mem* disc;
    RouDiMem(uint32_t discoveryChunks)
    {
        data = mc::make<PortPoolData>(roudi::DEFAULT_UNIQUE_ROUDI_ID);
        pool = mc::make<PortPool>(*data);
        intro = mc::make<Mem>(std::initializer_list<PoolSpec>{{128, 1}}); // too small for the topics: nothing is sent
        disc = mc::make<Mem>(std::initializer_list<PoolSpec>{{(sizeof(ServiceRegistry) + 63) & ~63ULL, discoveryChunks}});
    }
    expected<void, RouDiMemoryManagerError> createAndAnnounceMemory() noexcept override { return ok(); }
    expected<void, RouDiMemoryManagerError> destroyMemory() noexcept override { return ok(); }
    const PosixShmMemoryProvider* mgmtMemoryProvider() const noexcept override { return nullptr; }
    optional<PortPool*> portPool() noexcept override { return make_optional<PortPool*>(pool); }
    optional<mepoo::MemoryManager*> introspectionMemoryManager() const noexcept override { return make_optional<mepoo::MemoryManager*>(&intro->mgr); }
    optional<mepoo::MemoryManager*> discoveryMemoryManager() const noexcept override { return make_optional<mepoo::MemoryManager*>(&disc->mgr); }
    optional<HeartbeatPool*> heartbeatPool() const noexcept override { return nullopt; }
    optional<mepoo::SegmentManager<>*> segmentManager() const noexcept override { return nullopt; }
};
struct Fixture
{
    RouDiMem* mem;
    Manager* pm;
    Mem* user;
    uint32_t internalPublishers{0};
    Fixture(uint32_t discoveryChunks, std::initializer_list<PoolSpec> pools)
    {
        mem = mc::make<RouDiMem>(discoveryChunks);
        pm = mc::make<Manager>(mem);
        user = mc::make<Mem>(pools);
        pm->doDiscovery();
        for (auto& p : mem->pool->getPublisherPortDataList())
        {
            (void)p;
            ++internalPublishers;
        }
    }
};
inline capro::ServiceDescription svc(int i)
{
    static const capro::ServiceDescription s[3] = {{"S", "I", "E"}, {"S", "I", "F"}, {"T", "I", "E"}};
    return s[i];
}
inline RuntimeName_t app(int i)
{
    return RuntimeName_t(TruncateToCapacity, i == 0 ? "app" : i == 1 ? "appB" : "appBC");
}
} // namespace sup
