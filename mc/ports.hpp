// Fixture: publisher / subscriber ports exactly as RouDi creates them, connected through the CaPro messages RouDi uses.
#pragma once
#include "mem.hpp"
#include "lin.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_data.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_roudi.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_user.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_data.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_multi_producer.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_single_producer.hpp"
#include "iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp"

namespace sup
{
using namespace iox;
using namespace iox::popo;
inline const capro::ServiceDescription& sd()
{
    static const capro::ServiceDescription s{"S", "I", "E"};
    return s;
}
struct Sample
{
    uint64_t v[4];
    void set(uint64_t x)
    {
        for (auto& e : v)
            e = x * 0x0101010101010101ULL;
    }
    bool is(uint64_t x) const
    {
        for (auto& e : v)
            if (e != x * 0x0101010101010101ULL)
                return false;
        return true;
    }
};
struct Pub
{
    PublisherPortData* data;
    PublisherPortUser* user;
    PublisherPortRouDi* roudi;
    uint64_t id; // high nibble of sample values
    uint64_t next{0};
    Pub(mepoo::MemoryManager* mgr, uint64_t ident, const PublisherOptions& o, const char* app = "pubapp")
        : id(ident)
    {
        data = mc::make<PublisherPortData>(sd(), RuntimeName_t(TruncateToCapacity, app), roudi::DEFAULT_UNIQUE_ROUDI_ID, mgr, o);
        user = mc::make<PublisherPortUser>(data);
        roudi = mc::make<PublisherPortRouDi>(data);
    }
    mepoo::ChunkHeader* alloc()
    {
        auto r = user->tryAllocateChunk(sizeof(Sample), alignof(Sample), CHUNK_NO_USER_HEADER_SIZE, CHUNK_NO_USER_HEADER_ALIGNMENT);
        return r.has_error() ? nullptr : r.value();
    }
    // allocate, fill, send; false: no chunk
    bool send(uint64_t val)
    {
        auto* h = alloc();
        if (!h)
            return false;
        static_cast<Sample*>(h->userPayload())->set(val);
        user->sendChunk(h);
        return true;
    }
    void offer()
    {
        user->offer();
        (void)roudi->tryGetCaProMessage();
    }
};
struct Sub
{
    SubscriberPortData* data;
    SubscriberPortUser* user;
    SubscriberPortRouDi* roudi;
    bool multi;
    Sub(bool multiProducer, bool blocking, const SubscriberOptions& o, const char* app = "subapp")
        : multi(multiProducer)
    {
        auto t = blocking ? (multi ? VariantQueueTypes::FiFo_MultiProducerSingleConsumer : VariantQueueTypes::FiFo_SingleProducerSingleConsumer)
                          : (multi ? VariantQueueTypes::SoFi_MultiProducerSingleConsumer : VariantQueueTypes::SoFi_SingleProducerSingleConsumer);
        data = mc::make<SubscriberPortData>(sd(), RuntimeName_t(TruncateToCapacity, app), roudi::DEFAULT_UNIQUE_ROUDI_ID, t, o);
        user = mc::make<SubscriberPortUser>(data);
        if (multi)
            roudi = mc::make<SubscriberPortMultiProducer>(data);
        else
            roudi = mc::make<SubscriberPortSingleProducer>(data);
    }
    // RouDi's discovery step for this subscriber
    void discover(std::initializer_list<Pub*> pubs)
    {
        auto m = roudi->tryGetCaProMessage();
        if (!m.has_value())
            return;
        for (auto* p : pubs)
        {
            auto r = p->roudi->dispatchCaProMessageAndGetPossibleResponse(*m);
            if (r.has_value())
                (void)roudi->dispatchCaProMessageAndGetPossibleResponse(*r);
        }
    }
    void connect(std::initializer_list<Pub*> pubs)
    {
        user->subscribe();
        discover(pubs);
    }
};
inline uint64_t valueOf(const mepoo::ChunkHeader* h)
{
    auto* s = static_cast<const Sample*>(h->userPayload());
    uint64_t v = s->v[0] & 0xff;
    MC_CHECK(s->is(v), "torn-sample", "received payload was never published: %016llx %016llx %016llx %016llx", (unsigned long long)s->v[0],
             (unsigned long long)s->v[1], (unsigned long long)s->v[2], (unsigned long long)s->v[3]);
    return v;
}
inline PublisherOptions pubOpts(uint64_t history, bool wait)
{
    PublisherOptions o;
    o.historyCapacity = history;
    o.subscriberTooSlowPolicy = wait ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
    return o;
}
inline SubscriberOptions subOpts(uint64_t cap, uint64_t history, bool block)
{
    SubscriberOptions o;
    o.queueCapacity = cap;
    o.historyRequest = history;
    o.queueFullPolicy = block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
    return o;
}
} // namespace sup
