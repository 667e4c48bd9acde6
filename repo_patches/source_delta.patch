From c4ae3c0f7d447e9041dc1e18bd089575fc96f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:14 +0000
Subject: [PATCH 01/28] fix: order chunk accesses of all holders before the
 chunk is reclaimed

The reference counter of a chunk was decremented with relaxed ordering. Reads
and writes of a holder which drops its reference were therefore not ordered
before the reuse of the chunk by the holder that drops the last reference (and
whoever gets the chunk next), i.e. a late read could observe the next sample.
---
 iceoryx_posh/source/mepoo/shared_chunk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/mepoo/shared_chunk.cpp b/iceoryx_posh/source/mepoo/shared_chunk.cpp
index 035f49d..d6fe362 100644
--- a/iceoryx_posh/source/mepoo/shared_chunk.cpp
+++ b/iceoryx_posh/source/mepoo/shared_chunk.cpp
@@ -54,7 +54,7 @@ void SharedChunk::incrementReferenceCounter() noexcept
 void SharedChunk::decrementReferenceCounter() noexcept
 {
     if ((m_chunkManagement != nullptr)
-        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_relaxed) == 1U))
+        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_acq_rel) == 1U))
     {
         MemoryManager::freeChunk(*m_chunkManagement);
         m_chunkManagement = nullptr;
-- 
2.43.0


From 7a5955787f7d93c79ad1e1ab835110cd4af56dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:42 +0000
Subject: [PATCH 02/28] fix: synchronize reuse of buffer slots in the
 multi-producer queue

The indices of the buffer slots were handed over with relaxed operations only.
Reading (and destroying) an element was therefore not ordered before the slot
is written again by the next producer that obtains the index.
---
 .../detail/mpmc_lockfree_queue/mpmc_index_queue.inl    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
index 5c76800..6687361 100644
--- a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
+++ b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
@@ -89,8 +89,10 @@ inline void MpmcIndexQueue<Capacity, ValueType>::push(const ValueType index) noe
             Index newValue(index, writePosition.getCycle());
 
             // if publish fails, another thread has published before us
+            // the release synchronizes with the acquire in pop (and popIf*), i.e. whatever was done with the index before
+            // it was pushed happens before the index is used again
             bool published = m_cells[writePosition.getIndex()].compare_exchange_weak(
-                oldValue, newValue, std::memory_order_relaxed, std::memory_order_relaxed);
+                oldValue, newValue, std::memory_order_release, std::memory_order_relaxed);
 
             if (published)
             {
@@ -159,7 +161,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::pop(ValueType& index) noexcept
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
     do
     {
-        value = loadvalueAt(readPosition, std::memory_order_relaxed);
+        value = loadvalueAt(readPosition, std::memory_order_acquire);
 
         // we only dequeue if value and readPosition are in the same cycle
         auto cellIsValidToRead = readPosition.getCycle() == value.getCycle();
@@ -209,7 +211,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfFull(ValueType& index) noe
 
     const auto writePosition = m_writePosition.load(std::memory_order_relaxed);
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
-    const auto value = loadvalueAt(readPosition, std::memory_order_relaxed);
+    const auto value = loadvalueAt(readPosition, std::memory_order_acquire);
 
     auto isFull = writePosition.getIndex() == readPosition.getIndex() && readPosition.isOneCycleBehind(writePosition);
 
@@ -264,7 +266,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfSizeIsAtLeast(const uint64
     // delta is positive, therefore the conversion is fine (it surely fits into uint64_t)
     if (static_cast<uint64_t>(delta) >= minSize)
     {
-        auto value = loadvalueAt(readPosition, std::memory_order_relaxed);
+        auto value = loadvalueAt(readPosition, std::memory_order_acquire);
         Index newReadPosition(readPosition + 1U);
         auto ownershipGained = m_readPosition.compare_exchange_strong(
             readPosition, newReadPosition, std::memory_order_relaxed, std::memory_order_relaxed);
-- 
2.43.0


From f31f34afb269a0041ad3b4624424baa30f674b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:40 +0000
Subject: [PATCH 03/28] fix: add a chunk to the history in the same critical
 section as its delivery

---
 .../building_blocks/chunk_distributor.inl     | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
index 246cfe9..a04e05b 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
@@ -144,6 +144,7 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
     uint64_t numberOfQueuesTheChunkWasDeliveredTo{0U};
     using QueueContainer = decltype(getMembers()->m_queues);
     QueueContainer fullQueuesAwaitingDelivery;
+    QueueContainer knownQueues;
     {
         typename MemberType_t::LockGuard_t lock(*getMembers());
 
@@ -170,6 +171,17 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
                 }
             }
         }
+
+        // the delivery and the update of the history must not be separated, otherwise a queue which is added in between
+        // gets the chunk neither by the delivery nor by the history
+        if (fullQueuesAwaitingDelivery.empty())
+        {
+            addToHistoryWithoutDelivery(chunk);
+        }
+        else
+        {
+            knownQueues = getMembers()->m_queues;
+        }
     }
 
     // busy waiting until every queue is served
@@ -206,6 +218,16 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
                                   greaterThan);
             fullQueuesAwaitingDelivery.clear();
 
+            // queues which were added since the last iteration did not get the chunk with the history
+            for (auto& queue : getMembers()->m_queues)
+            {
+                if (std::find(knownQueues.begin(), knownQueues.end(), queue.get()) == knownQueues.end())
+                {
+                    remainingQueues.push_back(queue);
+                }
+            }
+            knownQueues = getMembers()->m_queues;
+
             // deliver to remaining queues
             for (auto& queue : remainingQueues)
             {
@@ -213,16 +235,24 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
                 {
                     ++numberOfQueuesTheChunkWasDeliveredTo;
                 }
-                else
+                else if (queue->m_queueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER)
                 {
                     fullQueuesAwaitingDelivery.push_back(queue);
                 }
+                else
+                {
+                    ++numberOfQueuesTheChunkWasDeliveredTo;
+                    ChunkQueuePusher_t(queue.get()).lostAChunk();
+                }
+            }
+
+            if (fullQueuesAwaitingDelivery.empty())
+            {
+                addToHistoryWithoutDelivery(chunk);
             }
         }
     }
 
-    addToHistoryWithoutDelivery(chunk);
-
     return numberOfQueuesTheChunkWasDeliveredTo;
 }
 
-- 
2.43.0


From fb599c8691feb967a166a6996ec2d30435475e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 04/28] fix: ConditionListener synchronizes with the notifier
 when it collects a notification

---
 .../source/popo/building_blocks/condition_listener.cpp        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
index fb82639..58a135f 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
@@ -108,7 +108,9 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
 
 void ConditionListener::resetUnchecked(const uint64_t index) noexcept
 {
-    getMembers()->m_activeNotifications[index].store(false, std::memory_order_relaxed);
+    // synchronizes with the release store in 'ConditionNotifier::notify'; this must be a read-modify-write operation since
+    // a further 'notify' could otherwise be overwritten unseen
+    getMembers()->m_activeNotifications[index].exchange(false, std::memory_order_acquire);
     getMembers()->m_wasNotified.store(false, std::memory_order_relaxed);
 }
 
-- 
2.43.0


From 01fcf4c3f5e3bfceae7662ddc1f603658ab36cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 05/28] fix: ConditionListener does not mask notifications
 which arrive while it collects others

---
 .../source/popo/building_blocks/condition_listener.cpp        | 4 +++-
 .../source/popo/building_blocks/condition_notifier.cpp        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
index 58a135f..3c9ac99 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
@@ -87,6 +87,9 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
     bool doReturnAfterNotificationCollection = false;
     while (!m_toBeDestroyed.load(std::memory_order_relaxed))
     {
+        // must be reset before the notifications are collected; otherwise a notification which arrives while they are
+        // collected would be masked although it is still active
+        getMembers()->m_wasNotified.exchange(false, std::memory_order_acquire);
         for (Type_t i = 0U; i < MAX_NUMBER_OF_NOTIFIERS; i++)
         {
             if (getMembers()->m_activeNotifications[i].load(std::memory_order_relaxed))
@@ -111,7 +114,6 @@ void ConditionListener::resetUnchecked(const uint64_t index) noexcept
     // synchronizes with the release store in 'ConditionNotifier::notify'; this must be a read-modify-write operation since
     // a further 'notify' could otherwise be overwritten unseen
     getMembers()->m_activeNotifications[index].exchange(false, std::memory_order_acquire);
-    getMembers()->m_wasNotified.store(false, std::memory_order_relaxed);
 }
 
 const ConditionVariableData* ConditionListener::getMembers() volatile const noexcept
diff --git a/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp b/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
index 7174331..e849582 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
@@ -39,7 +39,7 @@ ConditionNotifier::ConditionNotifier(ConditionVariableData& condVarDataRef, cons
 void ConditionNotifier::notify() noexcept
 {
     getMembers()->m_activeNotifications[m_notificationIndex].store(true, std::memory_order_release);
-    getMembers()->m_wasNotified.store(true, std::memory_order_relaxed);
+    getMembers()->m_wasNotified.store(true, std::memory_order_release);
     getMembers()->m_semaphore->post().or_else(
         [](auto) { IOX_REPORT_FATAL(PoshError::POPO__CONDITION_NOTIFIER_SEMAPHORE_CORRUPT_IN_NOTIFY); });
 }
-- 
2.43.0


From ececf10c483ed79724f2986bb768d4dfcacc1643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 06/28] fix: WaitSet does not block while an attached state is
 satisfied

---
 iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index 686120b..f16012e 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -388,7 +388,9 @@ WaitSet<Capacity>::waitAndReturnTriggeredTriggers(const WaitFunction& wait) noex
 {
     if (m_conditionListener.wasNotified())
     {
-        this->acquireNotifications(wait);
+        // must not block; the notification might have been acquired already with the previous call and a state which is
+        // still satisfied has to be returned
+        this->acquireNotifications([this] { return this->m_conditionListener.timedWait(units::Duration::zero()); });
     }
 
     NotificationInfoVector triggers = createVectorWithTriggeredTriggers();
-- 
2.43.0


From c991ff711cd6142ea68c0b5db5648bdd10b5dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 07/28] fix: WaitSet does not attribute a notification of a
 detached event to its successor

---
 .../include/iceoryx_posh/internal/popo/wait_set.inl   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index f16012e..dcc4235 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -126,6 +126,17 @@ WaitSet<Capacity>::attachImpl(T& eventOrigin,
         return err(WaitSetError::WAIT_SET_FULL);
     }
 
+    // the index could have been used before; a pending notification of the detached predecessor must not be attributed
+    // to the new one
+    m_conditionVariableDataPtr->m_activeNotifications[*index].store(false, std::memory_order_relaxed);
+    for (auto iter = m_activeNotifications.begin(); iter != m_activeNotifications.end(); ++iter)
+    {
+        if (*iter == *index)
+        {
+            m_activeNotifications.erase(iter);
+            break;
+        }
+    }
 
     if (hasTriggeredCallback)
     {
-- 
2.43.0


From b64801a080bac53bdc4e59fce8940c82b43444cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:03 +0000
Subject: [PATCH 08/28] fix: publish the service registry when a publisher or
 server is removed from a shared entry

The registry was only marked as changed when the last publisher and server with the
service description vanished. When e.g. a server with the same service description
remained, the published registry (and hence findService) kept reporting the removed
publisher forever.
---
 iceoryx_posh/source/roudi/service_registry.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/roudi/service_registry.cpp b/iceoryx_posh/source/roudi/service_registry.cpp
index 08d9d6e..391dffa 100644
--- a/iceoryx_posh/source/roudi/service_registry.cpp
+++ b/iceoryx_posh/source/roudi/service_registry.cpp
@@ -101,12 +101,13 @@ void ServiceRegistry::removePublisher(const capro::ServiceDescription& serviceDe
 
         if (entry && entry->publisherCount >= 1U)
         {
+            // the counters are part of the registry data
+            m_dataChanged = true;
             if (--entry->publisherCount == 0U && entry->serverCount == 0)
             {
                 entry.reset();
                 // reuse the slot in the next insertion
                 m_freeIndex = index;
-                m_dataChanged = true;
             }
         }
     }
@@ -121,12 +122,13 @@ void ServiceRegistry::removeServer(const capro::ServiceDescription& serviceDescr
 
         if (entry && entry->serverCount >= 1U)
         {
+            // the counters are part of the registry data
+            m_dataChanged = true;
             if (--entry->serverCount == 0U && entry->publisherCount == 0)
             {
                 entry.reset();
                 // reuse the slot in the next insertion
                 m_freeIndex = index;
-                m_dataChanged = true;
             }
         }
     }
-- 
2.43.0


From 373bad2f294fb6fa5899cdfa187c8e37d97deedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:44 +0000
Subject: [PATCH 09/28] fix: retry publishing the service registry after a
 chunk shortage

When no chunk was available the change was dropped and the applications kept an
outdated service registry until the next unrelated change.
---
 .../include/iceoryx_posh/internal/roudi/port_manager.hpp | 1 +
 iceoryx_posh/source/roudi/port_manager.cpp               | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/port_manager.hpp b/iceoryx_posh/include/iceoryx_posh/internal/roudi/port_manager.hpp
index 53011cc..27e4fb9 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/port_manager.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/port_manager.hpp
@@ -198,6 +198,7 @@ class PortManager
     RouDiMemoryInterface* m_roudiMemoryInterface{nullptr};
     PortPool* m_portPool{nullptr};
     ServiceRegistry m_serviceRegistry;
+    bool m_isServiceRegistryPublicationPending{false};
     PortIntrospectionType m_portIntrospection;
     vector<capro::ServiceDescription, NUMBER_OF_INTERNAL_PUBLISHERS> m_internalServices;
     optional<PublisherPortRouDiType::MemberType_t*> m_serviceRegistryPublisherPortData;
diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 1291567..4451c21 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -1089,10 +1089,12 @@ popo::InterfacePortData* PortManager::acquireInterfacePortData(capro::Interfaces
 
 void PortManager::publishServiceRegistry() noexcept
 {
-    if (!m_serviceRegistry.hasDataChangedSinceLastCall())
+    // a change which could not be published due to a lack of chunks must not get lost
+    if (!m_serviceRegistry.hasDataChangedSinceLastCall() && !m_isServiceRegistryPublicationPending)
     {
         return;
     }
+    m_isServiceRegistryPublicationPending = false;
 
     if (!m_serviceRegistryPublisherPortData.has_value())
     {
@@ -1113,7 +1115,10 @@ void PortManager::publishServiceRegistry() noexcept
 
             publisher.sendChunk(chunk);
         })
-        .or_else([](auto&) { IOX_LOG(Warn, "Could not allocate a chunk for the service registry!"); });
+        .or_else([&](auto&) {
+            m_isServiceRegistryPublicationPending = true;
+            IOX_LOG(Warn, "Could not allocate a chunk for the service registry!");
+        });
 }
 
 const ServiceRegistry& PortManager::serviceRegistry() const noexcept
-- 
2.43.0


From c04ec22b5c84eb5857c3c95c82430fcb7fd4c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:12 +0000
Subject: [PATCH 10/28] fix: do not terminate RouDi when a server stops
 offering while a client is not connected

STOP_OFFER was forwarded to all clients with the same service description, also to
those which are not connected (no connect requested, already disconnected or rejected
because of too many clients). This is a CaPro protocol violation and terminated RouDi.
---
 iceoryx_posh/source/roudi/port_manager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 4451c21..391c212 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -633,6 +633,13 @@ void PortManager::sendToAllMatchingClientPorts(const capro::CaproMessage& messag
 {
     for (auto& clientPortData : m_portPool->getClientPortDataList())
     {
+        // only connected clients are affected by a STOP_OFFER
+        if (message.m_type == capro::CaproMessageType::STOP_OFFER
+            && clientPortData.m_connectionState.load(std::memory_order_relaxed) != ConnectionState::CONNECTED)
+        {
+            continue;
+        }
+
         popo::ClientPortRouDi clientPort(clientPortData);
         if (isCompatibleClientServer(serverSource, clientPort))
         {
-- 
2.43.0


From 6f154322542573f3eeae0e44535a02bf7a659cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:07 +0000
Subject: [PATCH 11/28] fix: exact figures of used and minimum free chunks when
 chunks are acquired and released concurrently

---
 .../iceoryx_posh/internal/mepoo/mem_pool.hpp  |  2 +-
 iceoryx_posh/source/mepoo/mem_pool.cpp        | 22 ++++++++++---------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mem_pool.hpp b/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mem_pool.hpp
index 0609928..418acd9 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mem_pool.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mem_pool.hpp
@@ -86,7 +86,7 @@ class MemPool
     pointerToIndex(const void* const chunk, const uint64_t chunkSize, const void* const rawMemoryBase) noexcept;
 
   private:
-    void adjustMinFree() noexcept;
+    void adjustMinFree(const uint32_t usedChunks) noexcept;
     bool isMultipleOfAlignment(const uint64_t value) const noexcept;
 
     RelativePointer<void> m_rawMemory;
diff --git a/iceoryx_posh/source/mepoo/mem_pool.cpp b/iceoryx_posh/source/mepoo/mem_pool.cpp
index da60994..ba36865 100644
--- a/iceoryx_posh/source/mepoo/mem_pool.cpp
+++ b/iceoryx_posh/source/mepoo/mem_pool.cpp
@@ -76,11 +76,15 @@ bool MemPool::isMultipleOfAlignment(const uint64_t value) const noexcept
     return (value % CHUNK_MEMORY_ALIGNMENT == 0U);
 }
 
-void MemPool::adjustMinFree() noexcept
+void MemPool::adjustMinFree(const uint32_t usedChunks) noexcept
 {
-    // @todo iox-#1714 rethink the concurrent change that can happen. do we need a CAS loop?
-    m_minFree.store(std::min(m_numberOfChunks - m_usedChunks.load(std::memory_order_relaxed),
-                             m_minFree.load(std::memory_order_relaxed)));
+    const auto freeChunks = m_numberOfChunks - usedChunks;
+    auto minFree = m_minFree.load(std::memory_order_relaxed);
+    while (freeChunks < minFree
+           && !m_minFree.compare_exchange_weak(
+               minFree, freeChunks, std::memory_order_relaxed, std::memory_order_relaxed))
+    {
+    }
 }
 
 void* MemPool::getChunk() noexcept
@@ -94,10 +98,7 @@ void* MemPool::getChunk() noexcept
         return nullptr;
     }
 
-    /// @todo iox-#1714 verify that m_usedChunk is not changed during adjustMInFree
-    ///         without changing m_minFree
-    m_usedChunks.fetch_add(1U, std::memory_order_relaxed);
-    adjustMinFree();
+    adjustMinFree(m_usedChunks.fetch_add(1U, std::memory_order_relaxed) + 1U);
 
     return indexToPointer(index, m_chunkSize, m_rawMemory.get());
 }
@@ -149,12 +150,13 @@ void MemPool::freeChunk(const void* chunk) noexcept
 
     const auto index = pointerToIndex(chunk, m_chunkSize, memPoolStartAddress);
 
+    // must be done before the chunk becomes available again, otherwise it is counted twice when it is acquired right away
+    m_usedChunks.fetch_sub(1U, std::memory_order_relaxed);
+
     if (!m_freeIndices.push(index))
     {
         IOX_REPORT_FATAL(PoshError::POSH__MEMPOOL_POSSIBLE_DOUBLE_FREE);
     }
-
-    m_usedChunks.fetch_sub(1U, std::memory_order_relaxed);
 }
 
 uint64_t MemPool::getChunkSize() const noexcept
-- 
2.43.0


From 1b42a3a49c2a7b3a48f77236703002255ebbe9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:10 +0000
Subject: [PATCH 12/28] fix: construct the value when an empty variant is
 assigned from a value

---
 iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl b/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl
index 4dd8f8e..a2efd67 100644
--- a/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl
+++ b/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl
@@ -150,10 +150,10 @@ variant<Types...>::operator=(T&& rhs) noexcept
 {
     if (m_type_index == INVALID_VARIANT_INDEX)
     {
-        m_type_index = internal::get_index_of_type<0, T, Types...>::index;
+        // there is no element yet which could be assigned to, it has to be constructed
+        emplace<T>(std::forward<T>(rhs));
     }
-
-    if (!has_bad_variant_element_access<T>())
+    else if (!has_bad_variant_element_access<T>())
     {
         // AXIVION Next Construct AutosarC++19_03-M5.2.8: conversion to typed pointer is intentional, it is correctly aligned and points to sufficient memory for a T by design
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast)
-- 
2.43.0


From e1a13cd61f5cb9f83cf8c62cc9eb593e91e2b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:44 +0000
Subject: [PATCH 13/28] fix: forget the end of a segment when it is
 unregistered

PointerRepository kept endPtr after unregisterPtr/unregisterAll, so that searchId attributed every address
up to the former end to the unregistered segment.
---
 iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
index 2d3448a..61f3e9b 100644
--- a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
+++ b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
@@ -62,6 +62,7 @@ inline bool PointerRepository<id_t, ptr_t, CAPACITY>::unregisterPtr(const id_t i
         if (m_info[id].basePtr != nullptr)
         {
             m_info[id].basePtr = nullptr;
+            m_info[id].endPtr = nullptr;
 
             /// @note do not search for next lower registered index but we could do it here
             return true;
@@ -77,6 +78,7 @@ inline void PointerRepository<id_t, ptr_t, CAPACITY>::unregisterAll() noexcept
     for (auto& info : m_info)
     {
         info.basePtr = nullptr;
+        info.endPtr = nullptr;
     }
     m_maxRegistered = 0U;
 }
-- 
2.43.0


From 0afae3f4d1809a83d45acb1985d79726b13611db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:44 +0000
Subject: [PATCH 14/28] fix: do not wrap around when the bump allocator is
 asked for a huge size

alignedPosition + size could overflow, so that the request succeeded and later allocations overlapped.
---
 iceoryx_hoofs/memory/source/bump_allocator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/memory/source/bump_allocator.cpp b/iceoryx_hoofs/memory/source/bump_allocator.cpp
index 783d0bc..3542878 100644
--- a/iceoryx_hoofs/memory/source/bump_allocator.cpp
+++ b/iceoryx_hoofs/memory/source/bump_allocator.cpp
@@ -48,13 +48,13 @@ expected<void*, BumpAllocatorError> BumpAllocator::allocate(const uint64_t size,
 
     void* allocation{nullptr};
 
-    const uint64_t nextPosition{alignedPosition + size};
-    if (m_length >= nextPosition)
+    const bool fits{(alignedPosition <= m_length) && (size <= (m_length - alignedPosition))};
+    if (fits)
     {
         // AXIVION Next Construct AutosarC++19_03-A5.2.4 : required for low level memory management
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast, performance-no-int-to-ptr)
         allocation = reinterpret_cast<void*>(m_startAddress + alignedPosition);
-        m_currentPosition = nextPosition;
+        m_currentPosition = alignedPosition + size;
     }
     else
     {
-- 
2.43.0


From 797b0a1345eb276b2a8e3dbff407736b75543b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 15/28] fix: do not overflow when the length of a serialized
 entry is checked

---
 iceoryx_hoofs/utility/include/iox/detail/serialization.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/utility/include/iox/detail/serialization.inl b/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
index 502e1b1..12b87f5 100644
--- a/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
+++ b/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
@@ -121,7 +121,8 @@ inline bool Serialization::removeFirstEntry(std::string& firstEntry, std::string
 
     const auto length = result.value();
 
-    if (remainder.size() < pos + length + 1U)
+    // the sum of position and length could overflow
+    if (length > remainder.size() - pos - 1U)
     {
         return false;
     }
-- 
2.43.0


From 77fcb9086b5eebaaedd9c2eee067620489597b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 16/28] fix: treat text that is no number as an unknown IPC
 error instead of terminating

---
 iceoryx_posh/source/runtime/ipc_interface_base.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iceoryx_posh/source/runtime/ipc_interface_base.cpp b/iceoryx_posh/source/runtime/ipc_interface_base.cpp
index c52f0bd..c9a2bbd 100644
--- a/iceoryx_posh/source/runtime/ipc_interface_base.cpp
+++ b/iceoryx_posh/source/runtime/ipc_interface_base.cpp
@@ -61,6 +61,11 @@ IpcMessageErrorType stringToIpcMessageErrorType(const char* str) noexcept
     UnderlyingType msg;
     auto result = convert::from_string<UnderlyingType>(str);
 
+    if (!result.has_value())
+    {
+        return IpcMessageErrorType::NOTYPE;
+    }
+
     msg = result.value();
 
     if (static_cast<UnderlyingType>(IpcMessageErrorType::BEGIN) >= msg
-- 
2.43.0


From e9e96ea349178b5e48c0e237123cb07625a6e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 17/28] fix: refuse an empty datagram instead of terminating

---
 .../posix/ipc/include/iox/detail/unix_domain_socket.inl        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
index 96df645..b5df325 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
@@ -100,8 +100,9 @@ expected<uint64_t, PosixIpcChannelError> UnixDomainSocket::timedReceiveImpl(
     const auto receivedMsgLength = static_cast<uint64_t>(recvCall->value);
     if constexpr (Terminator == Termination::NULL_TERMINATOR)
     {
+        // an empty datagram has no terminator
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        if (msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)
+        if (receivedMsgLength < NULL_TERMINATOR_SIZE || msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
             msg[0] = 0;
-- 
2.43.0


From 0bcc9f5ab12ec51d4b40de3ce60a49f2af77e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 18/28] fix: refuse registrations with malformed or
 group-addressing process ids

---
 .../iceoryx_posh/internal/roudi/roudi.hpp     |  8 ++--
 iceoryx_posh/source/roudi/roudi.cpp           | 46 +++++++++++++------
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp b/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp
index 41dc6f5..b6d857e 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp
@@ -75,10 +75,10 @@ class RouDi
     virtual void cyclicUpdateHook() noexcept;
     void IpcMessageErrorHandler() noexcept;
 
-    version::VersionInfo parseRegisterMessage(const runtime::IpcMessage& message,
-                                              uint32_t& pid,
-                                              iox_uid_t& userId,
-                                              int64_t& transmissionTimestamp) noexcept;
+    optional<version::VersionInfo> parseRegisterMessage(const runtime::IpcMessage& message,
+                                                        uint32_t& pid,
+                                                        iox_uid_t& userId,
+                                                        int64_t& transmissionTimestamp) noexcept;
 
     /// @brief Handles the registration request from process
     /// @param [in] name of the process which wants to register at roudi; this is equal to the IPC channel name
diff --git a/iceoryx_posh/source/roudi/roudi.cpp b/iceoryx_posh/source/roudi/roudi.cpp
index 651adae..3be3109 100644
--- a/iceoryx_posh/source/roudi/roudi.cpp
+++ b/iceoryx_posh/source/roudi/roudi.cpp
@@ -28,6 +28,8 @@
 #include "iox/std_string_support.hpp"
 #include "iox/thread.hpp"
 
+#include <limits>
+
 namespace iox
 {
 namespace roudi
@@ -268,22 +270,30 @@ void RouDi::processRuntimeMessages(runtime::IpcInterfaceCreator&& roudiIpcInterf
     }
 }
 
-version::VersionInfo RouDi::parseRegisterMessage(const runtime::IpcMessage& message,
-                                                 uint32_t& pid,
-                                                 iox_uid_t& userId,
-                                                 int64_t& transmissionTimestamp) noexcept
+optional<version::VersionInfo> RouDi::parseRegisterMessage(const runtime::IpcMessage& message,
+                                                           uint32_t& pid,
+                                                           iox_uid_t& userId,
+                                                           int64_t& transmissionTimestamp) noexcept
 {
-    convert::from_string<uint32_t>(message.getElementAtIndex(2).c_str()).and_then([&pid](const auto value) {
-        pid = value;
-    });
-    convert::from_string<uint32_t>(message.getElementAtIndex(3).c_str()).and_then([&userId](const auto value) {
-        userId = value;
-    });
-    convert::from_string<int64_t>(message.getElementAtIndex(4).c_str())
-        .and_then([&transmissionTimestamp](const auto value) { transmissionTimestamp = value; });
+    const auto maybePid = convert::from_string<uint32_t>(message.getElementAtIndex(2).c_str());
+    const auto maybeUserId = convert::from_string<uint32_t>(message.getElementAtIndex(3).c_str());
+    const auto maybeTimestamp = convert::from_string<int64_t>(message.getElementAtIndex(4).c_str());
+
+    // the pid is the target for the signals sent on shutdown; '0' and values which become negative when used as 'pid_t'
+    // would address whole process groups
+    if (!maybePid.has_value() || maybePid.value() == 0U
+        || maybePid.value() > static_cast<uint32_t>(std::numeric_limits<int32_t>::max()) || !maybeUserId.has_value()
+        || !maybeTimestamp.has_value())
+    {
+        return nullopt;
+    }
+
+    pid = maybePid.value();
+    userId = maybeUserId.value();
+    transmissionTimestamp = maybeTimestamp.value();
 
     Serialization serializationVersionInfo(message.getElementAtIndex(5));
-    return serializationVersionInfo;
+    return version::VersionInfo(serializationVersionInfo);
 }
 
 void RouDi::processMessage(const runtime::IpcMessage& message,
@@ -321,14 +331,20 @@ void RouDi::processMessage(const runtime::IpcMessage& message,
             uint32_t pid{0U};
             iox_uid_t userId{0};
             int64_t transmissionTimestamp{0};
-            version::VersionInfo versionInfo = parseRegisterMessage(message, pid, userId, transmissionTimestamp);
+            const auto versionInfo = parseRegisterMessage(message, pid, userId, transmissionTimestamp);
+            if (!versionInfo.has_value())
+            {
+                IOX_LOG(Error,
+                        "Invalid parameters for \"IpcMessageType::REG\" from \"" << runtimeName << "\" received!");
+                break;
+            }
 
             registerProcess(runtimeName,
                             pid,
                             PosixUser{userId},
                             transmissionTimestamp,
                             getUniqueSessionIdForProcess(),
-                            versionInfo);
+                            versionInfo.value());
         }
         break;
     }
-- 
2.43.0


From 60245b178e62aa8dbe89a5abbcf55d3d80b12181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 19/28] fix: answer with an error when there is no room for
 another interface port

---
 .../internal/runtime/ipc_interface_base.hpp           |  1 +
 iceoryx_posh/source/roudi/process_manager.cpp         | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_base.hpp b/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_base.hpp
index 9c29a9c..fba350c 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_base.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_base.hpp
@@ -120,6 +120,7 @@ enum class IpcMessageErrorType : int32_t
     NODE_DATA_LIST_FULL,
     SEGMENT_ID_CONVERSION_FAILURE,
     OFFSET_CONVERSION_FAILURE,
+    INTERFACE_LIST_FULL,
     END,
 };
 
diff --git a/iceoryx_posh/source/roudi/process_manager.cpp b/iceoryx_posh/source/roudi/process_manager.cpp
index 48406c5..29d929e 100644
--- a/iceoryx_posh/source/roudi/process_manager.cpp
+++ b/iceoryx_posh/source/roudi/process_manager.cpp
@@ -387,6 +387,17 @@ void ProcessManager::addInterfaceForProcess(const RuntimeName_t& name, capro::In
             // create a ReceiverPort
             popo::InterfacePortData* port = m_portManager.acquireInterfacePortData(commInterface, name);
 
+            if (port == nullptr)
+            {
+                runtime::IpcMessage sendBuffer;
+                sendBuffer << runtime::IpcMessageTypeToString(runtime::IpcMessageType::ERROR_RESPONSE);
+                sendBuffer << runtime::IpcMessageErrorTypeToString(runtime::IpcMessageErrorType::INTERFACE_LIST_FULL);
+                process->sendViaIpcChannel(sendBuffer);
+
+                IOX_LOG(Error, "Could not create interface for application " << name);
+                return;
+            }
+
             // send ReceiverPort to app as a serialized relative pointer
             auto offset = UntypedRelativePointer::getOffset(segment_id_t{m_mgmtSegmentId}, port);
 
-- 
2.43.0


From cebb65b14e0bf7658b53ca7bfcc9b4b0ae59047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 20/28] fix: request the publisher with the corrected options

---
 iceoryx_posh/source/runtime/posh_runtime_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/runtime/posh_runtime_impl.cpp b/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
index d63db25..71f1dfe 100644
--- a/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
+++ b/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
@@ -172,7 +172,7 @@ PoshRuntimeImpl::getMiddlewarePublisher(const capro::ServiceDescription& service
 
     IpcMessage sendBuffer;
     sendBuffer << IpcMessageTypeToString(IpcMessageType::CREATE_PUBLISHER) << m_appName
-               << static_cast<Serialization>(service).toString() << publisherOptions.serialize().toString()
+               << static_cast<Serialization>(service).toString() << options.serialize().toString()
                << static_cast<Serialization>(portConfigInfo).toString();
 
     auto maybePublisher = requestPublisherFromRoudi(sendBuffer);
-- 
2.43.0


From f2ba2016e89150d3880662de649b13e8978fc2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 21/28] fix: let an application open as many segments as RouDi
 may be configured with

---
 iceoryx_posh/source/runtime/shared_memory_user.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/runtime/shared_memory_user.cpp b/iceoryx_posh/source/runtime/shared_memory_user.cpp
index 30cc7e5..2c62919 100644
--- a/iceoryx_posh/source/runtime/shared_memory_user.cpp
+++ b/iceoryx_posh/source/runtime/shared_memory_user.cpp
@@ -59,7 +59,7 @@ SharedMemoryUser::create(const DomainId domainId,
     auto segmentMapping = segmentManager->getSegmentMappings(PosixUser::getUserOfCurrentProcess());
     for (const auto& segment : segmentMapping)
     {
-        if (static_cast<uint32_t>(shmSegments.size()) >= MAX_SHM_SEGMENTS)
+        if (static_cast<uint32_t>(shmSegments.size()) >= NUMBER_OF_ALL_SHM_SEGMENTS)
         {
             return err(SharedMemoryUserError::TOO_MANY_SHM_SEGMENTS);
         }
-- 
2.43.0


From 7f7139e80e12bddd809a58ae306fd23e67c3646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 22/28] fix: ignore the data of outdated registration
 acknowledgements

---
 .../source/runtime/ipc_runtime_interface.cpp   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp b/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp
index 6d6d5eb..45a6f9b 100644
--- a/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp
+++ b/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp
@@ -291,21 +291,21 @@ IpcRuntimeInterface::waitForRegAck(int64_t transmissionTimestamp,
                 }
 
                 // assign conversion results
-                mgmtShmCharacteristics.shmTopicSize = topic_size_result.value();
-                mgmtShmCharacteristics.segmentId = segment_id_result.value();
                 segmentManagerOffset = segment_manager_offset_result.value();
                 receivedTimestamp = recv_timestamp_result.value();
                 heartbeatOffset = heartbeat_offset_result.value();
 
-                mgmtShmCharacteristics.segmentManagerAddressOffset = segmentManagerOffset;
-
-                if (heartbeatOffset != UntypedRelativePointer::NULL_POINTER_OFFSET)
-                {
-                    mgmtShmCharacteristics.heartbeatAddressOffset = heartbeatOffset;
-                }
-
                 if (transmissionTimestamp == receivedTimestamp)
                 {
+                    mgmtShmCharacteristics.shmTopicSize = topic_size_result.value();
+                    mgmtShmCharacteristics.segmentId = segment_id_result.value();
+                    mgmtShmCharacteristics.segmentManagerAddressOffset = segmentManagerOffset;
+
+                    if (heartbeatOffset != UntypedRelativePointer::NULL_POINTER_OFFSET)
+                    {
+                        mgmtShmCharacteristics.heartbeatAddressOffset = heartbeatOffset;
+                    }
+
                     return RegAckResult::SUCCESS;
                 }
                 else
-- 
2.43.0


From 3cc885c1640d9460f4ff255d919976efebcdcaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:28 +0000
Subject: [PATCH 23/28] fix: FileLock lets two processes hold the lock at once

The owner released the lock before it removed the file, so that a second process could lock the file
that was about to vanish and a third one a new file of the same name.
---
 .../posix/filesystem/source/file_lock.cpp     | 97 ++++++++++++-------
 1 file changed, 64 insertions(+), 33 deletions(-)

diff --git a/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp b/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
index 86ed2d7..f28571f 100644
--- a/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
+++ b/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
@@ -55,38 +55,61 @@ expected<FileLock, FileLockError> FileLockBuilder::create() noexcept
     fileLockPath.unsafe_append(m_name);
     fileLockPath.unsafe_append(FileLock::LOCK_FILE_SUFFIX);
 
-    auto openCall = IOX_POSIX_CALL(iox_ext_open)(fileLockPath.c_str(),
-                                                 convertToOflags(AccessMode::ReadOnly, OpenMode::OpenOrCreate),
-                                                 m_permission.value())
-                        .failureReturnValue(-1)
-                        .evaluate();
-
-    if (openCall.has_error())
+    while (true)
     {
-        return err(FileLock::convertErrnoToFileLockError(openCall.error().errnum, fileLockPath));
-    }
+        auto openCall = IOX_POSIX_CALL(iox_ext_open)(fileLockPath.c_str(),
+                                                     convertToOflags(AccessMode::ReadOnly, OpenMode::OpenOrCreate),
+                                                     m_permission.value())
+                            .failureReturnValue(-1)
+                            .evaluate();
 
-    auto fileDescriptor = openCall.value().value;
-    auto lockCall = IOX_POSIX_CALL(iox_flock)(fileDescriptor, static_cast<int>(FileLock::LockOperation::LOCK))
-                        .failureReturnValue(-1)
-                        .suppressErrorMessagesForErrnos(EWOULDBLOCK)
-                        .evaluate();
+        if (openCall.has_error())
+        {
+            return err(FileLock::convertErrnoToFileLockError(openCall.error().errnum, fileLockPath));
+        }
 
-    if (lockCall.has_error())
-    {
-        IOX_POSIX_CALL(iox_ext_close)
-        (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
-            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
-            IOX_LOG(Error,
-                    "Unable to close file lock \"" << fileLockPath
-                                                   << "\" in error related cleanup during initialization.");
-        });
+        auto fileDescriptor = openCall.value().value;
+        auto closeFile = [&] {
+            IOX_POSIX_CALL(iox_ext_close)
+            (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+                IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
+                IOX_LOG(Error,
+                        "Unable to close file lock \"" << fileLockPath
+                                                       << "\" in error related cleanup during initialization.");
+            });
+        };
 
-        //  possible errors in iox_ext_close() are masked and we inform the user about the actual error
-        return err(FileLock::convertErrnoToFileLockError(lockCall.error().errnum, fileLockPath));
-    }
+        auto lockCall = IOX_POSIX_CALL(iox_flock)(fileDescriptor, static_cast<int>(FileLock::LockOperation::LOCK))
+                            .failureReturnValue(-1)
+                            .suppressErrorMessagesForErrnos(EWOULDBLOCK)
+                            .evaluate();
+
+        if (lockCall.has_error())
+        {
+            closeFile();
+            //  possible errors in iox_ext_close() are masked and we inform the user about the actual error
+            return err(FileLock::convertErrnoToFileLockError(lockCall.error().errnum, fileLockPath));
+        }
+
+        // the previous owner removes the file before it releases the lock; if this happened after the file was opened
+        // here, the acquired lock belongs to a file nobody else can find anymore
+        iox_stat fileStatus{};
+        fileStatus.st_nlink = 1;
+        auto statCall = IOX_POSIX_CALL(iox_fstat)(fileDescriptor, &fileStatus).failureReturnValue(-1).evaluate();
 
-    return ok(FileLock(fileDescriptor, fileLockPath));
+        if (statCall.has_error())
+        {
+            closeFile();
+            return err(FileLock::convertErrnoToFileLockError(statCall.error().errnum, fileLockPath));
+        }
+
+        if (fileStatus.st_nlink > 0)
+        {
+            return ok(FileLock(fileDescriptor, fileLockPath));
+        }
+
+        closeFile();
+    }
 }
 
 FileLock::FileLock(const int32_t fileDescriptor, const FilePath_t& path) noexcept
@@ -133,6 +156,11 @@ expected<void, FileLockError> FileLock::closeFileDescriptor() noexcept
     if (m_fd != INVALID_FD)
     {
         bool cleanupFailed = false;
+
+        // must be done before the lock is released since the file might already belong to the next owner afterwards;
+        // platforms which do not remove files in use get a second chance after the file is closed
+        const bool isRemoved = !IOX_POSIX_CALL(remove)(m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().has_error();
+
         IOX_POSIX_CALL(iox_flock)
         (m_fd, static_cast<int>(LockOperation::UNLOCK))
             .failureReturnValue(-1)
@@ -151,12 +179,15 @@ expected<void, FileLockError> FileLock::closeFileDescriptor() noexcept
             IOX_LOG(Error, "Unable to close the file handle to the file lock \"" << m_fileLockPath << '"');
         });
 
-        IOX_POSIX_CALL(remove)
-        (m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
-            cleanupFailed = true;
-            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, m_fileLockPath));
-            IOX_LOG(Error, "Unable to remove the file lock \"" << m_fileLockPath << '"');
-        });
+        if (!isRemoved)
+        {
+            IOX_POSIX_CALL(remove)
+            (m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+                cleanupFailed = true;
+                IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, m_fileLockPath));
+                IOX_LOG(Error, "Unable to remove the file lock \"" << m_fileLockPath << '"');
+            });
+        }
 
         if (cleanupFailed)
         {
-- 
2.43.0


From 32b99f9c1a7f7276c1c05d7d4ab23a150f9ce5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:28 +0000
Subject: [PATCH 24/28] fix: a dying owner of an IPC channel removes the
 channel of its successor

---
 .../iceoryx_posh/internal/runtime/ipc_interface_creator.hpp | 2 ++
 iceoryx_posh/source/runtime/ipc_interface_creator.cpp       | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_creator.hpp b/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_creator.hpp
index 528fc30..cf20a1c 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_creator.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_creator.hpp
@@ -53,6 +53,8 @@ class IpcInterfaceCreator : public IpcInterfaceBase
            const uint64_t maxMessages = ROUDI_MAX_MESSAGES,
            const uint64_t messageSize = ROUDI_MESSAGE_SIZE) noexcept;
 
+    ~IpcInterfaceCreator() noexcept override;
+
     IpcInterfaceCreator(IpcInterfaceCreator&&) noexcept = default;
     IpcInterfaceCreator& operator=(IpcInterfaceCreator&&) noexcept = default;
 
diff --git a/iceoryx_posh/source/runtime/ipc_interface_creator.cpp b/iceoryx_posh/source/runtime/ipc_interface_creator.cpp
index e19613a..c597fac 100644
--- a/iceoryx_posh/source/runtime/ipc_interface_creator.cpp
+++ b/iceoryx_posh/source/runtime/ipc_interface_creator.cpp
@@ -62,5 +62,11 @@ IpcInterfaceCreator::IpcInterfaceCreator(FileLock&& fileLock,
 {
     openIpcChannel(PosixIpcChannelSide::SERVER);
 }
+
+IpcInterfaceCreator::~IpcInterfaceCreator() noexcept
+{
+    // must be gone before the lock is released; otherwise, the channel of the next owner would be removed
+    m_ipcChannel.reset();
+}
 } // namespace runtime
 } // namespace iox
-- 
2.43.0


From 5670b4c246e2e90a79c0887dea6e11d73c8df346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:28 +0000
Subject: [PATCH 25/28] fix: NamedPipe::tryReceive reports an error for a
 message it received

---
 iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
index b9ec600..9fa4168 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
@@ -91,6 +91,7 @@ expected<void, PosixIpcChannelError> NamedPipe::tryReceive(iox::string<N>& messa
         {
             m_data->sendSemaphore().post().expect("'post' on a semaphore should always be successful");
             message = *msg;
+            return ok();
         }
         return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);
     }
-- 
2.43.0


From 4f84ae2d64323a905746845e298bea8051ea2131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:28 +0000
Subject: [PATCH 26/28] fix: process introspection drops a process when all
 process slots are in use

RouDi is in the list besides the MAX_PROCESS_NUMBER applications.
---
 .../internal/roudi/introspection/process_introspection.hpp     | 3 ++-
 .../include/iceoryx_posh/roudi/introspection_types.hpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
index 02966b9..68c9a9f 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
@@ -85,7 +85,8 @@ class ProcessIntrospection
     void send() noexcept;
 
   private:
-    using ProcessList_t = iox::list<ProcessIntrospectionData, MAX_PROCESS_NUMBER>;
+    // RouDi itself is also listed
+    using ProcessList_t = iox::list<ProcessIntrospectionData, MAX_PROCESS_NUMBER + 1>;
     ProcessList_t m_processList;
     bool m_processListNewData{true}; // true because we want to have a valid field, even with an empty list
 
diff --git a/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp b/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp
index 4d3c2ec..b527b22 100644
--- a/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp
@@ -141,7 +141,8 @@ struct ProcessIntrospectionData
 /// @brief the topic for the process introspection that a user can subscribe to
 struct ProcessIntrospectionFieldTopic
 {
-    vector<ProcessIntrospectionData, MAX_PROCESS_NUMBER> m_processList;
+    // RouDi itself is also listed
+    vector<ProcessIntrospectionData, MAX_PROCESS_NUMBER + 1> m_processList;
 };
 
 } // namespace roudi
-- 
2.43.0


From 2f3699e17c667d999d0b266b6890c29f415abec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:28 +0000
Subject: [PATCH 27/28] fix: port introspection is not updated for a new
 subscriber that does not subscribe

---
 .../internal/roudi/introspection/port_introspection.inl          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
index 0165705..4e3c503 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
@@ -348,6 +348,7 @@ inline bool PortIntrospection<PublisherPort, SubscriberPort>::PortData::addSubsc
         }
     }
 
+    setNew(true);
     return true;
 }
 
-- 
2.43.0


From 1d7b3eb09e0cf0f31b71b8bd0c738dd423f442ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:28 +0000
Subject: [PATCH 28/28] fix: an application that waits for RouDi keeps a dead
 RouDi's channel

It never noticed the next RouDi and polled without a pause.
---
 iceoryx_posh/source/runtime/ipc_runtime_interface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp b/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp
index 45a6f9b..0f90224 100644
--- a/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp
+++ b/iceoryx_posh/source/runtime/ipc_runtime_interface.cpp
@@ -113,6 +113,8 @@ expected<IpcRuntimeInterface, IpcRuntimeInterfaceError> IpcRuntimeInterface::cre
             }
             else
             {
+                // the channel might belong to a RouDi which is not running anymore
+                roudiIpcInterface.reopen();
                 regState = RegState::WAIT_FOR_ROUDI;
             }
             break;
-- 
2.43.0

