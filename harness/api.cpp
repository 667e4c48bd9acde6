// C14: ownership through the user API: loaned, published, taken, moved and dropped samples, requests and responses.
#include "roudi.hpp"
#include "ports.hpp"
#include "iceoryx_posh/popo/client.hpp"
#include "iceoryx_posh/popo/publisher.hpp"
#include "iceoryx_posh/popo/server.hpp"
#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <vector>

using namespace sup;
using mc::choose;

static Fixture* fx;
static constexpr uint32_t CHUNKS = 9;
extern "C" void mc_setup() { fx = new Fixture(2, {{192, CHUNKS}}); }

namespace
{
struct Data
{
    uint64_t a, b;
    Data(uint64_t x = 0)
        : a(x)
        , b(~x)
    {
    }
    bool ok() const { return b == ~a; }
};
struct Head
{
    uint64_t h{0};
};
template <typename H>
struct TPub : PublisherImpl<Data, H>
{
    using B = PublisherImpl<Data, H>;
    explicit TPub(PublisherPortData* d)
        : B(PublisherPortUser(d))
    {
    }
};
template <typename H>
struct TSub : SubscriberImpl<Data, H>
{
    using B = SubscriberImpl<Data, H>;
    explicit TSub(SubscriberPortData* d)
        : B(SubscriberPortUser(d))
    {
    }
};
// reference: every chunk in use has a number; the figures of the pool must equal the number of distinct chunks
struct Ref
{
    int next = 1;
    std::map<int, uint64_t> val;
    std::vector<int> loaned, taken; // slots (0: empty)
    std::vector<std::deque<int>> queue;
    std::deque<int> hist;
    int last = 0;
    size_t histCap = 0;
    std::vector<size_t> cap;
    std::set<int> live() const
    {
        std::set<int> s;
        for (int c : loaned)
            s.insert(c);
        for (int c : taken)
            s.insert(c);
        for (auto& q : queue)
            s.insert(q.begin(), q.end());
        s.insert(hist.begin(), hist.end());
        s.insert(last);
        s.erase(0);
        return s;
    }
    // chunk a loan would use, 0: none
    int alloc(uint32_t limitLoans, bool& tooMany)
    {
        size_t l = 0;
        for (int c : loaned)
            l += c != 0;
        bool reuse = last != 0;
        auto other = [&](int c) { reuse = reuse && c != last; };
        for (int c : loaned)
            other(c);
        for (int c : taken)
            other(c);
        for (auto& q : queue)
            for (int c : q)
                other(c);
        for (int c : hist)
            other(c);
        tooMany = false;
        if (!reuse && live().size() >= CHUNKS)
            return 0;
        if (l >= limitLoans)
        {
            tooMany = true;
            return 0;
        }
        return reuse ? last : next++;
    }
    void publish(int c)
    {
        for (size_t i = 0; i < queue.size(); ++i)
        {
            if (queue[i].size() == cap[i])
                queue[i].pop_front();
            queue[i].push_back(c);
        }
        if (histCap)
        {
            if (hist.size() == histCap)
                hist.pop_front();
            hist.push_back(c);
        }
        last = c;
    }
};
void usage(const Ref& r)
{
    uint32_t u = fx->user->used();
    MC_CHECK(u == r.live().size(), "ownership", "%u chunks in use, %u expected", u, (unsigned)r.live().size());
}

template <typename H>
void pubsub(int depth, uint64_t hist)
{
    auto* pd = fx->pm->acquirePublisherPortData(svc(0), pubOpts(hist, false), app(0), &fx->user->mgr, {}).value();
    auto* sd = fx->pm->acquireSubscriberPortData(svc(0), subOpts(2, 0, false), app(1), {}).value();
    TPub<H> pub(pd);
    TSub<H> sub(sd);
    Ref r;
    using S = iox::popo::Sample<Data, H>;
    using C = iox::popo::Sample<const Data, const H>;
    std::unique_ptr<S> l[2];
    std::unique_ptr<C> t[2];
    r.loaned = {0, 0};
    r.taken = {0, 0};
    r.queue.resize(1);
    r.cap = {2};
    r.histCap = hist;
    uint64_t v = 0;
    constexpr uint32_t MAXL = MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY;
    for (int d = 0; d < depth; ++d)
    {
        int op = choose(12);
        ++v;
        switch (op)
        {
        case 0:
        case 1: { // loan into slot op (what it held before is dropped by the assignment)
            bool many;
            int c = r.alloc(MAXL, many);
            auto s = pub.loan(v);
            MC_CHECK(s.has_error() == (c == 0), "loan", "loan %s", s.has_error() ? "refused" : "succeeded");
            if (c == 0)
                break;
            MC_CHECK((*s)->ok() && (*s)->a == v, "content", "the loaned sample is not constructed");
            r.val[c] = v;
            if (l[op])
                *l[op] = std::move(s.value());
            else
                l[op].reset(new S(std::move(s.value())));
            r.loaned[op] = c;
            break;
        }
        case 2:
        case 3: { // publish by the sample or by the publisher
            auto& s = l[op - 2];
            if (!s)
                mc::prune();
            bool empty = r.loaned[op - 2] == 0;
            MC_CHECK(bool(*s) == !empty, "ownership", "operator bool");
            auto e = errors().count;
            if (op == 2 || empty)
                s->publish();
            else
                pub.publish(std::move(*s));
            MC_CHECK((errors().count > e) == empty, "ownership", "publishing %s sample", empty ? "an empty" : "a valid");
            MC_CHECK(!bool(*s), "ownership", "the sample still owns after publish");
            if (!empty)
                r.publish(r.loaned[op - 2]);
            r.loaned[op - 2] = 0;
            break;
        }
        case 4:
            if (!l[0])
                mc::prune();
            l[0].reset();
            r.loaned[0] = 0;
            break;
        case 5: // move assignment between samples
            if (!l[0] || !l[1])
                mc::prune();
            *l[0] = std::move(*l[1]);
            r.loaned[0] = r.loaned[1];
            r.loaned[1] = 0;
            break;
        case 6: { // copy and result
            bool many;
            int c = r.alloc(MAXL, many);
            bool res = d % 2;
            auto e = res ? pub.publishResultOf([](Data* p, uint64_t x) { new (p) Data(x); }, v) : pub.publishCopyOf(Data(v));
            MC_CHECK(e.has_error() == (c == 0), "loan", "publishCopyOf");
            if (c)
            {
                r.val[c] = v;
                r.publish(c);
            }
            break;
        }
        case 7:
        case 8: { // take into slot
            int k = op - 7;
            auto s = sub.take();
            bool expect = !r.queue[0].empty();
            MC_CHECK(s.has_error() != expect, "take", "take %s", s.has_error() ? "got nothing" : "got something");
            if (!expect)
                break;
            int c = r.queue[0].front();
            r.queue[0].pop_front();
            MC_CHECK((*s)->ok() && (*s)->a == r.val[c], "content", "the taken sample is not the published one");
            if (t[k])
                *t[k] = std::move(s.value());
            else
                t[k].reset(new C(std::move(s.value())));
            r.taken[k] = c;
            break;
        }
        case 9:
            if (!t[0])
                mc::prune();
            t[0].reset();
            r.taken[0] = 0;
            break;
        case 10:
            if (!t[0] || !t[1])
                mc::prune();
            *t[1] = std::move(*t[0]);
            r.taken[1] = r.taken[0];
            r.taken[0] = 0;
            break;
        case 11:
            if (d == 0)
                mc::prune();
            sub.releaseQueuedData();
            r.queue[0].clear();
            break;
        }
        usage(r);
        for (int k = 0; k < 2; ++k)
        {
            if (l[k])
                MC_CHECK(bool(*l[k]) == (r.loaned[k] != 0), "ownership", "loaned sample: wrong emptiness");
            if (r.loaned[k])
                MC_CHECK((*l[k])->ok() && (*l[k])->a == r.val[r.loaned[k]], "content", "a loaned sample changed");
            if (t[k])
                MC_CHECK(bool(*t[k]) == (r.taken[k] != 0), "ownership", "taken sample: wrong emptiness");
            if (r.taken[k])
                MC_CHECK((*t[k])->ok() && (*t[k])->a == r.val[r.taken[k]], "content", "a taken sample changed");
        }
    }
    for (auto& s : l)
        s.reset();
    for (auto& s : t)
        s.reset();
    sub.releaseQueuedData();
    r.loaned = {0, 0};
    r.taken = {0, 0};
    r.queue[0].clear();
    usage(r);
    mc::outcome(r.next);
}
} // namespace
MC_SCENARIO(typed, B(0, 60), B(0, 900)) { pubsub<mepoo::NoUserHeader>(mc::thorough() ? 8 : 7, 0); }
MC_SCENARIO(typed_history, B(0, 60), B(0, 600)) { pubsub<mepoo::NoUserHeader>(mc::thorough() ? 8 : 7, 1); }
MC_SCENARIO(typed_userheader, B(0, 60), B(0, 600)) { pubsub<Head>(mc::thorough() ? 7 : 6, 0); }

// limits: all loans, all takes, exhaustion of the pool, and recovery from it
MC_SCENARIO(limits, B(0, 60), B(0, 600))
{
    uint64_t history = (uint64_t)choose(3);
    auto* pd = fx->pm->acquirePublisherPortData(svc(0), pubOpts(history, false), app(0), &fx->user->mgr, {}).value();
    auto* sd = fx->pm->acquireSubscriberPortData(svc(0), subOpts(4, 0, false), app(1), {}).value();
    TPub<mepoo::NoUserHeader> pub(pd);
    TSub<mepoo::NoUserHeader> sub(sd);
    constexpr uint32_t MAXL = MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY;
    constexpr uint32_t MAXH = MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY + 1; // one more can be taken before one is released
    for (int round = 0; round < 2; ++round)
    {
        {
            std::vector<iox::popo::Sample<Data>> l;
            for (uint32_t i = 0;; ++i)
            {
                auto s = pub.loan((uint64_t)i);
                if (s.has_error())
                {
                    MC_CHECK(i == MAXL && s.error() == AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL, "loan", "%u loans possible, error %d", i, (int)s.error());
                    break;
                }
                l.push_back(std::move(s.value()));
                MC_CHECK(l.size() <= MAXL, "loan", "more loans than allowed");
            }
            // drop one of them: exactly one loan is possible again
            l.erase(l.begin() + choose((int)l.size()));
            auto s = pub.loan(77u);
            MC_CHECK(!s.has_error(), "loan", "a dropped sample does not free its place");
            MC_CHECK(pub.loan(78u).has_error(), "loan", "one loan too many");
            for (auto& x : l)
                if (choose(2))
                    x.publish();
        }
        {
            std::vector<iox::popo::Sample<const Data>> t;
            for (uint64_t i = 0;; ++i)
            {
                if (!sub.hasData())
                    MC_CHECK(!pub.publishCopyOf(Data(i)).has_error(), "loan", "publish");
                auto s = sub.take();
                if (s.has_error())
                {
                    MC_CHECK(t.size() == MAXH && s.error() == ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL, "take", "%u samples can be held, error %d", (unsigned)t.size(),
                             (int)s.error());
                    break;
                }
                t.push_back(std::move(s.value()));
                MC_CHECK(t.size() <= MAXH, "take", "more samples than allowed");
            }
            t.erase(t.begin() + choose((int)t.size()));
            MC_CHECK(!pub.publishCopyOf(Data(1)).has_error(), "loan", "publish");
            MC_CHECK(!sub.take().has_error(), "take", "a dropped sample does not free its place");
        }
        sub.releaseQueuedData();
    }
    MC_CHECK(fx->user->used() == (history ? history : 1), "ownership", "%u chunks in use, the history of %lu and the reuse slot hold %lu", (unsigned)fx->user->used(), (unsigned long)history, (unsigned long)(history ? history : 1));
}

// untyped API: the payload pointer is all the user has
MC_SCENARIO(untyped, B(0, 60), B(0, 600))
{
    struct UPub : UntypedPublisherImpl<>
    {
        explicit UPub(PublisherPortData* d)
            : UntypedPublisherImpl<>(PublisherPortUser(d))
        {
        }
    };
    struct USub : UntypedSubscriberImpl<>
    {
        explicit USub(SubscriberPortData* d)
            : UntypedSubscriberImpl<>(SubscriberPortUser(d))
        {
        }
    };
    auto* pd = fx->pm->acquirePublisherPortData(svc(0), pubOpts(0, false), app(0), &fx->user->mgr, {}).value();
    auto* sd = fx->pm->acquireSubscriberPortData(svc(0), subOpts(2, 0, false), app(1), {}).value();
    UPub pub(pd);
    USub sub(sd);
    Ref r;
    r.loaned = {0, 0};
    r.taken = {0, 0};
    r.queue.resize(1);
    r.cap = {2};
    void* l[2] = {nullptr, nullptr};
    const void* t[2] = {nullptr, nullptr};
    uint64_t v = 0;
    static const uint32_t SZ[3] = {8, 40, 8}, AL[3] = {8, 8, 32}, UH[3] = {0, 16, 8}, UA[3] = {1, 8, 4};
    for (int d = 0; d < (mc::thorough() ? 9 : 7); ++d)
    {
        int op = choose(12);
        ++v;
        if (op < 6)
        {
            int k = op / 3, s = op % 3;
            if (l[k])
                mc::prune();
            bool many;
            int c = r.alloc(MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY, many);
            auto p = pub.loan(SZ[s], AL[s], UH[s], UA[s]);
            MC_CHECK(p.has_error() == (c == 0), "loan", "loan");
            if (!c)
                continue;
            l[k] = p.value();
            auto* h = mepoo::ChunkHeader::fromUserPayload(l[k]);
            MC_CHECK(h->userPayloadSize() == SZ[s] && h->userHeaderSize() == UH[s] && (uintptr_t)l[k] % AL[s] == 0, "loan", "not the requested layout (reused chunk?)");
            memset(l[k], (int)v, SZ[s]);
            if (UH[s])
                memset(h->userHeader(), (int)v, UH[s]);
            r.val[c] = v;
            r.loaned[k] = c;
        }
        else if (op < 8)
        {
            int k = op - 6;
            if (!l[k])
                mc::prune();
            pub.publish(l[k]);
            l[k] = nullptr;
            r.publish(r.loaned[k]);
            r.loaned[k] = 0;
        }
        else if (op == 8)
        {
            if (!l[0])
                mc::prune();
            pub.release(l[0]);
            l[0] = nullptr;
            r.loaned[0] = 0;
        }
        else if (op < 11)
        {
            int k = op - 9;
            if (t[k])
            {
                sub.release(t[k]);
                t[k] = nullptr;
                r.taken[k] = 0;
            }
            auto p = sub.take();
            MC_CHECK(p.has_error() == r.queue[0].empty(), "take", "take");
            if (p.has_error())
                continue;
            t[k] = p.value();
            int c = r.queue[0].front();
            r.queue[0].pop_front();
            r.taken[k] = c;
        }
        else
        {
            if (!t[0])
                mc::prune();
            sub.release(t[0]);
            t[0] = nullptr;
            r.taken[0] = 0;
        }
        usage(r);
        for (int k = 0; k < 2; ++k)
            for (const void* p : {(const void*)l[k], t[k]})
                if (p)
                {
                    auto* h = mepoo::ChunkHeader::fromUserPayload(p);
                    uint64_t want = r.val[p == l[k] ? r.loaned[k] : r.taken[k]];
                    for (uint64_t i = 0; i < h->userPayloadSize(); ++i)
                        MC_CHECK(((const uint8_t*)p)[i] == (uint8_t)want, "content", "payload changed");
                    for (uint64_t i = 0; i < h->userHeaderSize(); ++i)
                        MC_CHECK(((const uint8_t*)h->userHeader())[i] == (uint8_t)want, "content", "user header changed");
                }
    }
    mc::outcome(r.next);
}

// requests and responses: loaned, sent, taken, moved, dropped, in any order, also without a connection
MC_SCENARIO(request_response, B(0, 60), B(0, 900))
{
    struct TClient : ClientImpl<Data, Data>
    {
        explicit TClient(ClientPortData& d)
            : ClientImpl<Data, Data>(ClientPortUser(d))
        {
        }
    };
    struct TServer : ServerImpl<Data, Data>
    {
        explicit TServer(ServerPortData& d)
            : ServerImpl<Data, Data>(ServerPortUser(d))
        {
        }
    };
    ServerOptions so;
    so.requestQueueCapacity = 2;
    ClientOptions co;
    co.responseQueueCapacity = 2;
    auto* sp = fx->pm->acquireServerPortData(svc(1), so, app(0), &fx->user->mgr, {}).value();
    auto* cp = fx->pm->acquireClientPortData(svc(1), co, app(1), &fx->user->mgr, {}).value();
    TServer server(*sp);
    TClient client(*cp);
    bool offered = true;
    fx->pm->doDiscovery();
    std::unique_ptr<Request<Data>> req;
    std::unique_ptr<Request<const Data>> got[2];
    std::unique_ptr<Response<Data>> res;
    std::unique_ptr<Response<const Data>> ans;
    // reference
    int next = 1;
    std::map<int, uint64_t> val;
    std::deque<int> rq, aq;
    int vReq = 0, vGot[2] = {0, 0}, vRes = 0, vAns = 0, lastC = 0, lastS = 0;
    auto live = [&] {
        std::set<int> s(rq.begin(), rq.end());
        s.insert(aq.begin(), aq.end());
        for (int x : {vReq, vGot[0], vGot[1], vRes, vAns, lastC, lastS})
            s.insert(x);
        s.erase(0);
        return s;
    };
    auto owners = [&](int c) {
        int n = 0;
        for (int x : rq)
            n += x == c;
        for (int x : aq)
            n += x == c;
        for (int x : {vReq, vGot[0], vGot[1], vRes, vAns, lastC, lastS})
            n += x == c;
        return n;
    };
    uint64_t v = 0;
    for (int d = 0; d < (mc::thorough() ? 10 : 8); ++d)
    {
        int op = choose(11);
        ++v;
        switch (op)
        {
        case 0: {
            auto r = client.loan(v);
            MC_CHECK(!r.has_error(), "loan", "no request available");
            int c = lastC && owners(lastC) == 1 ? lastC : next++;
            val[c] = v;
            if (req)
                *req = std::move(r.value());
            else
                req.reset(new Request<Data>(std::move(r.value())));
            vReq = c;
            break;
        }
        case 1: {
            if (!req)
                mc::prune();
            auto r = req->send();
            if (vReq == 0)
                MC_CHECK(r.has_error() && r.error() == ClientSendError::INVALID_REQUEST, "send", "an empty request was sent");
            else if (!offered)
            {
                MC_CHECK(r.has_error() && r.error() == ClientSendError::SERVER_NOT_AVAILABLE, "send", "request without server");
                lastC = vReq; // kept for the next loan
            }
            else
            {
                MC_CHECK(!r.has_error(), "send", "request not sent");
                if (rq.size() == 2)
                    rq.pop_front();
                rq.push_back(vReq);
                lastC = vReq;
            }
            vReq = 0;
            break;
        }
        case 2:
            if (!req)
                mc::prune();
            req.reset();
            vReq = 0;
            break;
        case 3:
        case 4: {
            int k = op - 3;
            auto r = server.take();
            MC_CHECK(r.has_error() == rq.empty(), "take", "server.take");
            if (r.has_error())
                break;
            int c = rq.front();
            rq.pop_front();
            MC_CHECK((*r)->ok() && (*r)->a == val[c], "content", "request content");
            if (got[k])
                *got[k] = std::move(r.value());
            else
                got[k].reset(new Request<const Data>(std::move(r.value())));
            vGot[k] = c;
            break;
        }
        case 5:
            if (!got[0])
                mc::prune();
            got[0].reset();
            vGot[0] = 0;
            break;
        case 6: {
            int k = vGot[0] ? 0 : 1;
            if (!vGot[k])
                mc::prune();
            auto r = server.loan(*got[k], v);
            MC_CHECK(!r.has_error(), "loan", "no response available");
            int c = lastS && owners(lastS) == 1 ? lastS : next++;
            val[c] = v;
            if (res)
                *res = std::move(r.value());
            else
                res.reset(new Response<Data>(std::move(r.value())));
            vRes = c;
            break;
        }
        case 7: {
            if (!res)
                mc::prune();
            auto r = res->send();
            if (vRes == 0)
                MC_CHECK(r.has_error() && r.error() == ServerSendError::INVALID_RESPONSE, "send", "an empty response was sent");
            else if (!offered)
                MC_CHECK(r.has_error() && r.error() == ServerSendError::NOT_OFFERED, "send", "response without offer");
            else
            {
                MC_CHECK(!r.has_error(), "send", "response not sent");
                if (aq.size() == 2)
                    aq.pop_front();
                aq.push_back(vRes);
                lastS = vRes;
            }
            vRes = 0;
            break;
        }
        case 8: {
            auto r = client.take();
            MC_CHECK(r.has_error() == aq.empty(), "take", "client.take");
            if (r.has_error())
                break;
            int c = aq.front();
            aq.pop_front();
            MC_CHECK((*r)->ok() && (*r)->a == val[c], "content", "response content");
            if (ans)
                *ans = std::move(r.value());
            else
                ans.reset(new Response<const Data>(std::move(r.value())));
            vAns = c;
            break;
        }
        case 9:
            if (!res)
                mc::prune();
            res.reset();
            vRes = 0;
            break;
        case 10:
            offered ? server.stopOffer() : server.offer();
            fx->pm->doDiscovery();
            offered = !offered;
            break;
        }
        uint32_t u = fx->user->used();
        MC_CHECK(u == live().size(), "ownership", "%u chunks in use, %u expected", u, (unsigned)live().size());
        if (vGot[0])
            MC_CHECK((*got[0])->a == val[vGot[0]], "content", "a held request changed");
        if (vAns)
            MC_CHECK((*ans)->a == val[vAns], "content", "a held response changed");
    }
    mc::outcome(live().size());
}
