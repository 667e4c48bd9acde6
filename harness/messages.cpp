// What RouDi and the applications say to each other: messages and serialized descriptions survive the way unchanged,
// and every text that is not one is refused. Bounded-exhaustive over texts, values and operation sequences.
#include "mem.hpp"
#include "iceoryx_posh/capro/service_description.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_base.hpp"
#include "iceoryx_posh/internal/runtime/ipc_message.hpp"
#include "iceoryx_posh/popo/client_options.hpp"
#include "iceoryx_posh/popo/publisher_options.hpp"
#include "iceoryx_posh/popo/server_options.hpp"
#include "iceoryx_posh/popo/subscriber_options.hpp"
#include "iceoryx_posh/runtime/port_config_info.hpp"
#include "iceoryx_posh/version/version_info.hpp"
#include "iox/detail/serialization.hpp"
#include "iox/std_string_support.hpp"
#include <string>
#include <string_view>
#include <vector>
using namespace sup;
using iox::Serialization;
using iox::runtime::IpcMessage;
using Str = std::string;

namespace
{
const char* esc(const Str& s)
{
    static char b[4][400];
    static int k = 0;
    char* o = b[k = (k + 1) & 3];
    size_t n = 0;
    for (char c : s.substr(0, 90))
        n += (size_t)snprintf(o + n, 400 - n, c >= 32 && c < 127 ? "%c" : "\\x%02x", (unsigned char)c);
    o[n] = 0;
    return o;
}
bool step()
{
    if (!mc::transition())
    {
        mc::incomplete();
        return false;
    }
    return true;
}
// every text of up to n characters; the first character is a choice so that the work is shared
template <class F>
void texts(const char* alpha, int n, F f)
{
    int k = (int)strlen(alpha);
    int first = mc::choose(k + 1);
    Str s;
    if (first == 0)
    {
        f(s);
        return;
    }
    int idx[24] = {};
    for (int len = 1; len <= n; ++len)
    {
        memset(idx, 0, sizeof idx);
        s.assign((size_t)len, alpha[0]);
        s[0] = alpha[first - 1];
        for (;;)
        {
            if (!step())
                return;
            f(s);
            int p = len - 1;
            while (p > 0 && ++idx[p] == k)
            {
                idx[p] = 0;
                s[(size_t)p] = alpha[0];
                --p;
            }
            if (p == 0)
                break;
            s[(size_t)p] = alpha[idx[p]];
        }
    }
}
// ---- reference ------------------------------------------------------------------------------------------------------
bool refInt(std::string_view t, __int128 lo, __int128 hi, __int128& out)
{
    while (!t.empty() && (t[0] == ' ' || (t[0] >= 9 && t[0] <= 13)))
        t.remove_prefix(1);
    bool neg = false;
    if (!t.empty() && (t[0] == '+' || t[0] == '-'))
    {
        neg = t[0] == '-';
        t.remove_prefix(1);
    }
    if (t.empty() || (neg && lo == 0))
        return false;
    __int128 v = 0;
    for (char c : t)
    {
        if (c < '0' || c > '9')
            return false;
        if (v < ((__int128)1 << 100))
            v = v * 10 + (c - '0');
    }
    if (neg)
        v = -v;
    out = v;
    return v >= lo && v <= hi;
}
template <class T>
bool refVal(const Str& s, T& t)
{
    __int128 v = 0;
    if (!refInt(s, std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), v))
        return false;
    t = (T)v;
    return true;
}
template <uint64_t N>
bool refVal(const Str& s, iox::string<N>& t)
{
    if (s.size() > N)
        return false;
    t = iox::string<N>(iox::TruncateToCapacity, s.c_str());
    return true;
}
// splits off the first entry
bool refFirst(Str& rest, Str& entry)
{
    auto p = rest.find(':');
    if (p == Str::npos)
        return false;
    __int128 len = 0;
    if (!refInt(std::string_view(rest).substr(0, p), 0, (__int128)~0ull, len))
        return false;
    if ((__int128)(rest.size() - p - 1) < len)
        return false;
    entry = rest.substr(p + 1, (size_t)len);
    rest = rest.substr(p + 1 + (size_t)len);
    return true;
}
bool refExtract(const Str& s) { return s.empty(); }
template <class T, class... R>
bool refExtract(const Str& s, T& t, R&... r)
{
    Str rest = s, e;
    return refFirst(rest, e) && refVal(e, t) && refExtract(rest, r...);
}
// ---- serialization --------------------------------------------------------------------------------------------------
void serialTexts(const Str& s)
{
    Serialization x(s);
    using S2 = iox::string<2>;
    auto one = [&](auto a, auto b, const char* what) {
        bool ok = x.extract(a), ref = refExtract(s, b);
        MC_CHECK(ok == ref, "malformed", "\"%s\" is %s as one %s", esc(s), ok ? "accepted" : "refused", what);
        MC_CHECK(!ok || a == b, "value", "\"%s\" is read as another %s", esc(s), what);
    };
    auto two = [&](auto a, auto b, auto c, auto d, const char* what) {
        bool ok = x.extract(a, b), ref = refExtract(s, c, d);
        MC_CHECK(ok == ref, "malformed", "\"%s\" is %s as %s", esc(s), ok ? "accepted" : "refused", what);
        MC_CHECK(!ok || (a == c && b == d), "value", "\"%s\" is read as other values (%s)", esc(s), what);
    };
    one(S2{}, S2{}, "string");
    one(uint16_t{}, uint16_t{}, "number");
    one(int8_t{}, int8_t{}, "signed number");
    two(S2{}, uint64_t{}, S2{}, uint64_t{}, "a string and a number");
    two(S2{}, S2{}, S2{}, S2{}, "two strings");
    two(uint32_t{}, false, uint32_t{}, false, "a number and a flag");
    for (unsigned i = 0; i < 3; ++i)
    {
        S2 a, b;
        Str rest = s, e;
        bool ref = true;
        for (unsigned k = 0; k <= i && ref; ++k)
            ref = refFirst(rest, e);
        ref = ref && refVal(e, b);
        bool ok = x.getNth(i, a);
        MC_CHECK(ok == ref && (!ok || a == b), "nth", "entry %u of \"%s\" is %s", i, esc(s), ok != ref ? (ok ? "accepted" : "refused") : "read wrongly");
    }
}
void serialHuge()
{
    const char* len[] = {"18446744073709551615", "18446744073709551614", "18446744073709551613", "18446744073709551596", "18446744073709551600", "18446744073709551616", "9223372036854775807", "9223372036854775808",
                         "4294967295", "4294967296", "4294967297", "65536", "256", "255", "127", "99999999999999999999999999", "-1", "-18446744073709551615", "0", "00000000000000000000001", "1", "2", "3"};
    const char* rest[] = {"", "a", "ab", "abc", "1:a", "a1:b", "0:", ":", "2:ab1:c", "abcdefghijklmnopqrstuvwxyz"};
    for (auto* l : len)
        for (auto* r : rest)
            for (auto* pre : {"", "1:x", "0:"})
            {
                if (!step())
                    return;
                serialTexts(Str(pre) + l + ":" + r);
            }
}
void serialRound()
{
    using SS = iox::string<8>;
    const char* strs[] = {"", "a", ":", "1:a", "12:", "0", "2:", ",", "a b", "::::", "12345678", "-1", " ", "\n", "\x7f\xff"};
    const uint64_t nums[] = {0, 1, 9, 10, 255, 256, 65535, 65536, 4294967295u, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, ~0ull};
    const int64_t ints[] = {0, 1, -1, 127, -128, INT64_MAX, INT64_MIN, -10};
    for (auto* a : strs)
        for (auto u : nums)
            for (auto i : ints)
                for (auto* b : strs)
                    for (int f = 0; f < 2; ++f)
                    {
                        if (!step())
                            return;
                        SS sa(iox::TruncateToCapacity, a), sb(iox::TruncateToCapacity, b), ra, rb;
                        uint64_t ru = 77;
                        int64_t ri = 77;
                        bool rf = !f;
                        auto s = Serialization::create(sa, u, i, sb, (bool)f);
                        bool ok = s.extract(ra, ru, ri, rb, rf);
                        MC_CHECK(ok && ra == sa && ru == u && ri == i && rb == sb && rf == (bool)f, "round-trip", "\"%s\" does not give back what was put in", esc(s.toString()));
                        MC_CHECK(Serialization(s.toString()).toString() == s.toString(), "round-trip", "text changes");
                        MC_CHECK(s.getNth(3, rb) && rb == sb && s.getNth(1, ru) && ru == u && s.getNth(0, ra) && ra == sa && s.getNth(2, ri) && ri == i, "nth", "entries of \"%s\" are mixed up", esc(s.toString()));
                        SS more;
                        MC_CHECK(!s.getNth(5, more), "nth", "entry 5 of 5");
                        MC_CHECK(!s.extract(ra, ru, ri, rb), "malformed", "\"%s\" accepted with an entry left over", esc(s.toString()));
                        MC_CHECK(!s.extract(ra, ru, ri, rb, rf, more), "malformed", "\"%s\" accepted with an entry missing", esc(s.toString()));
                    }
}
// ---- descriptions ---------------------------------------------------------------------------------------------------
// all texts that differ from a good one by a truncation, a repetition or one changed, inserted or removed character
template <class F>
void damaged(const Str& good, F f)
{
    static const char alpha[] = {'0', '1', '2', '9', ':', 'a', '-', ' '};
    f(good);
    f(good + good);
    for (size_t i = 0; i < good.size(); ++i)
    {
        f(good.substr(0, i));
        f(good.substr(i));
        Str s = good;
        s.erase(i, 1);
        f(s);
        for (char c : alpha)
        {
            s = good;
            s[i] = c;
            f(s);
            s = good;
            s.insert(i, 1, c);
            f(s);
        }
    }
}
const uint64_t CAPS[] = {0, 1, 10, 256, ~0ull};
const char* NAMES[] = {"", "node", ":1:", "a,b", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"};
using QF = iox::popo::QueueFullPolicy;
using TS = iox::popo::ConsumerTooSlowPolicy;
constexpr QF QFS[] = {QF::BLOCK_PRODUCER, QF::DISCARD_OLDEST_DATA};
constexpr TS TSS[] = {TS::WAIT_FOR_CONSUMER, TS::DISCARD_OLDEST_DATA};
iox::NodeName_t node(int i) { return iox::NodeName_t(iox::TruncateToCapacity, NAMES[i]); }
bool refEnum(uint8_t v) { return v < 2; }

void publisherOptions()
{
    using O = iox::popo::PublisherOptions;
    int nm = mc::choose(5);
    for (auto c : CAPS)
        for (auto o : {false, true})
            for (auto p : TSS)
            {
                O x;
                x.historyCapacity = c;
                x.nodeName = node(nm);
                x.offerOnCreate = o;
                x.subscriberTooSlowPolicy = p;
                auto r = O::deserialize(x.serialize());
                MC_CHECK(!r.has_error() && r->historyCapacity == c && r->nodeName == node(nm) && r->offerOnCreate == o && r->subscriberTooSlowPolicy == p, "options", "publisher options do not survive");
                damaged(x.serialize().toString(), [&](const Str& s) {
                    step();
                    O y;
                    uint8_t pol{};
                    bool ref = refExtract(s, y.historyCapacity, y.nodeName, y.offerOnCreate, pol) && refEnum(pol);
                    auto q = O::deserialize(Serialization(s));
                    MC_CHECK(!q.has_error() == ref, "options", "\"%s\" is %s as publisher options", esc(s), ref ? "refused" : "accepted");
                    MC_CHECK(!ref || (q->historyCapacity == y.historyCapacity && q->nodeName == y.nodeName && q->offerOnCreate == y.offerOnCreate && (uint8_t)q->subscriberTooSlowPolicy == pol), "options", "\"%s\" misread", esc(s));
                });
            }
}
void subscriberOptions()
{
    using O = iox::popo::SubscriberOptions;
    int nm = mc::choose(5);
    for (auto c : CAPS)
        for (auto h : CAPS)
            for (int f = 0; f < 4; ++f)
                for (auto p : QFS)
                {
                    O x;
                    x.queueCapacity = c;
                    x.historyRequest = h;
                    x.nodeName = node(nm);
                    x.subscribeOnCreate = f & 1;
                    x.requiresPublisherHistorySupport = f & 2;
                    x.queueFullPolicy = p;
                    auto r = O::deserialize(x.serialize());
                    MC_CHECK(!r.has_error() && r->queueCapacity == c && r->historyRequest == h && r->nodeName == node(nm) && r->subscribeOnCreate == !!(f & 1) && r->requiresPublisherHistorySupport == !!(f & 2) && r->queueFullPolicy == p,
                             "options", "subscriber options do not survive");
                    if (h != c && !mc::thorough())
                        continue;
                    damaged(x.serialize().toString(), [&](const Str& s) {
                        step();
                        O y;
                        uint8_t pol{};
                        bool ref = refExtract(s, y.queueCapacity, y.historyRequest, y.nodeName, y.subscribeOnCreate, pol, y.requiresPublisherHistorySupport) && refEnum(pol);
                        auto q = O::deserialize(Serialization(s));
                        MC_CHECK(!q.has_error() == ref, "options", "\"%s\" is %s as subscriber options", esc(s), ref ? "refused" : "accepted");
                        MC_CHECK(!ref || (q->queueCapacity == y.queueCapacity && q->historyRequest == y.historyRequest && q->nodeName == y.nodeName && q->subscribeOnCreate == y.subscribeOnCreate && (uint8_t)q->queueFullPolicy == pol && q->requiresPublisherHistorySupport == y.requiresPublisherHistorySupport), "options", "\"%s\" misread", esc(s));
                    });
                }
}
template <class O, class Cap, class Flag, class Q, class T>
void rpcOptions(Cap cap, Flag flag, Q qf, T ts, const char* what)
{
    int nm = mc::choose(5);
    std::vector<O> all;
    for (auto c : CAPS)
        for (auto o : {false, true})
            for (auto p : QFS)
                for (auto t : TSS)
                {
                    O x;
                    x.*cap = c;
                    x.nodeName = node(nm);
                    x.*flag = o;
                    x.*qf = p;
                    x.*ts = t;
                    for (auto& z : all)
                        MC_CHECK(!(z == x), "options", "different %s options compare equal", what);
                    all.push_back(x);
                    auto r = O::deserialize(x.serialize());
                    MC_CHECK(!r.has_error() && *r == x && (*r).*cap == c && r->nodeName == node(nm) && (*r).*flag == o && (*r).*qf == p && (*r).*ts == t, "options", "%s options do not survive", what);
                    damaged(x.serialize().toString(), [&](const Str& s) {
                        step();
                        O y;
                        uint8_t a{}, b{};
                        bool ref = refExtract(s, y.*cap, y.nodeName, y.*flag, a, b) && refEnum(a) && refEnum(b);
                        auto q = O::deserialize(Serialization(s));
                        MC_CHECK(!q.has_error() == ref, "options", "\"%s\" is %s as %s options", esc(s), ref ? "refused" : "accepted", what);
                        MC_CHECK(!ref || ((*q).*cap == y.*cap && q->nodeName == y.nodeName && (*q).*flag == y.*flag && (uint8_t)((*q).*qf) == a && (uint8_t)((*q).*ts) == b), "options", "\"%s\" misread", esc(s));
                    });
                }
}
void services()
{
    using SD = iox::capro::ServiceDescription;
    using I = iox::capro::Interfaces;
    static const char* ids[] = {"", "s", ":", "1:a", "a,b", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"};
    int a = mc::choose(6), b = mc::choose(6);
    auto id = [](int k) { return iox::capro::IdString_t(iox::TruncateToCapacity, ids[k]); };
    const uint32_t H[] = {0, 1, ~0u};
    for (int e = 0; e < 6; ++e)
        for (auto h : H)
            for (int i = 0; i < (int)I::INTERFACE_END; ++i)
                {
                    SD x(id(a), id(b), id(e), {h, 2, 3, ~h}, (I)i);
                    auto ser = static_cast<Serialization>(x);
                    auto r = SD::deserialize(ser);
                    MC_CHECK(!r.has_error(), "service", "\"%s\" is refused", esc(ser.toString()));
                    MC_CHECK(r->getServiceIDString() == id(a) && r->getInstanceIDString() == id(b) && r->getEventIDString() == id(e) && r->getClassHash() == x.getClassHash() && r->getClassHash()[0] == h && r->getClassHash()[3] == ~h
                                 && r->getSourceInterface() == (I)i && r->getScope() == x.getScope() && *r == x,
                             "service", "\"%s\" does not give back the service description", esc(ser.toString()));
                    if (!step())
                        return;
                    if (i > 1 && !mc::thorough())
                        continue;
                    if (e > 3 && h != 1)
                        continue;
                    damaged(ser.toString(), [&](const Str& s) {
                        step();
                        iox::capro::IdString_t x1, x2, x3;
                        uint32_t c[4];
                        uint16_t s1{}, s2{};
                        bool ref = refExtract(s, x1, x2, x3, c[0], c[1], c[2], c[3], s1, s2) && s1 < 2 && s2 < (uint16_t)I::INTERFACE_END;
                        auto q = SD::deserialize(Serialization(s));
                        MC_CHECK(!q.has_error() == ref, "service", "\"%s\" is %s as service description", esc(s), ref ? "refused" : "accepted");
                        if (ref)
                            MC_CHECK(q->getServiceIDString() == x1 && q->getInstanceIDString() == x2 && q->getEventIDString() == x3 && q->getClassHash()[0] == c[0] && q->getClassHash()[1] == c[1] && q->getClassHash()[2] == c[2] && q->getClassHash()[3] == c[3]
                                         && (uint16_t)q->getScope() == s1 && (uint16_t)q->getSourceInterface() == s2,
                                     "service", "\"%s\" misread", esc(s));
                    });
                }
}
// equality and order of service descriptions
void serviceOrder()
{
    using SD = iox::capro::ServiceDescription;
    std::vector<SD> v;
    for (auto* a : {"", "a", "ab", "b"})
        for (auto* b : {"", "a", "b"})
            for (auto* c : {"", "a", "aa"})
                for (uint32_t h : {0u, 7u})
                    v.push_back(SD(iox::capro::IdString_t(iox::TruncateToCapacity, a), iox::capro::IdString_t(iox::TruncateToCapacity, b), iox::capro::IdString_t(iox::TruncateToCapacity, c), {h, 0, 0, 0}));
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v.size(); ++j)
        {
            if (!step())
                return;
            bool eq = i / 2 == j / 2; // the class hash does not matter
            MC_CHECK((v[i] == v[j]) == eq && (v[i] != v[j]) == !eq, "service", "equality of service descriptions %d and %d", (int)i, (int)j);
            MC_CHECK((v[i] < v[j]) + (v[j] < v[i]) == !eq, "service", "order of service descriptions %d and %d", (int)i, (int)j);
            bool m = iox::capro::serviceMatch(v[i], v[j]);
            MC_CHECK(m == (v[i].getServiceIDString() == v[j].getServiceIDString()), "service", "service match");
        }
    for (size_t i = 0; i < v.size(); i += 2)
        for (size_t j = 0; j < v.size(); j += 2)
            for (size_t k = 0; k < v.size(); k += 2)
                MC_CHECK(!(v[i] < v[j] && v[j] < v[k]) || v[i] < v[k], "service", "order is not transitive");
}
void portConfig()
{
    using P = iox::runtime::PortConfigInfo;
    const uint32_t V[] = {0, 1, 42, ~0u};
    for (auto a : V)
        for (auto b : V)
            for (auto c : V)
            {
                P x(a, b, c);
                P y(static_cast<Serialization>(x));
                MC_CHECK(x == y && y.portType == a && y.memoryInfo.deviceId == b && y.memoryInfo.memoryType == c, "port-config", "port configuration does not survive");
                MC_CHECK((P(1, 42, 0) == x) == (a == 1 && b == 42 && c == 0), "port-config", "equality");
                damaged(static_cast<Serialization>(x).toString(), [&](const Str& s) {
                    step();
                    P z{Serialization(s)};
                    (void)z;
                });
            }
}
// ---- versions -------------------------------------------------------------------------------------------------------
void versions()
{
    using V = iox::version::VersionInfo;
    using L = iox::version::CompatibilityCheckLevel;
    using BD = iox::version::BuildDateString_t;
    using CI = iox::version::CommitIdString_t;
    struct T
    {
        uint16_t n[4];
        int d, c;
    };
    const char* dates[] = {"2023-01-02T03:04:05Z", "2023-01-02T03:04:06Z"};
    const char* ids[] = {"0123456789ab", "0123456789ac"};
    std::vector<T> all;
    const uint16_t N[] = {1, 2};
    for (auto a : N)
        for (auto b : N)
            for (auto c : N)
                for (auto d : N)
                    for (int x = 0; x < 4; ++x)
                        all.push_back(T{{a, b, c, d}, x & 1, x >> 1});
    all.push_back(T{{0, 0, 0, 0}, 0, 0});
    all.push_back(T{{65535, 65535, 65535, 65535}, 0, 0});
    auto mk = [&](const T& t) { return V(t.n[0], t.n[1], t.n[2], t.n[3], BD(iox::TruncateToCapacity, dates[t.d]), CI(iox::TruncateToCapacity, ids[t.c])); };
    auto same = [&](const T& a, const T& b, int k) {
        for (int i = 0; i < k; ++i)
            if (a.n[i] != b.n[i])
                return false;
        return true;
    };
    size_t i = (size_t)mc::choose((int)all.size());
    V a = mk(all[i]);
    V ra(static_cast<Serialization>(a));
    MC_CHECK(ra == a && ra.isValid(), "version", "version info does not survive");
    auto check = [&](V& p, V& q, const T& b) {
        bool commit = same(all[i], b, 4) && all[i].c == b.c, build = commit && all[i].d == b.d;
        MC_CHECK(p.checkCompatibility(q, L::OFF), "version", "OFF refuses");
        MC_CHECK(p.checkCompatibility(q, L::MAJOR) == same(all[i], b, 1), "version", "MAJOR");
        MC_CHECK(p.checkCompatibility(q, L::MINOR) == same(all[i], b, 2), "version", "MINOR");
        MC_CHECK(p.checkCompatibility(q, L::PATCH) == same(all[i], b, 3), "version", "PATCH");
        MC_CHECK(p.checkCompatibility(q, L::COMMIT_ID) == commit, "version", "COMMIT_ID");
        MC_CHECK(p.checkCompatibility(q, L::BUILD_DATE) == build, "version", "BUILD_DATE");
        MC_CHECK((p == q) == build && (p != q) == !build, "version", "equality");
    };
    for (auto& b : all)
    {
        if (!step())
            return;
        V vb = mk(b), rb(static_cast<Serialization>(vb));
        check(a, vb, b);
        check(a, rb, b);
        check(ra, vb, b);
        check(vb, a, b);
    }
    // a version that cannot be read is compatible with nothing
    damaged(static_cast<Serialization>(a).toString(), [&](const Str& s) {
        step();
        uint16_t n[4];
        iox::string<100> d, c;
        bool ref = refExtract(s, n[0], n[1], n[2], n[3], d, c);
        V v{Serialization(s)};
        MC_CHECK(v.isValid() == ref, "version", "\"%s\" is %s as version", esc(s), ref ? "refused" : "accepted");
        if (!ref)
            for (auto l : {L::MAJOR, L::MINOR, L::PATCH, L::COMMIT_ID, L::BUILD_DATE})
                MC_CHECK(!a.checkCompatibility(v, l) && !v.checkCompatibility(a, l), "version", "the unreadable version \"%s\" is compatible", esc(s));
    });
}
// ---- messages -------------------------------------------------------------------------------------------------------
struct RefMsg
{
    std::vector<Str> e;
    bool valid = true;
    bool known = true; // contents defined
};
void compare(const IpcMessage& m, const RefMsg& r)
{
    MC_CHECK(m.isValid() == r.valid, "message", "the message is %svalid", r.valid ? "not " : "");
    if (!r.known)
        return;
    Str t;
    for (auto& x : r.e)
        t += x + ",";
    MC_CHECK(m.getMessage() == t, "message", "text \"%s\" instead of \"%s\"", esc(m.getMessage()), esc(t));
    MC_CHECK(m.getNumberOfElements() == r.e.size(), "message", "%u elements instead of %d", m.getNumberOfElements(), (int)r.e.size());
    for (uint32_t i = 0; i < r.e.size() + 2; ++i)
        MC_CHECK(m.getElementAtIndex(i) == (i < r.e.size() ? r.e[i] : Str()), "message", "element %u is \"%s\"", i, esc(m.getElementAtIndex(i)));
    if (!r.valid)
        return;
    IpcMessage c(m.getMessage());
    MC_CHECK(c == m && c.isValid() && c.getNumberOfElements() == r.e.size(), "message", "\"%s\" does not survive the transfer", esc(t));
    for (uint32_t i = 0; i < r.e.size(); ++i)
        MC_CHECK(c.getElementAtIndex(i) == r.e[i], "message", "element %u does not survive the transfer", i);
}
void setText(IpcMessage& m, RefMsg& r, const Str& s)
{
    m.setMessage(s);
    r = RefMsg();
    if (!s.empty() && s.back() != ',')
    {
        r.valid = r.known = false;
        return;
    }
    Str cur;
    for (char c : s)
        if (c == ',')
        {
            r.e.push_back(cur);
            cur.clear();
        }
        else
            cur += c;
}
void messageOps(int depth)
{
    IpcMessage m;
    RefMsg r;
    static const char* add[] = {"", "a", "bc", ",", "x,y", "z,", " "};
    static const char* set[] = {"", ",", "a,", "a", "a,b", ",,b,", "a,b,c,"};
    for (int d = 0; d < depth; ++d)
    {
        step();
        int op = mc::choose(18);
        if (op == 0)
            break;
        --op;
        if (op < 7)
        {
            m << Str(add[op]);
            if (Str(add[op]).find(',') != Str::npos)
                r.valid = false;
            else
                r.e.push_back(add[op]);
        }
        else if ((op -= 7) < 7)
            setText(m, r, set[op]);
        else if ((op -= 7) == 0)
        {
            m.clearMessage();
            r = RefMsg();
        }
        else if (op == 1)
        {
            m << -42 << 7u << 'c';
            for (auto* x : {"-42", "7", "c"})
                r.e.push_back(x);
        }
        else
        {
            m = IpcMessage({"k", "l,", "m"});
            r = RefMsg();
            r.e = {"k", "m"};
            r.valid = false;
        }
        compare(m, r);
    }
    compare(m, r);
    IpcMessage copy = m;
    compare(copy, r);
    // (messages are compared by their text)
    MC_CHECK(copy == m, "message", "a copy differs");
}
void typeTexts(const Str& s)
{
    using namespace iox::runtime;
    __int128 v = 0;
    bool num = refInt(s, INT32_MIN, INT32_MAX, v);
    auto t = stringToIpcMessageType(s.c_str());
    bool in = num && v > (int)IpcMessageType::BEGIN && v < (int)IpcMessageType::END;
    MC_CHECK(t == (in ? (IpcMessageType)(int)v : IpcMessageType::NOTYPE), "type", "\"%s\" is read as message type %d", esc(s), (int)t);
    auto e = stringToIpcMessageErrorType(s.c_str());
    in = num && v > (int)IpcMessageErrorType::BEGIN && v < (int)IpcMessageErrorType::END;
    MC_CHECK(e == (in ? (IpcMessageErrorType)(int)v : IpcMessageErrorType::NOTYPE), "type", "\"%s\" is read as error type %d", esc(s), (int)e);
}
void types()
{
    using namespace iox::runtime;
    for (int i = (int)IpcMessageType::NOTYPE; i < (int)IpcMessageType::END; ++i)
        MC_CHECK(stringToIpcMessageType(IpcMessageTypeToString((IpcMessageType)i).c_str()) == (IpcMessageType)i, "type", "message type %d does not survive", i);
    for (int i = (int)IpcMessageErrorType::NOTYPE; i < (int)IpcMessageErrorType::END; ++i)
        MC_CHECK(stringToIpcMessageErrorType(IpcMessageErrorTypeToString((IpcMessageErrorType)i).c_str()) == (IpcMessageErrorType)i, "type", "error type %d does not survive", i);
    for (int i = -70000; i < 70000; ++i)
    {
        step();
        typeTexts(std::to_string(i));
    }
    for (auto* s : {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967298", "18446744073709551618", "99999999999999999999999"})
        typeTexts(s);
}
} // namespace
MC_SCENARIO(serialization_texts, B(0, 90), B(0, 900))
{
    texts("0123:a-", mc::thorough() ? 9 : 8, serialTexts);
}
MC_SCENARIO(serialization_lengths, B(0, 60), B(0, 60)) { serialHuge(); }
MC_SCENARIO(serialization_round_trip, B(0, 60), B(0, 60)) { serialRound(); }
MC_SCENARIO(publisher_options, B(0, 60), B(0, 60)) { publisherOptions(); }
MC_SCENARIO(subscriber_options, B(0, 60), B(0, 200)) { subscriberOptions(); }
MC_SCENARIO(client_options, B(0, 60), B(0, 60))
{
    using O = iox::popo::ClientOptions;
    rpcOptions<O>(&O::responseQueueCapacity, &O::connectOnCreate, &O::responseQueueFullPolicy, &O::serverTooSlowPolicy, "client");
}
MC_SCENARIO(server_options, B(0, 60), B(0, 60))
{
    using O = iox::popo::ServerOptions;
    rpcOptions<O>(&O::requestQueueCapacity, &O::offerOnCreate, &O::requestQueueFullPolicy, &O::clientTooSlowPolicy, "server");
}
MC_SCENARIO(service_descriptions, B(0, 120), B(0, 900)) { services(); }
MC_SCENARIO(service_order, B(0, 60), B(0, 60)) { serviceOrder(); }
MC_SCENARIO(port_config, B(0, 60), B(0, 60)) { portConfig(); }
MC_SCENARIO(version_info, B(0, 60), B(0, 60)) { versions(); }
MC_SCENARIO(message_histories, B(0, 60), B(0, 200)) { messageOps(mc::thorough() ? 6 : 5); }
MC_SCENARIO(message_texts, B(0, 60), B(0, 200))
{
    texts("a,1 ", mc::thorough() ? 11 : 9, [](const Str& s) {
        IpcMessage m;
        RefMsg r;
        setText(m, r, s);
        compare(m, r);
    });
}
MC_SCENARIO(type_texts, B(0, 60), B(0, 200))
{
    texts("0129-+ a", mc::thorough() ? 8 : 7, typeTexts);
}
MC_SCENARIO(type_numbers, B(0, 60), B(0, 60)) { types(); }
