// C15: the fixed-capacity containers behave like their unbounded models until they are full, whatever was done before.
#include "closure.hpp"
#include "mem.hpp"
#include "iox/fixed_position_container.hpp"
#include "iox/forward_list.hpp"
#include "iox/list.hpp"
#include "iox/stack.hpp"
#include "iox/vector.hpp"
#include <new>

using namespace cl;
using sup::B;

namespace
{
// the reference: a sequence
template <int N>
struct Seq
{
    u32 n;
    u32 v[N + 1];
    void ins(u32 p, u32 x)
    {
        for (u32 i = n; i > p; --i)
            v[i] = v[i - 1];
        v[p] = x;
        ++n;
    }
    void del(u32 p)
    {
        for (u32 i = p; i + 1 < n; ++i)
            v[i] = v[i + 1];
        v[--n] = 0;
    }
    void cut(u32 k)
    {
        while (n > k)
            v[--n] = 0;
    }
    u32 without(u32 x)
    {
        u32 r = 0;
        for (u32 i = 0; i < n;)
            if (v[i] == x)
            {
                del(i);
                ++r;
            }
            else
                ++i;
        return r;
    }
    bool operator==(const Seq& o) const
    {
        if (n != o.n)
            return false;
        for (u32 i = 0; i < n; ++i)
            if (v[i] != o.v[i])
                return false;
        return true;
    }
};
constexpr u32 VALS[] = {1, 2};

template <class C, class T, int N>
struct Base
{
    using Cont = C;
    using Elem = T;
    alignas(64) char mem[2][(sizeof(C) + 63) / 64 * 64];
    Seq<N> r[2];
    C& c(int k) { return *reinterpret_cast<C*>(mem[k]); }
    u64 liveNow() const { return tracked<T>() ? r[0].n + r[1].n : 0; }
    void gone(int k)
    {
        c(k).~C();
        memset(mem[k], 0, sizeof mem[k]);
    }
    // operations every container has
    template <class W>
    static void common(W& w, Cur& o, int nobj)
    {
        for (int k = 0; k < nobj; ++k)
        {
            C& a = w.c(k);
            auto& r = w.r[k];
            if (o("clear", k))
            {
                a.clear();
                r.cut(0);
            }
            if (o("destroy and construct", k))
            {
                w.gone(k);
                r.cut(0);
                CL_CHECK(live == (int64_t)w.liveNow(), "lifetime", "the destructor left elements behind");
                new (w.mem[k]) C();
            }
            if (o("assign itself", k))
            {
                C& x = a;
                a = x;
            }
            if (o("move-assign itself", k))
            {
                C& x = a;
                a = std::move(x);
            }
            int l = 1 - k;
            if (nobj < 2)
                continue;
            if (o("copy-assign to", k))
            {
                C& res = (a = w.c(l));
                CL_CHECK(&res == &a, "assign", "assignment returns another object");
                r = w.r[l];
            }
            if (o("move-assign to", k))
            {
                a = std::move(w.c(l));
                r = w.r[l];
                w.r[l].cut(0);
            }
            if (o("copy-construct", k))
            {
                w.gone(k);
                r.cut(0);
                new (w.mem[k]) C(w.c(l));
                r = w.r[l];
            }
            if (o("move-construct", k))
            {
                w.gone(k);
                r.cut(0);
                new (w.mem[k]) C(std::move(w.c(l)));
                r = w.r[l];
                w.r[l].cut(0);
            }
        }
    }
};

// ---- vector ---------------------------------------------------------------------------------------------------------
template <class T, int N, int K>
struct WVec : Base<iox::vector<T, N>, T, N>
{
    using C = iox::vector<T, N>;
    static void ops(WVec& w, Cur& o)
    {
        Base<C, T, N>::template common<WVec>(w, o, K);
        for (int k = 0; k < K; ++k)
        {
            C& a = w.c(k);
            auto& r = w.r[k];
            const bool full = r.n == N;
            for (u32 v : VALS)
            {
                if (o("push_back copy", k, v))
                {
                    T e{v};
                    CL_CHECK(a.push_back(e) == !full, "full", "push_back answers wrongly");
                    CL_CHECK(val(e) == v, "copy", "push_back changed its source");
                    if (!full)
                        r.ins(r.n, v);
                }
                if (o("push_back move", k, v))
                {
                    T e{v};
                    CL_CHECK(a.push_back(std::move(e)) == !full, "full", "push_back answers wrongly");
                    if (full)
                        CL_CHECK(val(e) == v, "full", "the refused element is lost");
                    if (!full)
                        r.ins(r.n, v);
                }
                if (o("emplace_back", k, v))
                {
                    CL_CHECK(a.emplace_back(v) == !full, "full", "emplace_back answers wrongly");
                    if (!full)
                        r.ins(r.n, v);
                }
                for (u32 p = 0; p <= N + 1; ++p)
                {
                    if (o("emplace at", k * 10 + p, v))
                    {
                        bool can = !full && p <= r.n;
                        CL_CHECK(a.emplace(p, v) == can, "emplace", "emplace at %u of %u answers wrongly", p, r.n);
                        if (can)
                            r.ins(p, v);
                    }
                    if (o("resize", k * 10 + p, v))
                    {
                        bool can = p <= N;
                        CL_CHECK(a.resize(p, v) == can, "resize", "resize to %u answers wrongly", p);
                        if (can)
                        {
                            r.cut(p);
                            while (r.n < p)
                                r.ins(r.n, v);
                        }
                    }
                    if (o("construct with", k * 10 + p, v))
                    {
                        w.gone(k);
                        r.cut(0);
                        T e{v};
                        new (w.mem[k]) C(p, e);
                        while (r.n < p && r.n < N)
                            r.ins(r.n, v);
                    }
                }
            }
            for (u32 p = 0; p <= N + 1; ++p)
            {
                if (o("resize with defaults", k, p))
                {
                    bool can = p <= N;
                    CL_CHECK(a.resize(p) == can, "resize", "resize to %u answers wrongly", p);
                    if (can)
                    {
                        r.cut(p);
                        while (r.n < p)
                            r.ins(r.n, dflt<T>());
                    }
                }
                if (o("construct with defaults", k, p))
                {
                    w.gone(k);
                    r.cut(0);
                    new (w.mem[k]) C(p);
                    while (r.n < p && r.n < N)
                        r.ins(r.n, dflt<T>());
                }
                if (o("erase at", k, p))
                {
                    bool can = p < r.n;
                    CL_CHECK(a.erase(a.begin() + p) == can, "erase", "erase at %u of %u answers wrongly", p, r.n);
                    if (can)
                        r.del(p);
                }
                if (p >= r.n && o("access behind the end", k, p))
                {
                    const C& ca = a;
                    CL_CHECK(panics([&] { (void)a.at(p); }), "bounds", "at(%u) of %u returns", p, r.n);
                    CL_CHECK(panics([&] { (void)ca.at(p); }), "bounds", "at(%u) of %u returns", p, r.n);
                    CL_CHECK(panics([&] { (void)a[p]; }), "bounds", "[%u] of %u returns", p, r.n);
                    CL_CHECK(panics([&] { (void)ca[p]; }), "bounds", "[%u] of %u returns", p, r.n);
                    if (!r.n)
                    {
                        CL_CHECK(panics([&] { (void)a.front(); }) && panics([&] { (void)ca.front(); }), "bounds", "front of an empty vector returns");
                        CL_CHECK(panics([&] { (void)a.back(); }) && panics([&] { (void)ca.back(); }), "bounds", "back of an empty vector returns");
                    }
                }
            }
            if (o("pop_back", k))
            {
                CL_CHECK(a.pop_back() == (r.n > 0), "pop", "pop_back answers wrongly");
                if (r.n)
                    r.del(r.n - 1);
            }
        }
    }
    void check()
    {
        for (int k = 0; k < K; ++k)
        {
            C& a = this->c(k);
            const C& ca = a;
            auto& r = this->r[k];
            CL_CHECK(a.size() == r.n && a.empty() == !r.n && a.capacity() == N, "size", "size %llu instead of %u", (unsigned long long)a.size(), r.n);
            CL_CHECK(a.end() - a.begin() == (long)r.n && ca.end() - ca.begin() == (long)r.n, "iteration", "wrong number of elements");
            u32 i = 0;
            for (auto& e : ca)
            {
                CL_CHECK(val(e) == r.v[i], "content", "element %u is %u instead of %u", i, val(e), r.v[i]);
                CL_CHECK(&e == &a[i] && &e == &ca.at(i) && &e == a.data() + i && &e == ca.data() + i, "access", "element %u is somewhere else", i);
                ++i;
            }
            if (r.n)
                CL_CHECK(&a.front() == a.data() && &a.back() == a.data() + r.n - 1 && &ca.back() == &a.back() && &ca.front() == a.data(), "access", "front or back");
        }
        if (K == 2)
        {
            CL_CHECK((this->c(0) == this->c(1)) == (this->r[0] == this->r[1]), "equality", "== is wrong");
            CL_CHECK((this->c(0) != this->c(1)) == !(this->r[0] == this->r[1]), "equality", "!= is wrong");
        }
    }
};

// ---- list -----------------------------------------------------------------------------------------------------------
template <class T, int N, int K>
struct WList : Base<iox::list<T, N>, T, N>
{
    using C = iox::list<T, N>;
    static void ops(WList& w, Cur& o)
    {
        Base<C, T, N>::template common<WList>(w, o, K);
        for (int k = 0; k < K; ++k)
        {
            C& a = w.c(k);
            auto& r = w.r[k];
            const bool full = r.n == N;
            auto at = [&](u32 p) {
                auto it = a.begin();
                for (u32 i = 0; i < p; ++i)
                    ++it;
                return it;
            };
            for (u32 v : VALS)
            {
                if (o("push_front", k, v))
                {
                    T e{v};
                    CL_CHECK(a.push_front(e) == !full && val(e) == v, "full", "push_front answers wrongly");
                    if (!full)
                        r.ins(0, v);
                }
                if (o("push_front move", k, v))
                {
                    T e{v};
                    CL_CHECK(a.push_front(std::move(e)) == !full, "full", "push_front answers wrongly");
                    CL_CHECK(!full || val(e) == v, "full", "the refused element is lost");
                    if (!full)
                        r.ins(0, v);
                }
                if (o("push_back", k, v))
                {
                    T e{v};
                    CL_CHECK(a.push_back(e) == !full && val(e) == v, "full", "push_back answers wrongly");
                    if (!full)
                        r.ins(r.n, v);
                }
                if (o("push_back move", k, v))
                {
                    T e{v};
                    CL_CHECK(a.push_back(std::move(e)) == !full, "full", "push_back answers wrongly");
                    CL_CHECK(!full || val(e) == v, "full", "the refused element is lost");
                    if (!full)
                        r.ins(r.n, v);
                }
                if (!full && o("emplace_front", k, v))
                {
                    CL_CHECK(val(a.emplace_front(v)) == v, "emplace", "emplace_front returns another element");
                    r.ins(0, v);
                }
                if (!full && o("emplace_back", k, v))
                {
                    CL_CHECK(val(a.emplace_back(v)) == v, "emplace", "emplace_back returns another element");
                    r.ins(r.n, v);
                }
                for (u32 p = 0; p <= r.n; ++p)
                {
                    for (int how = 0; how < 3; ++how)
                        if (o(how == 0 ? "emplace at" : how == 1 ? "insert at" : "insert moved at", k * 10 + p, v))
                        {
                            T e{v};
                            typename C::const_iterator pos = at(p);
                            auto it = how == 0 ? a.emplace(pos, v) : how == 1 ? a.insert(pos, e) : a.insert(pos, std::move(e));
                            if (full)
                                CL_CHECK(it == a.end() && (how == 2 || val(e) == v), "full", "a full list accepts an element");
                            else
                            {
                                CL_CHECK(it != a.end() && val(*it) == v, "insert", "insert returns another element");
                                r.ins(p, v);
                                CL_CHECK(it == at(p), "insert", "the element was not put at position %u", p);
                            }
                        }
                }
                if (o("remove", k, v))
                {
                    T e{v};
                    u32 m = r.without(v);
                    CL_CHECK(a.remove(e) == m, "remove", "remove returns a wrong number");
                }
                if (o("remove_if", k, v))
                {
                    u32 calls = 0, n = r.n;
                    u32 m = r.without(v);
                    CL_CHECK(a.remove_if([&](auto& e) {
                        ++calls;
                        return val(e) == v;
                    }) == m && calls == n,
                             "remove",
                             "remove_if returns a wrong number or asks wrongly often");
                }
            }
            for (u32 p = 0; p < r.n; ++p)
                if (o("erase at", k, p))
                {
                    auto it = a.erase(at(p));
                    r.del(p);
                    CL_CHECK(it == at(p), "erase", "erase returns something else than the next element");
                }
            if (o("pop_front", k))
            {
                CL_CHECK(a.pop_front() == (r.n > 0), "pop", "pop_front answers wrongly");
                if (r.n)
                    r.del(0);
            }
            if (o("pop_back", k))
            {
                CL_CHECK(a.pop_back() == (r.n > 0), "pop", "pop_back answers wrongly");
                if (r.n)
                    r.del(r.n - 1);
            }
            if (o("invalid use", k))
            {
                const C& ca = a;
                if (!r.n)
                {
                    CL_CHECK(panics([&] { (void)a.front(); }) && panics([&] { (void)ca.front(); }), "bounds", "front of an empty list returns");
                    CL_CHECK(panics([&] { (void)a.back(); }) && panics([&] { (void)ca.back(); }), "bounds", "back of an empty list returns");
                }
                CL_CHECK(panics([&] { (void)*a.end(); }) && panics([&] { (void)*ca.end(); }), "bounds", "the end can be dereferenced");
                if (full)
                {
                    CL_CHECK(panics([&] { (void)a.emplace_front(VALS[0]); }), "full", "emplace_front into a full list returns");
                    CL_CHECK(panics([&] { (void)a.emplace_back(VALS[0]); }), "full", "emplace_back into a full list returns");
                }
                if (r.n)
                {
                    // an iterator to an erased element is recognised
                    char save[sizeof w.mem[k]];
                    memcpy(save, w.mem[k], sizeof save);
                    int64_t l = live;
                    auto it = a.begin();
                    a.pop_front();
                    CL_CHECK(panics([&] { (void)*it; }), "stale", "an iterator to an erased element can be dereferenced");
                    CL_CHECK(panics([&] { (void)++it; }), "stale", "an iterator to an erased element can be moved");
                    CL_CHECK(panics([&] { (void)a.erase(it); }), "stale", "an element can be erased twice");
                    memcpy(w.mem[k], save, sizeof save);
                    live = l;
                }
                if (K == 2)
                {
                    CL_CHECK(panics([&] { (void)a.erase(w.c(1 - k).begin()); }), "foreign", "erase with an iterator of another list returns");
                    if (!full)
                        CL_CHECK(panics([&] { (void)a.emplace(w.c(1 - k).begin(), VALS[0]); }), "foreign", "emplace with an iterator of another list returns");
                }
            }
        }
    }
    void check()
    {
        for (int k = 0; k < K; ++k)
        {
            C& a = this->c(k);
            const C& ca = a;
            auto& r = this->r[k];
            CL_CHECK(a.size() == r.n && a.empty() == !r.n && a.full() == (r.n == N) && a.capacity() == N && a.max_size() == N, "size", "size %llu instead of %u",
                     (unsigned long long)a.size(), r.n);
            u32 i = 0;
            auto it = a.begin();
            for (auto ci = ca.begin(); ci != ca.end(); ++ci, ++it, ++i)
            {
                CL_CHECK(i < r.n, "iteration", "more elements than the size says");
                CL_CHECK(val(*ci) == r.v[i] && val(*it) == r.v[i] && it.operator->() == ci.operator->(), "content", "element %u is %u instead of %u", i, val(*ci), r.v[i]);
            }
            CL_CHECK(i == r.n && it == a.end(), "iteration", "fewer elements than the size says");
            while (i > 0)
            {
                --it;
                --i;
                CL_CHECK(val(*it) == r.v[i], "content", "backwards: element %u is wrong", i);
            }
            CL_CHECK(it == a.begin(), "iteration", "backwards: the begin is somewhere else");
            if (r.n)
                CL_CHECK(val(a.front()) == r.v[0] && val(a.back()) == r.v[r.n - 1] && &ca.front() == &a.front() && &ca.back() == &a.back(), "access", "front or back");
        }
    }
};

// ---- forward_list ---------------------------------------------------------------------------------------------------
template <class T, int N, int K>
struct WFwd : Base<iox::forward_list<T, N>, T, N>
{
    using C = iox::forward_list<T, N>;
    static void ops(WFwd& w, Cur& o)
    {
        Base<C, T, N>::template common<WFwd>(w, o, K);
        for (int k = 0; k < K; ++k)
        {
            C& a = w.c(k);
            auto& r = w.r[k];
            const bool full = r.n == N;
            auto before = [&](u32 p) {
                auto it = a.before_begin();
                for (u32 i = 0; i < p; ++i)
                    ++it;
                return it;
            };
            for (u32 v : VALS)
            {
                if (o("push_front", k, v))
                {
                    T e{v};
                    CL_CHECK(a.push_front(e) == !full && val(e) == v, "full", "push_front answers wrongly");
                    if (!full)
                        r.ins(0, v);
                }
                if (o("push_front move", k, v))
                {
                    T e{v};
                    CL_CHECK(a.push_front(std::move(e)) == !full, "full", "push_front answers wrongly");
                    CL_CHECK(!full || val(e) == v, "full", "the refused element is lost");
                    if (!full)
                        r.ins(0, v);
                }
                if (!full && o("emplace_front", k, v))
                {
                    CL_CHECK(val(a.emplace_front(v)) == v, "emplace", "emplace_front returns another element");
                    r.ins(0, v);
                }
                for (u32 p = 0; p <= r.n; ++p)
                    for (int how = 0; how < 3; ++how)
                        if (o(how == 0 ? "emplace_after" : how == 1 ? "insert_after" : "insert_after moved", k * 10 + p, v))
                        {
                            T e{v};
                            typename C::const_iterator pos = before(p);
                            auto it = how == 0 ? a.emplace_after(pos, v) : how == 1 ? a.insert_after(pos, e) : a.insert_after(pos, std::move(e));
                            if (full)
                                CL_CHECK(it == a.end() && (how == 2 || val(e) == v), "full", "a full list accepts an element");
                            else
                            {
                                CL_CHECK(it != a.end() && val(*it) == v, "insert", "insert returns another element");
                                r.ins(p, v);
                                CL_CHECK(it == before(p + 1), "insert", "the element was not put at position %u", p);
                            }
                        }
                if (o("remove", k, v))
                {
                    T e{v};
                    u32 m = r.without(v);
                    CL_CHECK(a.remove(e) == m, "remove", "remove returns a wrong number");
                }
                if (o("remove_if", k, v))
                {
                    u32 calls = 0, n = r.n;
                    u32 m = r.without(v);
                    CL_CHECK(a.remove_if([&](auto& e) {
                        ++calls;
                        return val(e) == v;
                    }) == m && calls == n,
                             "remove",
                             "remove_if returns a wrong number or asks wrongly often");
                }
            }
            for (u32 p = 0; p < r.n; ++p)
                if (o("erase_after", k, p))
                {
                    auto it = a.erase_after(before(p));
                    r.del(p);
                    CL_CHECK(it == before(p + 1), "erase", "erase_after returns something else than the next element");
                }
            if (o("pop_front", k))
            {
                CL_CHECK(a.pop_front() == (r.n > 0), "pop", "pop_front answers wrongly");
                if (r.n)
                    r.del(0);
            }
            if (o("invalid use", k))
            {
                const C& ca = a;
                if (!r.n)
                    CL_CHECK(panics([&] { (void)a.front(); }) && panics([&] { (void)ca.front(); }), "bounds", "front of an empty list returns");
                CL_CHECK(panics([&] { (void)*a.end(); }) && panics([&] { (void)*ca.end(); }), "bounds", "the end can be dereferenced");
                CL_CHECK(panics([&] { (void)*a.before_begin(); }), "bounds", "before_begin can be dereferenced");
                if (full)
                    CL_CHECK(panics([&] { (void)a.emplace_front(VALS[0]); }), "full", "emplace_front into a full list returns");
                if (r.n)
                {
                    char save[sizeof w.mem[k]];
                    memcpy(save, w.mem[k], sizeof save);
                    int64_t l = live;
                    auto it = a.begin();
                    a.pop_front();
                    CL_CHECK(panics([&] { (void)*it; }), "stale", "an iterator to an erased element can be dereferenced");
                    CL_CHECK(panics([&] { (void)++it; }), "stale", "an iterator to an erased element can be moved");
                    CL_CHECK(panics([&] { (void)a.erase_after(it); }), "stale", "erase_after an erased element returns");
                    memcpy(w.mem[k], save, sizeof save);
                    live = l;
                }
                if (K == 2)
                    CL_CHECK(panics([&] { (void)a.erase_after(w.c(1 - k).before_begin()); }), "foreign", "erase with an iterator of another list returns");
            }
        }
    }
    void check()
    {
        for (int k = 0; k < K; ++k)
        {
            C& a = this->c(k);
            const C& ca = a;
            auto& r = this->r[k];
            CL_CHECK(a.size() == r.n && a.empty() == !r.n && a.full() == (r.n == N) && a.capacity() == N && a.max_size() == N, "size", "size %llu instead of %u",
                     (unsigned long long)a.size(), r.n);
            u32 i = 0;
            auto it = a.before_begin();
            ++it;
            CL_CHECK(it == a.begin(), "iteration", "behind before_begin is something else than begin");
            for (auto ci = ca.begin(); ci != ca.end(); ++ci, ++it, ++i)
            {
                CL_CHECK(i < r.n, "iteration", "more elements than the size says");
                CL_CHECK(val(*ci) == r.v[i] && val(*it) == r.v[i] && it.operator->() == ci.operator->(), "content", "element %u is %u instead of %u", i, val(*ci), r.v[i]);
            }
            CL_CHECK(i == r.n && it == a.end(), "iteration", "fewer elements than the size says");
            if (r.n)
                CL_CHECK(val(a.front()) == r.v[0] && &ca.front() == &a.front(), "access", "front");
        }
    }
};

// ---- FixedPositionContainer: the reference is the content of each slot -------------------------------------------------
template <class T, int N, int K>
struct WFix
{
    using C = iox::FixedPositionContainer<T, N>;
    alignas(64) char mem[2][(sizeof(C) + 63) / 64 * 64];
    u32 r[2][N]; // 0: free
    C& c(int k) { return *reinterpret_cast<C*>(mem[k]); }
    u32 count(int k) const
    {
        u32 n = 0;
        for (u32 x : r[k])
            n += x != 0;
        return n;
    }
    u64 liveNow() const { return tracked<T>() ? count(0) + count(1) : 0; }
    void gone(int k)
    {
        c(k).~C();
        memset(mem[k], 0, sizeof mem[k]);
        memset(r[k], 0, sizeof r[k]);
    }
    u32 next(int k, u32 p) const
    {
        for (; p < (u32)N && !r[k][p]; ++p)
            ;
        return p;
    }
    // order is kept; the positions after a copy are whatever the container chose (every position must be valid)
    void adopt(int k, const u32* src)
    {
        u32 vals[N], n = 0;
        for (u32 i = 0; i < (u32)N; ++i)
            if (src[i])
                vals[n++] = src[i];
        memset(r[k], 0, sizeof r[k]);
        u32 i = 0, last = 0;
        C& a = c(k);
        for (auto it = a.begin(); it != a.end(); ++it, ++i)
        {
            CL_CHECK(i < n, "content", "the copy has more elements");
            u32 idx = it.to_index();
            CL_CHECK(idx < (u32)N && (i == 0 || idx > last), "content", "the copy is not in order");
            last = idx;
            r[k][idx] = vals[i];
        }
        CL_CHECK(i == n, "content", "the copy has fewer elements");
    }
    static void ops(WFix& w, Cur& o)
    {
        for (int k = 0; k < K; ++k)
        {
            C& a = w.c(k);
            u32* r = w.r[k];
            const u32 n = w.count(k);
            const bool full = n == N;
            for (u32 v : VALS)
                for (int how = 0; how < 2; ++how)
                    if (o(how ? "insert" : "emplace", k, v))
                    {
                        T e{v};
                        auto it = how ? a.insert(e) : a.emplace(v);
                        CL_CHECK(val(e) == v, "copy", "insert changed its source");
                        if (full)
                            CL_CHECK(it == a.end(), "full", "a full container accepts an element");
                        else
                        {
                            CL_CHECK(it != a.end() && it.to_index() < N && !r[it.to_index()], "insert", "the element was put into a used slot");
                            CL_CHECK(it.origins_from(a) && it.to_ptr() == &*it, "insert", "the iterator is wrong");
                            r[it.to_index()] = v;
                        }
                    }
            for (u32 p = 0; p < (u32)N; ++p)
            {
                if (!r[p])
                {
                    if (o("erase free", k, p))
                    {
                        CL_CHECK(panics([&] { (void)a.erase((typename C::IndexType)p); }), "erase", "a free slot can be erased");
                        CL_CHECK(panics([&] { (void)*a.iter_from_index((typename C::IndexType)p); }), "access", "a free slot can be read");
                    }
                    continue;
                }
                for (int how = 0; how < 4; ++how)
                    if (o(how == 0 ? "erase index" : how == 1 ? "erase pointer" : how == 2 ? "erase iterator" : "erase const_iterator", k, p))
                    {
                        auto ix = (typename C::IndexType)p;
                        u32 got;
                        if (how == 0)
                            got = a.erase(ix).to_index();
                        else if (how == 1)
                            got = a.erase(a.iter_from_index(ix).to_ptr()).to_index();
                        else if (how == 2)
                            got = a.erase(a.iter_from_index(ix)).to_index();
                        else
                        {
                            const C& ca = a;
                            got = a.erase(ca.iter_from_index(ix)).to_index();
                        }
                        r[p] = 0;
                        CL_CHECK(got == w.next(k, p), "erase", "erase returns position %u instead of %u", got, w.next(k, p));
                    }
            }
            if (o("invalid use", k))
            {
                const C& ca = a;
                CL_CHECK(panics([&] { (void)*a.end(); }) && panics([&] { (void)*ca.end(); }), "bounds", "the end can be dereferenced");
                CL_CHECK(panics([&] { (void)a.erase((typename C::IndexType)N); }), "bounds", "erase of a position outside returns");
                CL_CHECK(panics([&] { (void)a.erase(a.end()); }), "bounds", "erase of the end returns");
                CL_CHECK(panics([&] { (void)a.erase((const T*)nullptr); }), "bounds", "erase of nullptr returns");
                alignas(T) static char other[sizeof(T)];
                CL_CHECK(panics([&] { (void)a.erase((const T*)other); }), "bounds", "erase of a foreign pointer returns");
                if (K == 2)
                    CL_CHECK(panics([&] { (void)a.erase(w.c(1 - k).begin()); }), "foreign", "erase with an iterator of another container returns");
            }
            if (o("clear", k))
            {
                a.clear();
                memset(r, 0, sizeof w.r[k]);
            }
            if (o("destroy and construct", k))
            {
                w.gone(k);
                CL_CHECK(live == (int64_t)w.liveNow(), "lifetime", "the destructor left elements behind");
                new (w.mem[k]) C();
            }
            if (o("assign itself", k))
            {
                C& x = a;
                a = x;
            }
            if (o("move-assign itself", k))
            {
                C& x = a;
                a = std::move(x);
            }
            if (K < 2)
                continue;
            int l = 1 - k;
            if (o("copy-assign to", k))
            {
                a = w.c(l);
                w.adopt(k, w.r[l]);
            }
            if (o("move-assign to", k))
            {
                a = std::move(w.c(l));
                w.adopt(k, w.r[l]);
                memset(w.r[l], 0, sizeof w.r[l]);
            }
            if (o("copy-construct", k))
            {
                w.gone(k);
                new (w.mem[k]) C(w.c(l));
                w.adopt(k, w.r[l]);
            }
            if (o("move-construct", k))
            {
                w.gone(k);
                new (w.mem[k]) C(std::move(w.c(l)));
                w.adopt(k, w.r[l]);
                memset(w.r[l], 0, sizeof w.r[l]);
            }
        }
    }
    void check()
    {
        for (int k = 0; k < K; ++k)
        {
            C& a = c(k);
            const C& ca = a;
            u32 n = count(k);
            CL_CHECK(a.size() == n && a.empty() == !n && a.full() == (n == N) && a.capacity() == N, "size", "size %llu instead of %u", (unsigned long long)a.size(), n);
            u32 p = next(k, 0), steps = 0;
            auto ci = ca.begin();
            for (auto it = a.begin(); it != a.end(); ++it, ++ci)
            {
                CL_CHECK(++steps <= n, "iteration", "more elements than the size says");
                CL_CHECK(it.to_index() == p && ci.to_index() == p, "iteration", "position %u instead of %u", (u32)it.to_index(), p);
                CL_CHECK(val(*it) == r[k][p] && it.operator->() == ci.operator->(), "content", "slot %u holds %u instead of %u", p, val(*it), r[k][p]);
                CL_CHECK(a.iter_from_index((typename C::IndexType)p) == it, "access", "iter_from_index finds something else");
                p = next(k, p + 1);
            }
            CL_CHECK(steps == n && ci == ca.end(), "iteration", "fewer elements than the size says");
        }
    }
};

// ---- stack ----------------------------------------------------------------------------------------------------------
template <class T, int N, int K>
struct WStack : Base<iox::stack<T, N>, T, N>
{
    using C = iox::stack<T, N>;
    static void ops(WStack& w, Cur& o)
    {
        Base<C, T, N>::template common<WStack>(w, o, K);
        for (int k = 0; k < K; ++k)
        {
            C& a = w.c(k);
            auto& r = w.r[k];
            const bool full = r.n == N;
            for (u32 v : VALS)
            {
                if (o("push", k, v))
                {
                    CL_CHECK(a.push(v) == !full, "full", "push answers wrongly");
                    if (!full)
                        r.ins(r.n, v);
                }
                if (o("push copy", k, v))
                {
                    T e{v};
                    CL_CHECK(a.push(e) == !full && val(e) == v, "full", "push answers wrongly");
                    if (!full)
                        r.ins(r.n, v);
                }
            }
            if (o("pop", k))
            {
                auto e = a.pop();
                CL_CHECK(e.has_value() == (r.n > 0), "pop", "pop answers wrongly");
                if (e)
                {
                    CL_CHECK(val(*e) == r.v[r.n - 1], "content", "pop returns %u instead of %u", val(*e), r.v[r.n - 1]);
                    r.del(r.n - 1);
                }
            }
        }
    }
    void check()
    {
        for (int k = 0; k < K; ++k)
        {
            CL_CHECK(this->c(k).size() == this->r[k].n && this->c(k).capacity() == N, "size", "size %llu instead of %u", (unsigned long long)this->c(k).size(), this->r[k].n);
            // the content, read from a copy
            C cp(this->c(k));
            for (u32 i = this->r[k].n; i > 0; --i)
            {
                auto e = cp.pop();
                CL_CHECK(e.has_value() && val(*e) == this->r[k].v[i - 1], "content", "element %u is wrong", i - 1);
            }
            CL_CHECK(!cp.pop().has_value(), "content", "more elements than the size says");
        }
    }
};

template <class W>
void run(u64 quick, u64 thorough)
{
    auto* w = static_cast<W*>(mc::raw(sizeof(W), 64));
    memset((void*)w, 0, sizeof(W));
    for (auto& m : w->mem)
        new (m) std::remove_reference_t<decltype(w->c(0))>();
    closure(w, mc::thorough() ? thorough : quick);
}
template <template <class, int, int> class W>
void all()
{
    const u64 q = 1000000, t = 6000000;
    switch (mc::choose(mc::thorough() ? 16 : 12))
    {
    case 0: run<W<E, 3, 2>>(q, t); break;
    case 1: run<W<E, 5, 1>>(q, t); break;
    case 2: run<W<u32, 3, 2>>(q, t); break;
    case 3: run<W<TC, 3, 2>>(q, t); break;
    case 4: run<W<u32, 4, 1>>(q, t); break;
    case 5: run<W<TC, 4, 1>>(q, t); break;
    case 6: run<W<E, 2, 2>>(q, t); break;
    case 7: run<W<u32, 2, 2>>(q, t); break;
    case 8: run<W<TC, 2, 2>>(q, t); break;
    case 9: run<W<E, 1, 2>>(q, t); break;
    case 10: run<W<u32, 1, 2>>(q, t); break;
    case 11: run<W<TC, 1, 2>>(q, t); break;
    case 12: run<W<E, 4, 2>>(q, t); break;
    case 13: run<W<E, 7, 1>>(q, t); break;
    case 14: run<W<u32, 4, 2>>(q, t); break;
    case 15: run<W<TC, 5, 1>>(q, t); break;
    }
}
} // namespace

MC_SCENARIO(vector, B(0, 100), B(0, 1200))
{
    all<WVec>();
}
MC_SCENARIO(list, B(0, 100), B(0, 1200))
{
    all<WList>();
}
MC_SCENARIO(forward_list, B(0, 100), B(0, 1200))
{
    all<WFwd>();
}
MC_SCENARIO(fixed_position, B(0, 100), B(0, 1200))
{
    all<WFix>();
}
MC_SCENARIO(stack, B(0, 100), B(0, 1200))
{
    all<WStack>();
}
