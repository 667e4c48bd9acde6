// C16: optional, expected, variant, function and unique_ptr hold exactly what was put in, whatever the history of copies,
// moves and assignments: every object constructed once and destroyed once, no access to what is not there.
#include "closure.hpp"
#include "mem.hpp"
#include "iox/expected.hpp"
#include "iox/function.hpp"
#include "iox/optional.hpp"
#include "iox/unique_ptr.hpp"
#include "iox/variant.hpp"
#include <new>

using namespace cl;
using sup::B;

namespace
{
// a second tracked type
struct F
{
    u64 pad = 0x5555;
    E e;
    F(u32 x) : e(x) {}
    bool operator==(const F& o) const { return e == o.e; }
    bool operator!=(const F& o) const { return !(e == o.e); }
};
u32 val(const F& f)
{
    CL_CHECK(f.pad == 0x5555, "content", "an object was overwritten");
    return f.e.get();
}
using cl::val;
constexpr u32 VALS[] = {1, 2};
// what an object of these types holds: 0 nothing, else alternative+1 and the value
struct Ref
{
    u32 kind, v;
    bool operator==(const Ref& o) const { return kind == o.kind && (!kind || v == o.v); }
};
template <class C>
struct Base
{
    alignas(64) char mem[2][(sizeof(C) + 63) / 64 * 64];
    Ref r[2];
    C& c(int k) { return *reinterpret_cast<C*>(mem[k]); }
    void gone(int k)
    {
        c(k).~C();
        memset(mem[k], 0, sizeof mem[k]);
        r[k] = {0, 0};
    }
    void fill(int k) { memset(mem[k], 0, sizeof mem[k]); }
};

// ---- optional -------------------------------------------------------------------------------------------------------
template <class T>
struct WOpt : Base<iox::optional<T>>
{
    using C = iox::optional<T>;
    u64 liveNow() const { return tracked<T>() ? (this->r[0].kind != 0) + (this->r[1].kind != 0) : 0; }
    static void ops(WOpt& w, Cur& o)
    {
        for (int k = 0; k < 2; ++k)
        {
            C &a = w.c(k), &b = w.c(1 - k);
            Ref &r = w.r[k], &q = w.r[1 - k];
            for (u32 v : VALS)
            {
                if (o("emplace", k, v))
                {
                    CL_CHECK(val(a.emplace(v)) == v, "emplace", "emplace returns something else");
                    r = {1, v};
                }
                if (o("assign value", k, v))
                {
                    T e{v};
                    a = std::move(e);
                    r = {1, v};
                }
                if (o("construct value", k, v))
                {
                    w.gone(k);
                    T e{v};
                    new (w.mem[k]) C(e);
                    CL_CHECK(val(e) == v, "copy", "the source changed");
                    r = {1, v};
                }
                if (o("construct moved", k, v))
                {
                    w.gone(k);
                    new (w.mem[k]) C(T{v});
                    r = {1, v};
                }
                if (o("construct in place", k, v))
                {
                    w.gone(k);
                    new (w.mem[k]) C(iox::in_place, v);
                    r = {1, v};
                }
                if (o("value_or", k, v))
                {
                    const C& ca = a;
                    T e{v};
                    T x = ca.value_or(e);
                    CL_CHECK(val(x) == (r.kind ? r.v : v), "value_or", "value_or returns something else");
                }
                if (o("moved value_or", k, v))
                {
                    T x = std::move(a).value_or(v);
                    CL_CHECK(val(x) == (r.kind ? r.v : v), "value_or", "value_or returns something else");
                    if (r.kind)
                    {
                        // the value is moved out; put it back for the model
                        a.emplace(r.v);
                    }
                }
            }
            if (o("assign nothing", k))
            {
                a = C(iox::nullopt);
                r = {0, 0};
            }
            if (o("reset", k))
            {
                a.reset();
                r = {0, 0};
            }
            if (o("construct nothing", k))
            {
                w.gone(k);
                new (w.mem[k]) C(iox::nullopt);
            }
            if (o("construct default", k))
            {
                w.gone(k);
                new (w.mem[k]) C();
            }
            if (o("copy-assign", k))
            {
                a = static_cast<const C&>(b);
                r = q;
            }
            if (o("move-assign", k))
            {
                a = std::move(b);
                r = q;
                q = {0, 0};
            }
            if (o("copy-construct", k))
            {
                w.gone(k);
                new (w.mem[k]) C(static_cast<const C&>(b));
                r = q;
            }
            if (o("move-construct", k))
            {
                w.gone(k);
                new (w.mem[k]) C(std::move(b));
                r = q;
                q = {0, 0};
            }
            if (o("assign itself", k))
            {
                const C& x = a;
                a = x;
            }
            if (o("move-assign itself", k))
            {
                C& x = a;
                a = std::move(x);
            }
            if (o("and_then, or_else", k))
            {
                const C& ca = a;
                int n = 0, m = 0;
                a.and_then([&](auto& e) { n += val(e) == r.v ? 1 : 100; }).or_else([&] { ++m; });
                ca.and_then([&](auto& e) { n += val(e) == r.v ? 1 : 100; }).or_else([&] { ++m; });
                CL_CHECK(n == (r.kind ? 2 : 0) && m == (r.kind ? 0 : 2), "functional", "and_then/or_else call the wrong continuation");
            }
            if (o("access", k))
            {
                const C& ca = a;
                if (r.kind)
                {
                    CL_CHECK(&a.value() == &*a && &ca.value() == &*ca && a.operator->() == &*a && &a.expect("x") == &*a && val(*a) == r.v, "access", "value");
                    T x = std::move(a).value();
                    CL_CHECK(val(x) == r.v, "access", "value");
                    *a = T{r.v};
                }
                else
                    CL_CHECK(panics([&] { (void)a.value(); }) && panics([&] { (void)ca.value(); }) && panics([&] { (void)*a; }) && panics([&] { (void)*ca; })
                                 && panics([&] { (void)a.operator->(); }) && panics([&] { (void)a.expect("x"); }),
                             "access",
                             "the value of an empty optional can be read");
            }
        }
    }
    void check()
    {
        for (int k = 0; k < 2; ++k)
        {
            const C& a = this->c(k);
            const Ref& r = this->r[k];
            CL_CHECK(a.has_value() == (r.kind != 0) && static_cast<bool>(a) == (r.kind != 0), "content", "has_value is wrong");
            CL_CHECK((a == iox::nullopt) == !r.kind && (iox::nullopt != a) == (r.kind != 0), "equality", "comparison with nothing is wrong");
            if (r.kind)
                CL_CHECK(val(*a) == r.v, "content", "%u instead of %u", val(*a), r.v);
        }
        CL_CHECK((this->c(0) == this->c(1)) == (this->r[0] == this->r[1]), "equality", "== is wrong");
        CL_CHECK((this->c(0) != this->c(1)) == !(this->r[0] == this->r[1]), "equality", "!= is wrong");
    }
};

// ---- expected -------------------------------------------------------------------------------------------------------
template <class T, class X> // T may be void
struct WExp : Base<iox::expected<T, X>>
{
    using C = iox::expected<T, X>;
    static constexpr bool V = std::is_void<T>::value;
    u64 liveNow() const
    {
        u64 n = 0;
        for (auto& r : this->r)
            n += (r.kind == 1 && !V) || r.kind == 2;
        return n;
    }
    static void ops(WExp& w, Cur& o)
    {
        for (int k = 0; k < 2; ++k)
        {
            C &a = w.c(k), &b = w.c(1 - k);
            Ref &r = w.r[k], &q = w.r[1 - k];
            for (u32 v : VALS)
            {
                if (o("construct value", k, v))
                {
                    w.gone(k);
                    if constexpr (V)
                    {
                        new (w.mem[k]) C(iox::ok());
                        r = {1, 0};
                    }
                    else
                    {
                        T e{v};
                        new (w.mem[k]) C(iox::ok(e));
                        CL_CHECK(val(e) == v, "copy", "the source changed");
                        r = {1, v};
                    }
                }
                if (o("construct value in place", k, v))
                {
                    w.gone(k);
                    if constexpr (V)
                    {
                        new (w.mem[k]) C(iox::in_place);
                        r = {1, 0};
                    }
                    else
                    {
                        new (w.mem[k]) C(iox::in_place, v);
                        r = {1, v};
                    }
                }
                if (o("construct error", k, v))
                {
                    w.gone(k);
                    X e{v};
                    new (w.mem[k]) C(iox::err(e));
                    CL_CHECK(val(e) == v, "copy", "the source changed");
                    r = {2, v};
                }
                if (o("construct error in place", k, v))
                {
                    w.gone(k);
                    new (w.mem[k]) C(iox::unexpect, v);
                    r = {2, v};
                }
                if (o("assign error", k, v))
                {
                    a = iox::err(X{v});
                    r = {2, v};
                }
                if (o("assign value", k, v))
                {
                    if constexpr (V)
                    {
                        a = iox::ok();
                        r = {1, 0};
                    }
                    else
                    {
                        a = iox::ok(T{v});
                        r = {1, v};
                    }
                }
                if constexpr (!V)
                {
                    if (o("value_or", k, v))
                    {
                        const C& ca = a;
                        T x = ca.value_or(v);
                        CL_CHECK(val(x) == (r.kind == 1 ? r.v : v), "value_or", "value_or returns something else");
                    }
                }
            }
            if (o("copy-assign", k))
            {
                a = static_cast<const C&>(b);
                r = q;
            }
            if (o("move-assign", k))
            {
                a = std::move(b);
                r = q;
                if (q.kind == 2 || !V)
                    q.v = MOVED;
            }
            if (o("copy-construct", k))
            {
                w.gone(k);
                new (w.mem[k]) C(static_cast<const C&>(b));
                r = q;
            }
            if (o("move-construct", k))
            {
                w.gone(k);
                new (w.mem[k]) C(std::move(b));
                r = q;
                if (q.kind == 2 || !V)
                    q.v = MOVED;
            }
            if (o("assign itself", k))
            {
                const C& x = a;
                a = x;
            }
            if (o("move-assign itself", k))
            {
                C& x = a;
                a = std::move(x);
            }
            if (o("and_then, or_else", k))
            {
                const C& ca = a;
                int n = 0, m = 0;
                auto err = [&](auto& e) { m += val(e) == r.v ? 1 : 100; };
                if constexpr (V)
                {
                    a.and_then([&] { ++n; }).or_else(err);
                    ca.and_then([&] { ++n; }).or_else(err);
                }
                else
                {
                    auto okf = [&](auto& e) { n += val(e) == r.v ? 1 : 100; };
                    a.and_then(okf).or_else(err);
                    ca.and_then(okf).or_else(err);
                }
                CL_CHECK(n == (r.kind == 1 ? 2 : 0) && m == (r.kind == 1 ? 0 : 2), "functional", "and_then/or_else call the wrong continuation");
            }
            if (o("access", k))
            {
                const C& ca = a;
                if (r.kind == 1)
                {
                    CL_CHECK(panics([&] { (void)a.error(); }) && panics([&] { (void)ca.error(); }), "access", "the error of a success can be read");
                    if constexpr (!V)
                        CL_CHECK(&a.value() == &*a && &ca.value() == &*ca && a.operator->() == &*a && &a.expect("x") == &*a, "access", "value");
                    else
                        a.expect("x");
                }
                else
                {
                    CL_CHECK(&a.error() == &ca.error(), "access", "error");
                    if constexpr (!V)
                        CL_CHECK(panics([&] { (void)a.value(); }) && panics([&] { (void)ca.value(); }) && panics([&] { (void)*a; }) && panics([&] { (void)a.operator->(); })
                                     && panics([&] { (void)*ca; }),
                                 "access",
                                 "the value of an error can be read");
                    CL_CHECK(panics([&] { (void)a.expect("x"); }), "access", "expect of an error returns");
                }
            }
            if (o("convert", k))
            {
                const C& ca = a;
                if constexpr (!V)
                {
                    iox::expected<void, X> x = ca;
                    CL_CHECK(x.has_error() == (r.kind == 2) && (r.kind == 1 || val(x.error()) == r.v), "convert", "the conversion to expected<void> changes the result");
                    auto y = ca.to_optional();
                    CL_CHECK(y.has_value() == (r.kind == 1) && (r.kind == 2 || val(*y) == r.v), "convert", "to_optional changes the result");
                }
            }
        }
    }
    void check()
    {
        for (int k = 0; k < 2; ++k)
        {
            const C& a = this->c(k);
            const Ref& r = this->r[k];
            CL_CHECK(a.has_value() == (r.kind == 1) && a.has_error() == (r.kind == 2) && static_cast<bool>(a) == (r.kind == 1), "content", "has_value is wrong");
            if (r.kind == 2)
                CL_CHECK(val(a.error()) == r.v, "content", "error %u instead of %u", val(a.error()), r.v);
            else if constexpr (!V)
                CL_CHECK(val(a.value()) == r.v, "content", "%u instead of %u", val(a.value()), r.v);
        }
        CL_CHECK((this->c(0) == this->c(1)) == (this->r[0] == this->r[1]), "equality", "== is wrong");
        CL_CHECK((this->c(0) != this->c(1)) == !(this->r[0] == this->r[1]), "equality", "!= is wrong");
    }
};

// ---- variant --------------------------------------------------------------------------------------------------------
struct WVar : Base<iox::variant<E, u32, F>>
{
    using C = iox::variant<E, u32, F>;
    u64 liveNow() const
    {
        u64 n = 0;
        for (auto& x : r)
            n += x.kind == 1 || x.kind == 3;
        return n;
    }
    template <class T>
    static void typed(WVar& w, Cur& o, int k, u32 kind, u32 v)
    {
        C& a = w.c(k);
        Ref& r = w.r[k];
        if (o("emplace", k * 10 + (long)kind, v))
        {
            a.emplace<T>(v);
            r = {kind, v};
        }
        if (o("construct in place", k * 10 + (long)kind, v))
        {
            w.gone(k);
            new (w.mem[k]) C(iox::in_place_type<T>(), v);
            r = {kind, v};
        }
        if (o("construct", k * 10 + (long)kind, v))
        {
            w.gone(k);
            new (w.mem[k]) C(T{v});
            r = {kind, v};
        }
        if (o("assign value", k * 10 + (long)kind, v))
        {
            T e{v};
            a = std::move(e);
            if (r.kind == 0 || r.kind == kind)
                r = {kind, v};
            else
                CL_CHECK(val(e) == v, "assign", "the refused value is lost");
        }
        if (o("get_if", k * 10 + (long)kind, v))
        {
            T e{v};
            T* p = a.get_if<T>(&e);
            CL_CHECK(val(*p) == (r.kind == kind ? r.v : v), "access", "get_if returns something else");
        }
    }
    template <int N>
    static void indexed(WVar& w, Cur& o, int k, u32 v)
    {
        if (o("emplace_at_index", k * 10 + N, v))
        {
            w.c(k).emplace_at_index<N>(v);
            w.r[k] = {N + 1, v};
        }
        if (o("construct at index", k * 10 + N, v))
        {
            w.gone(k);
            new (w.mem[k]) C(iox::in_place_index<N>(), v);
            w.r[k] = {N + 1, v};
        }
    }
    static void ops(WVar& w, Cur& o)
    {
        for (int k = 0; k < 2; ++k)
        {
            C &a = w.c(k), &b = w.c(1 - k);
            Ref &r = w.r[k], &q = w.r[1 - k];
            for (u32 v : VALS)
            {
                typed<E>(w, o, k, 1, v);
                typed<u32>(w, o, k, 2, v);
                typed<F>(w, o, k, 3, v);
                indexed<0>(w, o, k, v);
                indexed<1>(w, o, k, v);
                indexed<2>(w, o, k, v);
            }
            if (o("construct default", k))
            {
                w.gone(k);
                new (w.mem[k]) C();
            }
            if (o("copy-assign", k))
            {
                a = static_cast<const C&>(b);
                r = q;
            }
            if (o("move-assign", k))
            {
                a = std::move(b);
                r = q;
                if (q.kind == 1 || q.kind == 3)
                    q.v = MOVED;
            }
            if (o("copy-construct", k))
            {
                w.gone(k);
                new (w.mem[k]) C(static_cast<const C&>(b));
                r = q;
            }
            if (o("move-construct", k))
            {
                w.gone(k);
                new (w.mem[k]) C(std::move(b));
                r = q;
                if (q.kind == 1 || q.kind == 3)
                    q.v = MOVED;
            }
            if (o("assign itself", k))
            {
                const C& x = a;
                a = x;
            }
            if (o("move-assign itself", k))
            {
                C& x = a;
                a = std::move(x);
            }
        }
    }
    void check()
    {
        for (int k = 0; k < 2; ++k)
        {
            C& a = c(k);
            const C& ca = a;
            const Ref& x = r[k];
            CL_CHECK(a.index() == (x.kind ? x.kind - 1 : iox::INVALID_VARIANT_INDEX), "content", "the index is wrong");
            CL_CHECK((a.get<E>() != nullptr) == (x.kind == 1) && (a.get<u32>() != nullptr) == (x.kind == 2) && (a.get<F>() != nullptr) == (x.kind == 3), "access", "get is wrong");
            CL_CHECK(a.get_at_index<0>() == a.get<E>() && a.get_at_index<1>() == a.get<u32>() && a.get_at_index<2>() == a.get<F>() && ca.get<E>() == a.get<E>(), "access",
                     "get_at_index is wrong");
            CL_CHECK(iox::holds_alternative<E>(a) == (x.kind == 1) && iox::holds_alternative<u32>(a) == (x.kind == 2) && iox::holds_alternative<F>(a) == (x.kind == 3), "access",
                     "holds_alternative is wrong");
            u32 v = x.kind == 1 ? val(*a.get<E>()) : x.kind == 2 ? *a.get<u32>() : x.kind == 3 ? val(*a.get<F>()) : 0;
            if (x.kind)
                CL_CHECK(v == x.v, "content", "%u instead of %u", v, x.v);
        }
        CL_CHECK((c(0) == c(1)) == (r[0] == r[1]), "equality", "== is wrong");
        CL_CHECK((c(0) != c(1)) == !(r[0] == r[1]), "equality", "!= is wrong");
    }
};

// ---- function -------------------------------------------------------------------------------------------------------
u32 free1(u32 x) { return x + 100; }
u32 free2(u32 x) { return x + 200; }
struct Functor
{
    E e;
    u32 operator()(u32 x) const { return e.get() * 1000 + x; }
};
struct alignas(32) Aligned
{
    u64 self;
    E e;
    Aligned(u32 v) : self((u64)this), e(v) {}
    Aligned(const Aligned& o) : self((u64)this), e(o.e) {}
    Aligned(Aligned&& o) : self((u64)this), e(std::move(o.e)) {}
    u32 operator()(u32 x) const
    {
        CL_CHECK(self == (u64)this && self % 32 == 0, "content", "a callable was moved without its move constructor or is not aligned");
        return e.get() * 10000 + x;
    }
};
struct Obj
{
    u32 n;
    u32 method(u32 x) { return n + x; }
    u32 cmethod(u32 x) const { return n + 1 + x; }
};
Obj obj{5000};
struct WFun : Base<iox::function<u32(u32), 96>>
{
    using C = iox::function<u32(u32), 96>;
    // kinds: 1,2 free; 3 functor; 4 aligned; 5 method; 6 const method; 7 lambda; 0 moved-from
    u64 liveNow() const { return (r[0].kind == 3) + (r[0].kind == 4) + (r[1].kind == 3) + (r[1].kind == 4); }
    static u32 expected(const Ref& x, u32 a)
    {
        switch (x.kind)
        {
        case 1: return a + 100;
        case 2: return a + 200;
        case 3: return x.v * 1000 + a;
        case 4: return x.v * 10000 + a;
        case 5: return 5000 + a;
        case 6: return 5001 + a;
        default: return x.v * 7 + a;
        }
    }
    static void ops(WFun& w, Cur& o)
    {
        for (int k = 0; k < 2; ++k)
        {
            C &a = w.c(k), &b = w.c(1 - k);
            Ref &r = w.r[k], &q = w.r[1 - k];
            for (u32 kind = 1; kind <= 7; ++kind)
                for (u32 v : VALS)
                {
                    if (v != 1 && kind != 3 && kind != 4 && kind != 7)
                        continue;
                    if (o("construct", k * 10 + (long)kind, v))
                    {
                        w.gone(k);
                        make(w.mem[k], kind, v);
                        r = {kind, v};
                    }
                    if (o("assign", k * 10 + (long)kind, v))
                    {
                        alignas(64) static char tmp[sizeof(C)];
                        memset(tmp, 0, sizeof tmp);
                        make(tmp, kind, v);
                        a = std::move(*reinterpret_cast<C*>(tmp));
                        reinterpret_cast<C*>(tmp)->~C();
                        r = {kind, v};
                    }
                }
            if (q.kind)
            {
                if (o("copy-assign", k))
                {
                    a = static_cast<const C&>(b);
                    r = q;
                }
                if (o("move-assign", k))
                {
                    a = std::move(b);
                    r = q;
                    q = {0, 0};
                }
                if (o("copy-construct", k))
                {
                    w.gone(k);
                    new (w.mem[k]) C(static_cast<const C&>(b));
                    r = q;
                }
                if (o("move-construct", k))
                {
                    w.gone(k);
                    new (w.mem[k]) C(std::move(b));
                    r = q;
                    q = {0, 0};
                }
                if (r.kind && o("swap", k))
                {
                    a.swap(b);
                    std::swap(r, q);
                }
                if (r.kind && o("free swap", k))
                {
                    iox::swap(a, b);
                    std::swap(r, q);
                }
            }
            if (o("assign itself", k))
            {
                const C& x = a;
                a = x;
            }
            if (o("move-assign itself", k))
            {
                C& x = a;
                a = std::move(x);
            }
        }
    }
    static void make(char* m, u32 kind, u32 v)
    {
        switch (kind)
        {
        case 1: new (m) C(free1); break;
        case 2: new (m) C(&free2); break;
        case 3:
        {
            Functor f{E{v}};
            new (m) C(f);
            break;
        }
        case 4:
        {
            Aligned f{v};
            new (m) C(f);
            break;
        }
        case 5: new (m) C(obj, &Obj::method); break;
        case 6: new (m) C(static_cast<const Obj&>(obj), &Obj::cmethod); break;
        default:
        {
            u64 pad[8] = {v, v, v, v, v, v, v, v};
            auto l = [pad](u32 x) { return (u32)(pad[0] + pad[7] * 6) + x; };
            new (m) C(l);
        }
        }
    }
    void check()
    {
        for (int k = 0; k < 2; ++k)
        {
            if (r[k].kind)
            {
                u32 x = c(k)(3);
                CL_CHECK(x == expected(r[k], 3), "content", "the call returns %u instead of %u", x, expected(r[k], 3));
            }
            else
                CL_CHECK(panics([&] { (void)c(k)(3); }), "moved", "a moved-from function can be called");
        }
    }
};

// ---- unique_ptr -----------------------------------------------------------------------------------------------------
struct WPtr
{
    using C = iox::unique_ptr<E>;
    struct Slot
    {
        alignas(8) char mem[2][(sizeof(C) + 63) / 64 * 64];
    };
    alignas(64) char mem[2][(sizeof(C) + 63) / 64 * 64];
    alignas(8) char objs[3][sizeof(E)];
    u32 own[2];      // object + 1, 0: none (moved-from)
    u32 deleter[2];  // which deleter belongs to it
    u32 released[3]; // nobody owns it, but it is alive
    static WPtr* self;
    static int deletes[3], wrong;
    static u32 usedDeleter;
    C& c(int k) { return *reinterpret_cast<C*>(mem[k]); }
    E* obj(u32 i) { return reinterpret_cast<E*>(objs[i]); }
    bool alive(u32 i) const { return own[0] == i + 1 || own[1] == i + 1 || released[i]; }
    u64 liveNow() const { return alive(0) + alive(1) + alive(2); }
    static void del(E* p, u32 d)
    {
        usedDeleter = d;
        for (u32 i = 0; i < 3; ++i)
            if (p == self->obj(i))
            {
                ++deletes[i];
                p->~E();
                return;
            }
        ++wrong;
    }
    static void make(char* m, u32 i, u32 d, WPtr& w)
    {
        E* e = new (w.objs[i]) E(i + 1);
        if (d == 0)
            new (m) C(e, [](E* p) { del(p, 0); });
        else
            new (m) C(e, [d](E* p) { del(p, d); });
    }
    static void ops(WPtr& w, Cur& o)
    {
        self = &w;
        memset(deletes, 0, sizeof deletes);
        wrong = 0;
        usedDeleter = 99;
        for (int k = 0; k < 2; ++k)
        {
            C &a = w.c(k), &b = w.c(1 - k);
            u32 &r = w.own[k], &q = w.own[1 - k];
            const u32 old = r, oldD = w.deleter[k];
            auto gone = [&](int times = 1) {
                for (u32 i = 0; i < 3; ++i)
                    CL_CHECK(deletes[i] == (old == i + 1 ? times : 0), "delete", "object %u was deleted %d times", i, deletes[i]);
                if (old && times)
                    CL_CHECK(usedDeleter == oldD, "delete", "deleter %u instead of %u was called", usedDeleter, oldD);
            };
            for (u32 i = 0; i < 3; ++i)
            {
                if (w.released[i] && o("user deletes", i))
                {
                    w.obj(i)->~E();
                    w.released[i] = 0;
                }
                for (u32 d = 0; d < 2; ++d)
                    if (!w.alive(i))
                    {
                        if (o("assign new", k * 10 + (long)i, d))
                        {
                            alignas(64) char tmp[sizeof(C)];
                            make(tmp, i, d, w);
                            C& t = *reinterpret_cast<C*>(tmp);
                            a = std::move(t);
                            r = i + 1;
                            w.deleter[k] = d;
                            t.~C();
                            gone();
                        }
                        if (o("destroy, construct", k * 10 + (long)i, d))
                        {
                            a.~C();
                            gone();
                            memset(w.mem[k], 0, sizeof w.mem[k]);
                            make(w.mem[k], i, d, w);
                            r = i + 1;
                            w.deleter[k] = d;
                        }
                    }
            }
            if (q)
            {
                if (o("move-assign", k))
                {
                    a = std::move(b);
                    gone();
                    r = q;
                    w.deleter[k] = w.deleter[1 - k];
                    q = 0;
                    w.deleter[1 - k] = 0;
                }
                if (o("destroy, move-construct", k))
                {
                    a.~C();
                    gone();
                    memset(w.mem[k], 0, sizeof w.mem[k]);
                    new (w.mem[k]) C(std::move(b));
                    r = q;
                    w.deleter[k] = w.deleter[1 - k];
                    q = 0;
                    w.deleter[1 - k] = 0;
                }
                if (r && o("swap", k))
                {
                    a.swap(b);
                    std::swap(r, q);
                    std::swap(w.deleter[0], w.deleter[1]);
                    gone(0);
                }
            }
            if (o("move-assign itself", k))
            {
                C& x = a;
                a = std::move(x);
                for (int d : deletes)
                    CL_CHECK(!d, "delete", "assigning a pointer to itself deletes its object");
            }
            if (r && o("release", k))
            {
                E* p = C::release(std::move(a));
                CL_CHECK(p == w.obj(r - 1), "release", "release returns another object");
                for (int d : deletes)
                    CL_CHECK(!d, "delete", "release deletes the object");
                w.released[r - 1] = 1;
                r = 0;
                w.deleter[k] = 0;
            }
        }
    }
    void check()
    {
        CL_CHECK(!wrong, "delete", "the deleter was called for something else");
        for (int k = 0; k < 2; ++k)
        {
            const C& ca = c(k);
            if (own[k])
            {
                CL_CHECK(c(k).get() == obj(own[k] - 1) && ca.get() == obj(own[k] - 1) && c(k).operator->() == ca.get(), "content", "the pointer is wrong");
                CL_CHECK(val(*c(k).get()) == own[k], "content", "the object is wrong");
            }
            else
                CL_CHECK(ca.get() == nullptr && panics([&] { (void)c(k).operator->(); }), "moved", "a moved-from pointer still points somewhere");
        }
        CL_CHECK((c(0) == c(1)) == (own[0] == own[1]) && (c(0) != c(1)) == (own[0] != own[1]), "equality", "comparison is wrong");
        // padding and unused storage inside the deleters is not part of the state
    }
};
WPtr* WPtr::self;
int WPtr::deletes[3], WPtr::wrong;
u32 WPtr::usedDeleter;
} // namespace

MC_SCENARIO(optional, B(0, 60), B(0, 600))
{
    auto go = [](auto* w) {
        new (w->mem[0]) std::remove_reference_t<decltype(w->c(0))>();
        new (w->mem[1]) std::remove_reference_t<decltype(w->c(0))>();
        closure(w, 200000);
    };
    switch (mc::choose(3))
    {
    case 0: go(static_cast<WOpt<E>*>(mc::raw(sizeof(WOpt<E>)))); break;
    case 1: go(static_cast<WOpt<u32>*>(mc::raw(sizeof(WOpt<u32>)))); break;
    case 2: go(static_cast<WOpt<TC>*>(mc::raw(sizeof(WOpt<TC>)))); break;
    }
}
MC_SCENARIO(expected, B(0, 60), B(0, 600))
{
    auto go = [](auto* w) {
        using C = std::remove_reference_t<decltype(w->c(0))>;
        for (int k = 0; k < 2; ++k)
        {
            new (w->mem[k]) C(iox::unexpect, 1u);
            w->r[k] = {2, 1};
        }
        closure(w, 200000);
    };
    switch (mc::choose(3))
    {
    case 0: go(static_cast<WExp<E, F>*>(mc::raw(sizeof(WExp<E, F>)))); break;
    case 1: go(static_cast<WExp<void, E>*>(mc::raw(sizeof(WExp<void, E>)))); break;
    case 2: go(static_cast<WExp<F, E>*>(mc::raw(sizeof(WExp<F, E>)))); break;
    }
}
MC_SCENARIO(variant, B(0, 60), B(0, 600))
{
    auto* w = static_cast<WVar*>(mc::raw(sizeof(WVar)));
    for (int k = 0; k < 2; ++k)
        new (w->mem[k]) WVar::C();
    closure(w, 200000);
}
MC_SCENARIO(function, B(0, 100), B(0, 600))
{
    auto* w = static_cast<WFun*>(mc::raw(sizeof(WFun)));
    for (int k = 0; k < 2; ++k)
    {
        WFun::make(w->mem[k], 1, 1);
        w->r[k] = {1, 1};
    }
    closure(w, mc::thorough() ? 4000000 : 300000);
}
MC_SCENARIO(unique_ptr, B(0, 100), B(0, 600))
{
    auto* w = static_cast<WPtr*>(mc::raw(sizeof(WPtr)));
    WPtr::make(w->mem[0], 0, 0, *w);
    WPtr::make(w->mem[1], 1, 1, *w);
    w->own[0] = 1;
    w->own[1] = 2;
    w->deleter[1] = 1;
    closure(w, mc::thorough() ? 4000000 : 300000);
}
