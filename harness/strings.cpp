// C17: the bounded string types: iox::string against a reference for every history of operations, the semantic strings
// (file and path names, user and group names) never hold or accept anything that violates their rules, conversions of text
// to numbers accept exactly what fits, durations saturate.
#include "closure.hpp"
#include "mem.hpp"
#include "iox/detail/convert.hpp"
#include "iox/detail/path_and_file_verifier.hpp"
#include "iox/duration.hpp"
#include "iox/file_name.hpp"
#include "iox/file_path.hpp"
#include "iox/group_name.hpp"
#include "iox/path.hpp"
#include "iox/std_string_support.hpp"
#include "iox/string.hpp"
#include "iox/user_name.hpp"
#include <charconv>
#include <new>
#include <string_view>

using namespace cl;
using sup::B;

namespace
{
constexpr char ALPHA[] = {'a', '\xff'};
constexpr u64 CAP[2] = {3, 5};

// reference: bytes and length
struct Txt
{
    u64 n;
    char c[16];
    std::string_view sv() const { return {c, (size_t)n}; }
    void set(std::string_view s)
    {
        memset(c, 0, sizeof c);
        n = s.size();
        memcpy(c, s.data(), s.size());
    }
};
// enumerates all texts of at most maxLen letters
template <class F>
void texts(int maxLen, const char* alphabet, int letters, F&& f)
{
    char b[16];
    for (int len = 0; len <= maxLen; ++len)
    {
        int idx[16] = {};
        for (;;)
        {
            for (int i = 0; i < len; ++i)
                b[i] = alphabet[idx[i]];
            b[len] = 0;
            f(std::string_view(b, (size_t)len));
            int k = len - 1;
            while (k >= 0 && ++idx[k] == letters)
                idx[k--] = 0;
            if (k < 0)
                break;
        }
    }
}
// operations which do not depend on the state, skipped as a whole when another one is wanted
template <class F>
void group(Cur& o, int key, F&& f)
{
    static int size[4096];
    if (size[key] && (o.want < o.at || o.want >= o.at + size[key]))
    {
        o.at += size[key];
        return;
    }
    int b = o.at;
    f();
    size[key] = o.at - b;
}
int sgn(int64_t x) { return x < 0 ? -1 : x > 0; }

struct WStr
{
    u64 g0;
    alignas(8) char m3[sizeof(iox::string<3>)];
    u64 g1;
    alignas(8) char m5[sizeof(iox::string<5>)];
    u64 g2;
    Txt r[2];
    iox::string<3>& a() { return *reinterpret_cast<iox::string<3>*>(m3); }
    iox::string<5>& b() { return *reinterpret_cast<iox::string<5>*>(m5); }
    u64 liveNow() const { return 0; }
    template <class S>
    void same(S& s, const Txt& t, const char* which)
    {
        CL_CHECK(s.size() == t.n && s.empty() == (t.n == 0), "size", "%s has size %lu instead of %lu", which, (unsigned long)s.size(), (unsigned long)t.n);
        CL_CHECK(!memcmp(s.c_str(), t.c, t.n), "content", "%s has the wrong content", which);
        CL_CHECK(s.c_str()[s.size()] == 0, "terminator", "%s is not terminated", which);
    }
    void check()
    {
        CL_CHECK(g0 == 0x1111 && g1 == 0x2222 && g2 == 0x3333, "overrun", "a string wrote outside of its storage");
        same(a(), r[0], "string<3>");
        same(b(), r[1], "string<5>");
        // what is behind the terminator is not part of the value: something that would show if it were used
        memset(const_cast<char*>(a().c_str()) + r[0].n + 1, 'a', CAP[0] - r[0].n);
        memset(const_cast<char*>(b().c_str()) + r[1].n + 1, 'a', CAP[1] - r[1].n);
        const auto &x = a();
        const auto& y = b();
        int c = sgn(r[0].sv().compare(r[1].sv()));
        CL_CHECK(sgn(x.compare(y)) == c && sgn(y.compare(x)) == -c, "compare", "compare is wrong");
        CL_CHECK((x == y) == (c == 0) && (x != y) == (c != 0) && (x < y) == (c < 0) && (x <= y) == (c <= 0) && (x > y) == (c > 0) && (x >= y) == (c >= 0), "compare",
                 "a comparison operator is wrong");
        CL_CHECK((y == x) == (c == 0) && (y != x) == (c != 0) && (y < x) == (c > 0) && (y <= x) == (c >= 0) && (y > x) == (c < 0) && (y >= x) == (c <= 0), "compare",
                 "a comparison operator is wrong");
        auto j = iox::concatenate(x, y);
        Txt t;
        char buf[16];
        memcpy(buf, r[0].c, r[0].n);
        memcpy(buf + r[0].n, r[1].c, r[1].n);
        t.set({buf, (size_t)(r[0].n + r[1].n)});
        same(j, t, "concatenation");
        auto k = x + y;
        same(k, t, "operator+");
        for (u64 pos = 0; pos <= 4; ++pos)
        {
            auto s = x.substr(pos);
            CL_CHECK(s.has_value() == (pos <= r[0].n), "substr", "substr(%lu) of %lu characters", (unsigned long)pos, (unsigned long)r[0].n);
            if (s)
            {
                Txt q;
                q.set(r[0].sv().substr(pos));
                same(*s, q, "substr");
            }
            bool in = pos < r[0].n;
            CL_CHECK(panics([&] { (void)x.at(pos); }) == !in && panics([&] { (void)a()[pos]; }) == !in, "bounds", "at(%lu) of %lu characters", (unsigned long)pos, (unsigned long)r[0].n);
            if (in)
                CL_CHECK(x.at(pos) == r[0].c[pos] && x[pos] == r[0].c[pos] && x.unchecked_at(pos) == r[0].c[pos], "content", "at() is wrong");
            // searching b in a, and a in b
            auto chk = [&](iox::optional<u64> got, size_t want, const char* what) {
                CL_CHECK(got.has_value() == (want != std::string_view::npos), "find", "%s finds %s", what, got ? "something that is not there" : "nothing although it is there");
                CL_CHECK(!got || *got == want, "find", "%s finds position %lu instead of %lu", what, (unsigned long)*got, (unsigned long)want);
            };
            auto A = r[0].sv(), Bv = r[1].sv();
            auto lim = [&](std::string_view s, size_t w) { return pos > s.size() ? std::string_view::npos : w; };
            chk(x.find(y, pos), lim(A, A.find(Bv, pos)), "find");
            chk(y.find(x, pos), lim(Bv, Bv.find(A, pos)), "find");
            chk(x.find_first_of(y, pos), lim(A, A.find_first_of(Bv, pos)), "find_first_of");
            chk(y.find_first_of(x, pos), lim(Bv, Bv.find_first_of(A, pos)), "find_first_of");
            chk(x.find_last_of(y, pos), A.find_last_of(Bv, pos), "find_last_of");
            chk(y.find_last_of(x, pos), Bv.find_last_of(A, pos), "find_last_of");
            for (u64 cnt : {u64(0), u64(1), u64(2), u64(9), ~u64(0)})
            {
                auto z = y.substr(pos, cnt);
                CL_CHECK(z.has_value() == (pos <= r[1].n), "substr", "substr of %lu characters", (unsigned long)r[1].n);
                if (z)
                {
                    Txt q;
                    q.set(Bv.substr(pos, cnt));
                    same(*z, q, "substr");
                }
            }
        }
    }
    // operations on one string of this world
    template <class S>
    static void one(WStr& w, S& s, int k, Cur& o)
    {
        Txt& r = w.r[k];
        const u64 cap = CAP[k];
        if (o("clear", k))
        {
            s.clear();
            r.set("");
        }
        for (char ch : ALPHA)
        {
            if (o("append char", k, (unsigned char)ch))
            {
                s.append(iox::TruncateToCapacity, ch);
                if (r.n < cap)
                    r.c[r.n++] = ch;
            }
            if (o("unsafe_append char", k, (unsigned char)ch))
            {
                CL_CHECK(s.unsafe_append(ch) == (r.n < cap), "append", "unsafe_append(char) with %lu of %lu characters", (unsigned long)r.n, (unsigned long)cap);
                if (r.n < cap)
                    r.c[r.n++] = ch;
            }
            for (u64 p = 0; p < cap; ++p)
                if (p < r.n && o("write", k, (long)p))
                {
                    s[p] = ch;
                    r.c[p] = ch;
                }
        }
        long id = 0;
        texts(mc::thorough() ? 6 : 4, ALPHA, 2, [&](std::string_view in) {
            ++id;
            group(o, k * 2048 + (int)id, [&] {
            std::string_view fit = in.substr(0, cap);
            char z[16] = {};
            memcpy(z, in.data(), in.size());
            if (o("unsafe_assign", k, id))
            {
                CL_CHECK(s.unsafe_assign(static_cast<const char*>(z)) == (in.size() <= cap), "assign", "unsafe_assign of %zu characters to a string<%lu>", in.size(), (unsigned long)cap);
                if (in.size() <= cap)
                    r.set(in);
            }
            if (o("construct truncated", k, id))
            {
                memset((void*)&s, 0x77, cap + 1);
                new ((void*)&s) S(iox::TruncateToCapacity, static_cast<const char*>(z));
                r.set(fit);
            }
            for (u64 c = 0; c <= in.size() && c <= 6; ++c)
                if (o("construct truncated count", k, id * 10 + (long)c))
                {
                    new ((void*)&s) S(iox::TruncateToCapacity, static_cast<const char*>(z), c);
                    r.set(in.substr(0, c).substr(0, cap));
                }
            auto join = [&](std::string_view q, u64 pos) {
                char t[24];
                memcpy(t, r.c, pos);
                memcpy(t + pos, q.data(), q.size());
                memcpy(t + pos + q.size(), r.c + pos, r.n - pos);
                r.set({t, (size_t)(r.n + q.size())});
            };
            iox::string<7> is(iox::TruncateToCapacity, z);
            char arr[8] = {};
            memcpy(arr, z, 8);
            if (o("append string", k, id))
            {
                s.append(iox::TruncateToCapacity, is);
                join(in.substr(0, cap - r.n), r.n);
            }
            if (o("append array", k, id))
            {
                s.append(iox::TruncateToCapacity, arr);
                join(in.substr(0, cap - r.n), r.n);
            }
            if (o("append std::string", k, id))
            {
                s.append(iox::TruncateToCapacity, std::string(in));
                join(in.substr(0, cap - r.n), r.n);
            }
            if (o("unsafe_append string", k, id))
            {
                bool ok = r.n + in.size() <= cap;
                CL_CHECK(s.unsafe_append(is) == ok, "append", "unsafe_append of %zu characters to %lu of %lu", in.size(), (unsigned long)r.n, (unsigned long)cap);
                if (ok)
                    join(in, r.n);
            }
            if (o("unsafe_append array", k, id))
            {
                bool ok = r.n + in.size() <= cap;
                CL_CHECK(s.unsafe_append(arr) == ok, "append", "unsafe_append of %zu characters to %lu of %lu", in.size(), (unsigned long)r.n, (unsigned long)cap);
                if (ok)
                    join(in, r.n);
            }
            if (in.size() <= 3)
                for (u64 pos = 0; pos <= cap + 1; ++pos)
                    for (u64 cnt : {u64(0), u64(1), u64(2), u64(3), u64(4), ~u64(0), ~u64(0) - 1})
                    {
                        if (o("insert string", k, id * 1000 + (long)pos * 10 + (long)(cnt & 7)))
                        {
                            bool ok = cnt <= in.size() && pos <= r.n && r.n + cnt <= cap;
                            CL_CHECK(s.insert(pos, is, cnt) == ok, "insert", "insert of %lu characters at %lu into %lu of %lu", (unsigned long)cnt, (unsigned long)pos, (unsigned long)r.n,
                                     (unsigned long)cap);
                            if (ok)
                                join(in.substr(0, cnt), pos);
                        }
                        if (o("insert array", k, id * 1000 + (long)pos * 10 + (long)(cnt & 7)))
                        {
                            bool ok = cnt <= in.size() && pos <= r.n && r.n + cnt <= cap;
                            CL_CHECK(s.insert(pos, arr, cnt) == ok, "insert", "insert of %lu characters at %lu into %lu of %lu", (unsigned long)cnt, (unsigned long)pos, (unsigned long)r.n,
                                     (unsigned long)cap);
                            if (ok)
                                join(in.substr(0, cnt), pos);
                        }
                    }
            if (in.size() <= 3)
            {
                char a4[4] = {};
                memcpy(a4, z, 4);
                if (o("assign array", k, id))
                {
                    s = a4;
                    r.set(in);
                }
                if (o("assign() array", k, id))
                {
                    s.assign(a4);
                    r.set(in);
                }
                if (o("construct array", k, id))
                {
                    new ((void*)&s) S(a4);
                    r.set(in);
                }
                if (o("compare array", k, id))
                {
                    int c = sgn(r.sv().compare(in));
                    CL_CHECK(sgn(s.compare(a4)) == c && (s == a4) == (c == 0) && (s != a4) == (c != 0) && (s < a4) == (c < 0) && (s <= a4) == (c <= 0) && (s > a4) == (c > 0) && (s >= a4) == (c >= 0),
                             "compare", "a comparison with a char array is wrong");
                    CL_CHECK((a4 == s) == (c == 0) && (a4 != s) == (c != 0) && (a4 < s) == (c > 0) && (a4 <= s) == (c >= 0) && (a4 > s) == (c < 0) && (a4 >= s) == (c <= 0), "compare",
                             "a comparison of a char array is wrong");
                    if (in.size() == 1)
                        CL_CHECK(sgn(s.compare(in[0])) == c && (s == in[0]) == (c == 0) && (s < in[0]) == (c < 0) && (in[0] < s) == (c > 0), "compare", "a comparison with a char is wrong");
                }
            }
            });
        });
        if (o("construct nullptr", k))
        {
            new ((void*)&s) S(iox::TruncateToCapacity, static_cast<const char*>(nullptr));
            r.set("");
        }
        if (o("unsafe_assign nullptr", k))
            CL_CHECK(!s.unsafe_assign(nullptr), "assign", "a null pointer is accepted");
        if (o("self-assign", k))
        {
            auto& q = s;
            s = q;
        }
        if (o("self-move-assign", k))
        {
            auto& q = s;
            s = std::move(q);
        }
        for (u64 n = 0; n <= cap; ++n)
            if (o("raw", k, (long)n))
            {
                s.unsafe_raw_access([&](char* p, iox::BufferInfo i) {
                    CL_CHECK(i.used_size == r.n && i.total_size == cap + 1, "raw", "raw access gets wrong sizes");
                    memset(p, 'a', n);
                    p[n] = 0;
                    return n;
                });
                r.set(std::string_view("aaaaaaaa", (size_t)n));
            }
        if (o("raw unterminated", k))
        {
            u64 save = r.n;
            bool p = panics([&] { s.unsafe_raw_access([&](char* q, iox::BufferInfo) { memset(q, 'a', cap); return u64(1); }); });
            CL_CHECK(p, "raw", "an unterminated result of a raw access is accepted (had %lu)", (unsigned long)save);
            s.clear();
            r.set("");
        }
    }
    static void ops(WStr& w, Cur& o)
    {
        one(w, w.a(), 0, o);
        one(w, w.b(), 1, o);
        if (o("b = a"))
        {
            w.b() = w.a();
            w.r[1].set(w.r[0].sv());
        }
        if (o("b.assign(a)"))
        {
            w.b().assign(w.a());
            w.r[1].set(w.r[0].sv());
        }
        if (o("b = move(a)"))
        {
            w.b() = std::move(w.a());
            w.r[1].set(w.r[0].sv());
            w.r[0].set("");
        }
        if (o("construct b from a"))
        {
            new (w.m5) iox::string<5>(w.a());
            w.r[1].set(w.r[0].sv());
        }
        if (o("construct b from moved a"))
        {
            new (w.m5) iox::string<5>(std::move(w.a()));
            w.r[1].set(w.r[0].sv());
            w.r[0].set("");
        }
        if (o("copy and move b"))
        {
            iox::string<5> t(w.b()), u(std::move(t));
            CL_CHECK(t.empty(), "move", "a moved-from string keeps its content");
            iox::string<5> v;
            v = u;
            w.same(v, w.r[1], "copy");
            w.b() = std::move(v);
        }
        if (o("copy and move a"))
        {
            iox::string<3> t(w.a()), u(std::move(t));
            CL_CHECK(t.empty(), "move", "a moved-from string keeps its content");
            iox::string<3> v;
            v = u;
            w.same(v, w.r[0], "copy");
            w.a() = std::move(v);
        }
    }
};

// ---- semantic strings -----------------------------------------------------------------------------------------------
bool fileChar(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == ':' || c == '_'; }
bool allOf(std::string_view s, bool (*p)(char))
{
    for (char c : s)
        if (!p(c))
            return false;
    return true;
}
bool pathChar(char c) { return fileChar(c) || c == '/'; }
bool nameChar(char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-'; }
// an entry of a path which is neither . nor ..
bool plainEntry(std::string_view s) { return !s.empty() && allOf(s, fileChar) && s.back() != '.'; }
bool dirEntry(std::string_view s) { return s == "." || s == ".." || plainEntry(s); }
bool dirOracle(std::string_view s)
{
    if (s.empty())
        return false;
    for (size_t i = 0; i <= s.size();)
    {
        size_t e = s.find('/', i);
        if (e == std::string_view::npos)
            e = s.size();
        if (e > i && !dirEntry(s.substr(i, e - i)))
            return false;
        i = e + 1;
    }
    return true;
}
bool fileOracle(std::string_view s)
{
    size_t e = s.rfind('/');
    if (e == std::string_view::npos)
        return plainEntry(s);
    return plainEntry(s.substr(e + 1)) && (e == 0 || dirOracle(s.substr(0, e)));
}
enum Verdict
{
    Ok,
    BadChar,
    BadContent
};
struct Rules
{
    bool (*character)(char);
    bool (*content)(std::string_view);
    Verdict operator()(std::string_view s) const { return !allOf(s, character) ? BadChar : content(s) ? Ok : BadContent; }
};
const Rules vFileName{fileChar, [](std::string_view s) { return !s.empty() && s != "." && s != ".."; }};
const Rules vFilePath{pathChar, fileOracle};
const Rules vPath{pathChar, [](std::string_view) { return true; }};
const Rules vName{nameChar, [](std::string_view s) { return !s.empty() && s[0] != '-' && !(s[0] >= '0' && s[0] <= '9'); }};
const char* esc(std::string_view s)
{
    static char b[4][160];
    static int k;
    char* o = b[k = (k + 1) & 3];
    size_t n = 0;
    for (char c : s)
        if (n < 150)
            n += (size_t)(c > 32 && c < 127 ? snprintf(o + n, 8, "%c", c) : snprintf(o + n, 8, "\\x%02x", (unsigned char)c));
    o[n] = 0;
    return o;
}
template <class R>
void verdict(const R& r, Verdict want, std::string_view s, const char* what)
{
    using SE = iox::SemanticStringError;
    CL_CHECK(r.has_value() == (want == Ok), want == Ok ? "refused" : "accepted", "%s: \"%s\" is %s", what, esc(s), want == Ok ? "refused although it is valid" : "accepted although it is invalid");
    if (want != Ok)
        CL_CHECK(r.error() == (want == BadChar ? SE::ContainsInvalidCharacters : SE::ContainsInvalidContent), "error", "%s: \"%s\" is refused with the wrong error", what, esc(s));
}
// insertion: decided by the result; the code decides the content by the inserted text (recorded finding)
template <class R>
bool inserted(const R& r, const Rules& oracle, const std::string& want, std::string_view text, const char* what)
{
    using SE = iox::SemanticStringError;
    auto is = [&](Verdict v) { return v == Ok ? r.has_value() : r.has_error() && r.error() == (v == BadChar ? SE::ContainsInvalidCharacters : SE::ContainsInvalidContent); };
    Verdict v = oracle(want);
    if (is(v))
        return v == Ok;
    if (v != BadChar && is(oracle.content(text) ? Ok : BadContent))
    {
        mc::finding("insert-content", "%s: append and insert apply the rules for the content to the inserted text instead of the result", what);
        return r.has_value();
    }
    verdict(r, v, want, what);
    return false;
}
void step(std::string_view s)
{
    mc::state(mc::mix(0x77, std::hash<std::string_view>()(s)));
    if (!mc::transition())
    {
        mc::incomplete();
        mc::prune();
    }
}
template <class T>
void semantic(const char* what, const Rules& oracle, const char* alphabet, int baseLen, int insLen)
{
    sup::panicHook() = [](void*) { failPath("fatal", "the code under test terminates"); };
    const int letters = (int)strlen(alphabet);
    // creation
    texts(baseLen + insLen, alphabet, letters, [&](std::string_view s) {
        step(s);
        iox::string<16> in(iox::TruncateToCapacity, s.data());
        auto r = T::create(in);
        verdict(r, oracle(s), s, what);
        if (r)
            CL_CHECK(r->as_string() == in && r->size() == s.size() && r->as_string().c_str() == s, "content", "%s: \"%s\" becomes something else", what, esc(s));
    });
    // every character at every position
    for (int c = 1; c < 256; ++c)
        for (int pos = 0; pos < 3; ++pos)
        {
            char b[4] = "aba";
            b[pos] = (char)c;
            step(std::string_view(b, 3));
            verdict(T::create(b), oracle(std::string_view(b, 3)), std::string_view(b, 3), what);
            iox::string<3> one(iox::TruncateToCapacity, b + pos, 1);
            auto base = T::create("ab").value();
            auto r = base.append(one);
            char joined[4] = {'a', 'b', (char)c, 0};
            inserted(r, oracle, joined, one.c_str(), what);
        }
    // insertion and appending
    texts(baseLen, alphabet, letters, [&](std::string_view s) {
        if (oracle(s) != Ok)
            return;
        iox::string<16> in(iox::TruncateToCapacity, s.data());
        auto base = T::create(in);
        CL_CHECK(base.has_value(), "refused", "%s: \"%s\" is refused", what, esc(s));
        texts(insLen, alphabet, letters, [&](std::string_view x) {
            iox::string<16> add(iox::TruncateToCapacity, x.data());
            for (u64 pos = 0; pos <= s.size() + 1; ++pos)
                for (u64 cnt = 0; cnt <= x.size() + 1; ++cnt)
                {
                    std::string want(s);
                    bool fits = pos <= s.size() && cnt <= x.size();
                    if (fits)
                        want.insert((size_t)pos, x.substr(0, (size_t)cnt));
                    step(want);
                    T t = base.value();
                    auto r = t.insert(pos, add, cnt);
                    if (!fits)
                        CL_CHECK(!r.has_value(), "accepted", "%s: an insertion behind the end is accepted", what);
                    else
                        inserted(r, oracle, want, x, what);
                    CL_CHECK(t.as_string().c_str() == (r.has_value() ? want : std::string(s)), "content", "%s: inserting %lu of \"%s\" at %lu into \"%s\" yields \"%s\"", what, (unsigned long)cnt,
                             esc(x), (unsigned long)pos, esc(s), esc(t.as_string().c_str()));
                }
            T t = base.value();
            auto r = t.append(add);
            std::string want = std::string(s) + std::string(x);
            inserted(r, oracle, want, x, what);
            CL_CHECK(t.as_string().c_str() == (r.has_value() ? want : std::string(s)), "content", "%s: appending \"%s\" to \"%s\" yields \"%s\"", what, esc(x), esc(s), esc(t.as_string().c_str()));
            T u = base.value();
            int c = sgn(std::string_view(t.as_string().c_str()).compare(u.as_string().c_str()));
            CL_CHECK((t == u) == (c == 0) && (t != u) == (c != 0) && (t < u) == (c < 0) && (t > u) == (c > 0) && (t <= u) == (c <= 0) && (t >= u) == (c >= 0), "compare", "%s: comparison is wrong", what);
        });
    });
    // the capacity
    constexpr u64 CAPA = T::capacity();
    for (u64 n : {CAPA - 1, CAPA})
    {
        iox::string<CAPA> s;
        for (u64 i = 0; i < n; ++i)
            s.append(iox::TruncateToCapacity, 'a');
        auto r = T::create(s);
        CL_CHECK(r.has_value() && r->size() == n, "refused", "%s: %lu characters are refused", what, (unsigned long)n);
        T t = r.value();
        iox::string<2> add("bb");
        for (u64 cnt = 0; cnt <= 2; ++cnt)
        {
            T u = t;
            auto q = u.insert(1, add, cnt);
            bool fits = n + cnt <= CAPA;
            CL_CHECK(q.has_value() == fits, "capacity", "%s: insertion of %lu into %lu characters", what, (unsigned long)cnt, (unsigned long)n);
            if (!fits)
                CL_CHECK(q.error() == iox::SemanticStringError::ExceedsMaximumLength && u == t, "capacity", "%s: wrong error or changed on overflow", what);
            else
                CL_CHECK(u.size() == n + cnt, "capacity", "%s: wrong size", what);
        }
    }
    sup::panicHook() = nullptr;
}
// ---- numbers --------------------------------------------------------------------------------------------------------
bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
template <class T>
void integer(std::string_view s, const char* name)
{
    std::string_view t = s;
    while (!t.empty() && space(t[0]))
        t.remove_prefix(1);
    bool neg = false;
    if (!t.empty() && (t[0] == '+' || t[0] == '-'))
    {
        neg = t[0] == '-';
        t.remove_prefix(1);
    }
    bool ok = !t.empty();
    __int128 v = 0;
    for (char c : t)
    {
        ok = ok && c >= '0' && c <= '9';
        if (ok && v < ((__int128)1 << 100))
            v = v * 10 + (c - '0');
    }
    if (neg)
        v = -v;
    if (std::is_unsigned<T>::value && neg)
        ok = false;
    ok = ok && v >= (__int128)std::numeric_limits<T>::lowest() && v <= (__int128)std::numeric_limits<T>::max();
    auto r = iox::convert::from_string<T>(s.data());
    CL_CHECK(r.has_value() == ok, "number", "\"%s\" is %s as %s", esc(s), ok ? "refused" : "accepted", name);
    CL_CHECK(!ok || (__int128)*r == v, "number", "\"%s\" is converted to the wrong %s", esc(s), name);
}
template <class T>
void floating(std::string_view s, const char* name)
{
    std::string_view t = s;
    while (!t.empty() && space(t[0]))
        t.remove_prefix(1);
    bool neg = false;
    if (!t.empty() && (t[0] == '+' || t[0] == '-'))
    {
        neg = t[0] == '-';
        t.remove_prefix(1);
    }
    T v = 0;
    bool ok = !t.empty() && t[0] != '+' && t[0] != '-';
    if (ok)
    {
        auto e = std::from_chars(t.data(), t.data() + t.size(), v);
        ok = e.ptr == t.data() + t.size() && e.ec == std::errc();
        ok = ok && (v == 0 || std::isnormal(v));
    }
    if (neg)
        v = -v;
    auto r = iox::convert::from_string<T>(s.data());
    CL_CHECK(r.has_value() == ok, "number", "\"%s\" is %s as %s", esc(s), ok ? "refused" : "accepted", name);
    CL_CHECK(!ok || (*r == v && std::signbit(*r) == std::signbit(v)), "number", "\"%s\" is converted to the wrong %s", esc(s), name);
}
void integers(std::string_view s)
{
    step(s);
    integer<signed char>(s, "signed char");
    integer<unsigned char>(s, "unsigned char");
    integer<short>(s, "short");
    integer<unsigned short>(s, "unsigned short");
    integer<int>(s, "int");
    integer<unsigned int>(s, "unsigned int");
    integer<long>(s, "long");
    integer<unsigned long>(s, "unsigned long");
    integer<long long>(s, "long long");
    integer<unsigned long long>(s, "unsigned long long");
    integer<bool>(s, "bool");
    {
        auto c = iox::convert::from_string<char>(s.data());
        CL_CHECK(c.has_value() == (s.size() == 1) && (!c || *c == s[0]), "number", "\"%s\" as char", esc(s));
        auto t = iox::convert::from_string<iox::string<3>>(s.data());
        CL_CHECK(t.has_value() == (s.size() <= 3) && (!t || t->c_str() == s), "number", "\"%s\" as string<3>", esc(s));
    }
}
// ---- durations ------------------------------------------------------------------------------------------------------
using D = iox::units::Duration;
using u128 = unsigned __int128;
constexpr u128 G = 1000000000u, DMAX = (u128)~u64(0) * G + (G - 1);
u128 ns(D d)
{
    // only through the interface: seconds and the rest
    u64 s = d.toSeconds();
    D rest = d - D::fromSeconds(s);
    return (u128)s * G + rest.toNanoseconds();
}
D mk(u128 v) { return D::fromSeconds((u64)(v / G)) + D::fromNanoseconds((u64)(v % G)); }
u128 sat(u128 v) { return v > DMAX ? DMAX : v; }
u64 sat64(u128 v) { return v > ~u64(0) ? ~u64(0) : (u64)v; }
void durations()
{
    static u128 vals[2000];
    int n = 0;
    auto add = [&](u128 v) {
        for (int d = -1; d <= 1; ++d)
        {
            u128 x = d < 0 ? (v ? v - 1 : 0) : d == 0 ? v : v + 1;
            if (x > DMAX)
                continue;
            bool dup = false;
            for (int i = 0; i < n; ++i)
                dup = dup || vals[i] == x;
            if (!dup)
                vals[n++] = x;
        }
    };
    const bool t = mc::thorough();
    add(0);
    add(DMAX);
    for (u128 unit : {(u128)1, (u128)1000, (u128)1000000, G, G * 60, G * 3600, G * 86400})
    {
        add(unit);
        add((u128)~u64(0) * unit > DMAX ? DMAX : (u128)~u64(0) * unit);
        add((u128)(~u64(0) >> 1) * unit > DMAX ? DMAX : (u128)(~u64(0) >> 1) * unit);
        if (t)
        {
            add((u128)~u32(0) * unit);
            add(unit / 2);
            add(unit * 1000 - unit / 3);
        }
    }
    add((u128)(~u64(0) / 60) * 60 * G);
    add((u128)(~u64(0) / 2) * G + G / 2);
    for (int b = 31; b < 94; b += t ? 1 : 9)
        add((u128)1 << b);
    const u64 mult[] = {0, 1, 2, 3, 10, 999999999, 1000000000, 0xffffffffu, 0x100000000ull, 0x100000001ull, 0x123456789abcdefull, ~u64(0) >> 1, ~u64(0) - 1, ~u64(0), 18446744073ull, 18446744074ull};
    for (int i = 0; i < n; ++i)
    {
        D a = mk(vals[i]);
        u128 x = vals[i];
        CL_CHECK(ns(a) == x, "duration", "a duration of %lu s %lu ns is built wrongly", (unsigned long)(x / G), (unsigned long)(x % G));
        CL_CHECK(a.toNanoseconds() == sat64(x) && a.toMicroseconds() == sat64(x / 1000) && a.toMilliseconds() == sat64(x / 1000000) && a.toSeconds() == (u64)(x / G) && a.toMinutes() == (u64)(x / G / 60)
                     && a.toHours() == (u64)(x / G / 3600) && a.toDays() == (u64)(x / G / 86400),
                 "duration", "a conversion of %lu s %lu ns is wrong", (unsigned long)(x / G), (unsigned long)(x % G));
        {
            auto ts = a.timespec();
            auto tv = a.timeval();
            bool over = (u64)(x / G) > (u64)INT64_MAX;
            CL_CHECK((u64)ts.tv_sec == (over ? (u64)INT64_MAX : (u64)(x / G)) && (u64)ts.tv_nsec == (over ? (u64)(G - 1) : (u64)(x % G)), "duration", "timespec of %lu s is wrong", (unsigned long)(x / G));
            CL_CHECK((u64)tv.tv_sec == (over ? (u64)INT64_MAX : (u64)(x / G)) && (u64)tv.tv_usec == (over ? 999999u : (u64)(x % G / 1000)), "duration", "timeval of %lu s is wrong", (unsigned long)(x / G));
            for (auto ref : {iox::units::TimeSpecReference::Epoch, iox::units::TimeSpecReference::Monotonic})
            {
                struct timespec now, then;
                clockid_t id = ref == iox::units::TimeSpecReference::Epoch ? CLOCK_REALTIME : CLOCK_MONOTONIC;
                clock_gettime(id, &now);
                auto at = a.timespec(ref);
                clock_gettime(id, &then);
                // the clock may have advanced in between: the result lies between
                auto want = [&](const struct timespec& c) {
                    u128 w = sat((u128)c.tv_sec * G + (u64)c.tv_nsec + x);
                    return (u64)(w / G) > (u64)INT64_MAX ? (u128)INT64_MAX * G + (G - 1) : w;
                };
                u128 got = (u128)(u64)at.tv_sec * G + (u64)at.tv_nsec;
                CL_CHECK(got >= want(now) && got <= want(then), "duration", "a point in time %lu s ahead is wrong", (unsigned long)(x / G));
            }
        }
        for (int j = 0; j < n; ++j)
        {
            u128 y = vals[j];
            D b = mk(y);
            mc::state(mc::mix((u64)(x >> 64) * 7 + (u64)x, (u64)(y >> 64) * 5 + (u64)y));
            if (!mc::transition())
                return mc::incomplete();
            D s = a + b, d = a - b, s2 = a, d2 = a;
            s2 += b;
            d2 -= b;
            CL_CHECK(ns(s) == sat(x + y) && s == s2, "duration", "%lu s %lu ns + %lu s %lu ns is wrong", (unsigned long)(x / G), (unsigned long)(x % G), (unsigned long)(y / G), (unsigned long)(y % G));
            CL_CHECK(ns(d) == (x < y ? 0 : x - y) && d == d2, "duration", "%lu s %lu ns - %lu s %lu ns is wrong", (unsigned long)(x / G), (unsigned long)(x % G), (unsigned long)(y / G),
                     (unsigned long)(y % G));
            CL_CHECK((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && (a == b) == (x == y) && (a != b) == (x != y), "duration",
                     "comparison of %lu s %lu ns and %lu s %lu ns is wrong", (unsigned long)(x / G), (unsigned long)(x % G), (unsigned long)(y / G), (unsigned long)(y % G));
        }
        for (u64 m : mult)
        {
            u128 w;
            if (__builtin_mul_overflow(x, (u128)m, &w))
                w = DMAX;
            CL_CHECK(ns(a * m) == sat(w) && ns(m * a) == sat(w), "duration", "%lu s %lu ns * %lu is wrong", (unsigned long)(x / G), (unsigned long)(x % G), (unsigned long)m);
            if (m < 1u << 31)
                CL_CHECK(ns(a * (int)m) == sat(w) && ns(a * -(int64_t)m) == 0, "duration", "%lu s %lu ns times an int is wrong", (unsigned long)(x / G), (unsigned long)(x % G));
            mc::transition();
        }
        // factories
        if (x <= ~u64(0))
        {
            u64 v = (u64)x;
            CL_CHECK(ns(D::fromNanoseconds(v)) == v && ns(D::fromMicroseconds(v)) == (u128)v * 1000 && ns(D::fromMilliseconds(v)) == (u128)v * 1000000 && ns(D::fromSeconds(v)) == (u128)v * G, "duration",
                     "a duration from %lu is wrong", (unsigned long)v);
            auto big = [&](u64 per) { return (u128)v * per > ~u64(0) ? DMAX : (u128)v * per * G; };
            CL_CHECK(ns(D::fromMinutes(v)) == big(60) && ns(D::fromHours(v)) == big(3600) && ns(D::fromDays(v)) == big(86400), "duration", "a duration from %lu minutes, hours or days is wrong", (unsigned long)v);
            CL_CHECK(ns(D::fromNanoseconds((int64_t)v)) == ((int64_t)v < 0 ? 0 : v) && ns(D::fromDays((int64_t)v)) == ((int64_t)v < 0 ? 0 : big(86400)), "duration", "a duration from %ld is wrong", (long)v);
        }
    }
}
} // namespace

MC_SCENARIO(string, B(0, 150), B(0, 900))
{
    auto* w = static_cast<WStr*>(mc::raw(sizeof(WStr)));
    w->g0 = 0x1111;
    w->g1 = 0x2222;
    w->g2 = 0x3333;
    new (w->m3) iox::string<3>();
    new (w->m5) iox::string<5>();
    closure(w, mc::thorough() ? 2000000 : 400000);
}
MC_SCENARIO(semantic_strings, B(0, 120), B(0, 900))
{
    const bool t = mc::thorough();
    switch (mc::choose(6))
    {
    case 0: semantic<iox::FileName>("FileName", vFileName, "a./ ", t ? 4 : 3, 3); break;
    case 1: semantic<iox::FilePath>("FilePath", vFilePath, "a./ ", t ? 6 : 5, t ? 4 : 3); break;
    case 2: semantic<iox::Path>("Path", vPath, "a./ ", t ? 4 : 3, 2); break;
    case 3: semantic<iox::UserName>("UserName", vName, "a1-A", t ? 5 : 4, 3); break;
    case 4: semantic<iox::GroupName>("GroupName", vName, "a1-A", t ? 5 : 4, 3); break;
    case 5:
        sup::panicHook() = [](void*) { failPath("fatal", "the code under test terminates"); };
        texts(t ? 9 : 8, "a./ ", 4, [&](std::string_view s) {
            step(s);
            iox::string<12> n(iox::TruncateToCapacity, s.data());
            namespace d = iox::detail;
            CL_CHECK(d::doesEndWithPathSeparator(n) == (!s.empty() && s.back() == '/'), "path", "doesEndWithPathSeparator(\"%s\")", esc(s));
            CL_CHECK(d::isValidFileName(n) == plainEntry(s), "path", "isValidFileName(\"%s\")", esc(s));
            CL_CHECK(d::isValidPathToFile(n) == fileOracle(s), "path", "isValidPathToFile(\"%s\")", esc(s));
            CL_CHECK(d::isValidPathToDirectory(n) == dirOracle(s), "path", "isValidPathToDirectory(\"%s\")", esc(s));
        });
        sup::panicHook() = nullptr;
        break;
    }
}
MC_SCENARIO(numbers, B(0, 100), B(0, 900))
{
    const bool t = mc::thorough();
    sup::panicHook() = [](void*) { failPath("fatal", "the code under test terminates"); };
    switch (mc::choose(3))
    {
    case 0:
        texts(t ? 7 : 6, " +-19x", 6, integers);
        // every other character as first, middle and last
        for (int c = 1; c < 256; ++c)
        {
            char b[4] = {(char)c, 0, 0, 0};
            integers(std::string_view(b, 1));
            b[1] = '1';
            integers(std::string_view(b, 2));
            char e[4] = {'1', (char)c, 0, 0};
            integers(std::string_view(e, 2));
            char m[4] = {'1', (char)c, '2', 0};
            integers(std::string_view(m, 3));
        }
        break;
    case 1:
    {
        // around the limits of every type
        auto num = [](__int128 v, const char* prefix) {
            char b[64];
            char* p = b + 63;
            *p = 0;
            bool neg = v < 0;
            if (neg)
                v = -v;
            do
                *--p = (char)('0' + (int)(v % 10));
            while (v /= 10);
            if (neg)
                *--p = '-';
            char o[80];
            snprintf(o, sizeof o, "%s%s", prefix, p);
            integers(std::string_view(o));
            snprintf(o, sizeof o, "%s%s0", prefix, p);
            integers(std::string_view(o));
            snprintf(o, sizeof o, "%s%s ", prefix, p);
            integers(std::string_view(o));
        };
        for (int bit : {1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 70})
            for (__int128 d = -3; d <= 3; ++d)
                for (const char* pre : {"", "+", " ", "000", "-"})
                {
                    num(((__int128)1 << bit) + d, pre);
                    num(-(((__int128)1 << bit) + d), pre);
                }
        break;
    }
    case 2:
        texts(t ? 7 : 6, " -19.e", 6, [](std::string_view s) {
            step(s);
            floating<float>(s, "float");
            floating<double>(s, "double");
        });
        for (const char* m : {"1", "9.9", "1.17549435", "1.17549421", "1.17549428e", "3.4028234", "3.4028236", "3.4028235", "2.2250738585072014", "2.2250738585072009", "1.7976931348623157", "1.7976931348623159"})
            for (int e = -400; e <= 400; ++e)
                for (const char* sg : {"", "-"})
                {
                    char b[64];
                    snprintf(b, sizeof b, "%s%se%d", sg, m, e);
                    step(b);
                    floating<float>(b, "float");
                    floating<double>(b, "double");
                }
        break;
    }
    sup::panicHook() = nullptr;
}
MC_SCENARIO(durations, B(0, 100), B(0, 600))
{
    sup::panicHook() = [](void*) { failPath("fatal", "the code under test terminates"); };
    durations();
    sup::panicHook() = nullptr;
}
