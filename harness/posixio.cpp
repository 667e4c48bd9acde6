// Files, shared memory objects, sockets and pipes of iceoryx_hoofs on a simulated kernel: every history of operations against a
// model, and every failing call.
#include "os.hpp"
#include "ioxsup.hpp"
#include "iox/file.hpp"
#include "iox/named_pipe.hpp"
#include "iox/optional.hpp"
#include "iox/posix_shared_memory_object.hpp"
#include "iox/std_string_support.hpp"
#include "iox/unix_domain_socket.hpp"
#include <csetjmp>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace iox;
using Str = std::string;

namespace
{
constexpr uint64_t MS = 1000000;
constexpr mc::Opts S(int preempt, double seconds = 60, int fault = 0)
{
    mc::Opts o;
    o.preempt = preempt;
    o.fault = fault;
    o.seconds = seconds;
    return o;
}
constexpr mc::Opts P(int preempt, double seconds)
{
    mc::Opts o = S(preempt, seconds);
    o.det = true;
    return o;
}
constexpr mc::Opts U(int preempt, double seconds) // (the flag that says whether a pipe is initialised is looked at before it is constructed)
{
    mc::Opts o = S(preempt, seconds);
    o.races = false;
    return o;
}
const OpenMode MODE[] = {OpenMode::ExclusiveCreate, OpenMode::PurgeAndCreate, OpenMode::OpenOrCreate, OpenMode::OpenExisting};
const char* MN[] = {"ExclusiveCreate", "PurgeAndCreate", "OpenOrCreate", "OpenExisting"};
void clean(const char* when)
{
    MC_CHECK(os::openFds(-1) == 0, "descriptors", "%s: %d descriptors are open", when, os::openFds(-1));
    MC_CHECK(os::mappings(-1) == 0, "mappings", "%s: %d mappings are left", when, os::mappings(-1));
    MC_CHECK(os::badCloses() == 0, "descriptors", "%s: something was closed twice", when);
    MC_CHECK(os::files() == 0, "files", "%s: left: %s", when, os::listing().c_str());
}
// ---------------------------------------------------------------- shared memory
using Shm = PosixSharedMemoryObject;
auto shm(const char* name, OpenMode m, uint64_t size, bool readOnly = false)
{
    return PosixSharedMemoryObjectBuilder()
        .name(detail::PosixSharedMemory::Name_t(TruncateToCapacity, name))
        .memorySizeInBytes(size)
        .accessMode(readOnly ? AccessMode::ReadOnly : AccessMode::ReadWrite)
        .openMode(m)
        .permissions(perms::owner_all | perms::group_read)
        .create();
}
struct Object
{
    uint64_t size;
    int name;
    bool linked{true};
    char tag{0};
};
struct Slot
{
    optional<Shm> o;
    std::shared_ptr<Object> of;
    bool owner{false}, ro{false};
    void clear() { of.reset(), owner = ro = false; }
};
// ---------------------------------------------------------------- files
FilePath path(const char* p) { return FilePath::create(string<platform::IOX_MAX_PATH_LENGTH>(TruncateToCapacity, p)).expect("path"); }
// ---------------------------------------------------------------- sockets
using Uds = UnixDomainSocket;
auto uds(PosixIpcChannelSide s, uint64_t max = Uds::MAX_MESSAGE_SIZE, const char* name = "chan")
{
    return UnixDomainSocketBuilder().name(PosixIpcChannelName_t(TruncateToCapacity, name)).channelSide(s).maxMsgSize(max).create();
}
constexpr const char* UPATH = "/tmp/chan";
jmp_buf onPanic;
} // namespace

// Objects are created, opened, moved and dropped in every order: who maps the same object sees the same bytes, a new object is
// all zero and as large as wanted, the owner removes it, and nothing else is touched.
MC_SCENARIO(shm_histories, S(0, 60), S(0, 900))
{
    os::on();
    os::process(1);
    constexpr int N = 3;
    static const char* NAME[] = {"iox_a", "iox_b"};
    static const uint64_t SIZE[] = {64, 5000};
    Slot* slot = new Slot[N];
    std::shared_ptr<Object> named[2];
    int depth = mc::thorough() ? 5 : 4;
    char next = 1;
    uint64_t h = 0;
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(4); // create/open, move construct, move assign, drop
        int i = mc::choose(N);
        for (int k = 0; k < i; ++k) // slots are interchangeable: use the first empty one
            if (op < 2 && !slot[k].o)
                mc::prune();
        Slot& x = slot[i];
        auto release = [&](Slot& t) {
            if (t.owner && named[t.of->name] == t.of)
                named[t.of->name].reset();
            else if (t.owner && named[t.of->name])
                mc::prune(); // somebody purged the object and created another one of this name
        };
        if (op == 0)
        {
            if (x.o)
                mc::prune();
            int m = mc::choose(4), n = s == 0 ? 0 : mc::choose(2), z = mc::choose(2);
            bool ro = mc::choose(2);
            auto r = shm(NAME[n], MODE[m], SIZE[z], ro);
            auto& obj = named[n];
            bool exists = !!obj, ok = true;
            if (m < 3 && ro)
                ok = false;
            else if (m == 0)
                ok = !exists;
            else if (m == 1)
                obj.reset();
            else if (m == 3)
                ok = exists;
            auto want = PosixSharedMemoryObjectError::SHARED_MEMORY_CREATION_FAILED;
            if (ok && obj && SIZE[z] > obj->size)
                ok = false, want = PosixSharedMemoryObjectError::REQUESTED_SIZE_EXCEEDS_ACTUAL_SIZE;
            MC_CHECK(!r.has_error() == ok, "shm", "step %d: %s %s%s of %d bytes while it %s: %s", s, MN[m], NAME[n], ro ? " read-only" : "", (int)SIZE[z],
                     exists ? "exists" : "does not exist", ok ? "error" : "success");
            if (!ok)
            {
                MC_CHECK(r.error() == want, "shm", "step %d: error %d instead of %d", s, (int)r.error(), (int)want);
                continue;
            }
            bool fresh = !obj;
            if (fresh)
                obj = std::make_shared<Object>(Object{SIZE[z], n});
            x.o.emplace(std::move(r.value()));
            x.of = obj;
            x.owner = fresh;
            x.ro = ro;
            auto* p = (char*)x.o->getBaseAddress();
            MC_CHECK(p, "shm", "no address");
            if (fresh)
            {
                for (uint64_t k = 0; k < SIZE[z]; ++k)
                    MC_CHECK(p[k] == 0, "shm", "step %d: byte %d of a new object is %d", s, (int)k, p[k]);
                MC_CHECK(os::modeOf((Str("/") + NAME[n]).c_str()) == 0740, "shm", "mode %o instead of 0740", os::modeOf((Str("/") + NAME[n]).c_str()));
            }
        }
        else if (op == 3)
        {
            if (!x.o)
                mc::prune();
            if (x.of)
                release(x);
            x.o.reset();
            x.clear();
        }
        else
        {
            int j = mc::choose(N);
            Slot& y = slot[j];
            if (!y.o || (op == 1 && (x.o || i == j)) || (op == 2 && !x.o))
                mc::prune();
            if (op == 1)
                x.o.emplace(std::move(*y.o));
            else
            {
                if (x.of && i != j)
                    release(x);
                *x.o = std::move(*y.o);
            }
            if (i != j)
            {
                x.of = y.of, x.owner = y.owner, x.ro = y.ro;
                y.clear();
            }
        }
        // somebody who may write does so, all others of the same object see it
        int live = 0;
        for (int k = 0; k < N; ++k)
            if (slot[k].of)
            {
                ++live;
                if (!slot[k].ro)
                    ((char*)slot[k].o->getBaseAddress())[slot[k].of->size - 1] = slot[k].of->tag = next++;
            }
        for (int k = 0; k < N; ++k)
        {
            Slot& t = slot[k];
            if (!t.of)
                continue;
            MC_CHECK(((const char*)t.o->getBaseAddress())[t.of->size - 1] == t.of->tag, "shm", "step %d: slot %d sees another content", s, k);
            MC_CHECK(t.o->hasOwnership() == t.owner, "shm", "step %d: slot %d: ownership %d", s, k, t.o->hasOwnership());
            auto z = t.o->get_size();
            MC_CHECK(!z.has_error() && z.value() == t.of->size, "shm", "step %d: slot %d has a size of %d", s, k, z.has_error() ? -1 : (int)z.value());
        }
        for (int n = 0; n < 2; ++n)
            MC_CHECK((os::exists((Str("/") + NAME[n]).c_str())) == !!named[n], "shm", "step %d: %s %s", s, NAME[n], named[n] ? "is gone" : "is left");
        MC_CHECK(os::openFds(-1) == live && os::mappings(-1) == live, "descriptors", "step %d: %d descriptors and %d mappings for %d objects", s,
                 os::openFds(-1), os::mappings(-1), live);
        MC_CHECK(os::umaskOf(1) == 022, "umask", "step %d: the umask is %o", s, os::umaskOf(1));
        h = mc::mix(h, (uint64_t)live);
    }
    mc::outcome(h);
}
// Any system call fails while an object is created, opened or dropped.
MC_SCENARIO(shm_faults, S(0, 60, 2), S(0, 900, 3))
{
    os::on();
    os::process(2);
    int m = mc::choose(4), size = mc::choose(2) ? 5000 : 64;
    bool exists = mc::choose(2);
    optional<Shm> other;
    if (exists)
    {
        auto r = shm("iox_a", OpenMode::ExclusiveCreate, 5000);
        MC_CHECK(!r.has_error(), "harness", "error");
        other.emplace(std::move(r.value()));
        memset(other->getBaseAddress(), 7, 5000);
    }
    os::process(1);
    os::faults(true);
    {
        auto r = shm("iox_a", MODE[m], (uint64_t)size);
        os::faults(false);
        int n = os::faultCount();
        bool regular = m == 0 ? !exists : m == 3 ? exists : true;
        MC_CHECK(n || r.has_error() == !regular, "shm", "%s: %s without a fault", MN[m], r.has_error() ? "error" : "success");
        MC_CHECK(regular || r.has_error(), "shm", "%s: success", MN[m]);
        if (!r.has_error())
        {
            auto* p = (char*)r->getBaseAddress();
            bool opened = exists && m != 1;
            MC_CHECK(r->hasOwnership() == !opened, "shm", "%s: ownership after %s failed", MN[m], os::lastFault());
            MC_CHECK(p[0] == (opened ? 7 : 0) && p[size - 1] == (opened ? 7 : 0), "shm", "%s: wrong content after %s failed", MN[m], os::lastFault());
            MC_CHECK(r->get_size().value_or(0) == (opened ? 5000u : (unsigned)size), "shm", "%s: wrong size after %s failed", MN[m], os::lastFault());
        }
        else
        {
            MC_CHECK(os::openFds(1) == 0, "descriptors", "%s: left open after %s failed", MN[m], os::lastFault());
            // (what cannot be unmapped or unlinked stays)
            MC_CHECK(os::mappings(1) == 0 || n > 1, "mappings", "%s: left mapped after %s failed", MN[m], os::lastFault());
            bool left = os::exists("/iox_a");
            if (n == 1)
                MC_CHECK(left == (exists && m != 1) || (m == 1 && !strcmp(os::lastFault(), "shm_unlink")), "files", "%s: the object is %s after %s failed",
                         MN[m], left ? "left" : "gone", os::lastFault());
        }
        MC_CHECK(os::umaskOf(1) == 022, "umask", "the umask is %o after %s failed", os::umaskOf(1), os::lastFault());
        os::faults(true);
    }
    os::faults(false);
    MC_CHECK(os::openFds(1) == 0, "descriptors", "%s: left open after %s failed", MN[m], os::lastFault());
    MC_CHECK(os::badCloses() == 0, "descriptors", "%s: closed or unmapped twice after %s failed", MN[m], os::lastFault());
    if (exists)
        MC_CHECK(((char*)other->getBaseAddress())[0] == 7 && ((char*)other->getBaseAddress())[4999] == 7, "shm",
                 "%s: the content of the existing object is lost after %s failed", MN[m], os::lastFault());
    if (os::faultCount() == 0)
    {
        os::process(2);
        other.reset();
        clean("at the end");
    }
}
// Every history of opening, reading, writing and removing files.
MC_SCENARIO(file_histories, S(0, 60), S(0, 900))
{
    os::on();
    os::process(1);
    struct Data
    {
        Str bytes;
    };
    struct H
    {
        optional<File> f;
        std::shared_ptr<Data> d;
        AccessMode a{};
    };
    H* hd = new H[2];
    static const char* P = "/tmp/data";
    static const AccessMode AM[] = {AccessMode::ReadWrite, AccessMode::ReadOnly, AccessMode::WriteOnly};
    static const uint64_t OFF[] = {0, 2, 5};
    static const uint64_t LEN[] = {0, 1, 4};
    std::shared_ptr<Data> named;
    int depth = mc::thorough() ? 5 : 4;
    uint8_t next = 'a';
    auto fp = path(P);
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(5); // open, read, write, close/move, remove
        if (s == 0 && op != 0)
            mc::prune();
        if (op == 4)
        {
            auto r = File::remove(fp);
            MC_CHECK(!r.has_error() && r.value() == !!named, "file", "step %d: remove says %d", s, r.has_error() ? -1 : (int)r.value());
            named.reset();
            continue;
        }
        int i = s == 0 ? 0 : mc::choose(2);
        H& x = hd[i];
        if (op == 0)
        {
            if (x.f)
                mc::prune();
            int m = mc::choose(4), a = mc::choose(3);
            auto r = FileBuilder().open_mode(MODE[m]).access_mode(AM[a]).permissions(perms::owner_all).create(fp);
            bool ok = m == 0 ? !named : m == 3 ? !!named : true;
            if (!ok)
            {
                MC_CHECK(r.has_error(), "file", "step %d: %s: success", s, MN[m]);
                auto want = m == 0 ? FileCreationError::AlreadyExists : FileCreationError::DoesNotExist;
                MC_CHECK(r.error() == want, "file", "step %d: %s: error %d", s, MN[m], (int)r.error());
                continue;
            }
            MC_CHECK(!r.has_error(), "file", "step %d: %s: error %d", s, MN[m], (int)r.error());
            if (m == 1)
                named.reset();
            if (!named)
                named = std::make_shared<Data>();
            x.f.emplace(std::move(r.value()));
            x.d = named;
            x.a = AM[a];
        }
        else if (op == 1)
        {
            if (!x.f)
                mc::prune();
            uint64_t off = OFF[mc::choose(3)], len = LEN[mc::choose(3)];
            uint8_t b[8];
            memset(b, '#', sizeof b);
            auto r = off ? x.f->read_at(off, b, len) : x.f->read(b, len);
            if (x.a == AccessMode::WriteOnly)
            {
                MC_CHECK(r.has_error() && r.error() == FileReadError::NotOpenedForReading, "file", "step %d: read without permission", s);
                continue;
            }
            uint64_t n = off >= x.d->bytes.size() ? 0 : std::min<uint64_t>(len, x.d->bytes.size() - off);
            MC_CHECK(!r.has_error() && r.value() == n, "file", "step %d: read %d at %d of %d bytes: %d", s, (int)len, (int)off, (int)x.d->bytes.size(),
                     r.has_error() ? -1 : (int)r.value());
            MC_CHECK(n == 0 || !memcmp(b, x.d->bytes.data() + off, n), "file", "step %d: wrong content", s);
            MC_CHECK(b[n] == '#', "file", "step %d: more was read than said", s);
        }
        else if (op == 2)
        {
            if (!x.f)
                mc::prune();
            uint64_t off = OFF[mc::choose(3)], len = LEN[mc::choose(3)];
            uint8_t b[8];
            for (auto& c : b)
                c = next++;
            auto r = off ? x.f->write_at(off, b, len) : x.f->write(b, len);
            if (x.a == AccessMode::ReadOnly)
            {
                MC_CHECK(r.has_error() && r.error() == FileWriteError::NotOpenedForWriting, "file", "step %d: write without permission", s);
                continue;
            }
            MC_CHECK(!r.has_error() && r.value() == len, "file", "step %d: write %d at %d: %d", s, (int)len, (int)off, r.has_error() ? -1 : (int)r.value());
            if (len && x.d->bytes.size() < off + len)
                x.d->bytes.resize(off + len);
            if (len)
                memcpy(&x.d->bytes[off], b, len);
        }
        else
        {
            if (!x.f)
                mc::prune();
            H& y = hd[1 - i];
            if (mc::choose(2))
            {
                if (y.f)
                    *y.f = std::move(*x.f);
                else
                    y.f.emplace(std::move(*x.f));
                y.d = x.d, y.a = x.a;
            }
            x.f.reset();
            x.d.reset();
        }
        int live = 0;
        for (int k = 0; k < 2; ++k)
            if (hd[k].f)
            {
                ++live;
                auto z = hd[k].f->get_size();
                MC_CHECK(!z.has_error() && z.value() == hd[k].d->bytes.size(), "file", "step %d: size %d instead of %d", s, z.has_error() ? -1 : (int)z.value(),
                         (int)hd[k].d->bytes.size());
            }
        MC_CHECK(os::openFds(-1) == live, "descriptors", "step %d: %d descriptors for %d files", s, os::openFds(-1), live);
        auto e = File::does_exist(fp);
        MC_CHECK(!e.has_error() && e.value() == !!named, "file", "step %d: exists: %d", s, e.has_error() ? -1 : (int)e.value());
    }
}
// Any system call fails: the operation says so, or has done what it was asked for.
MC_SCENARIO(file_faults, S(0, 60, 2), S(0, 900, 3))
{
    os::on();
    os::process(1);
    int m = mc::choose(4);
    auto fp = path("/tmp/data");
    {
        auto r = FileBuilder().open_mode(OpenMode::ExclusiveCreate).access_mode(AccessMode::ReadWrite).permissions(perms::owner_all).create(fp);
        MC_CHECK(!r.has_error() && !r->write((const uint8_t*)"abcdef", 6).has_error(), "harness", "no file");
    }
    static bool panicked;
    panicked = false;
    sup::panicHook() = [](void*) {
        panicked = true;
        longjmp(onPanic, 1);
    };
    if (!setjmp(onPanic))
    {
        os::faults(true);
        auto r = FileBuilder().open_mode(MODE[m]).access_mode(AccessMode::ReadWrite).permissions(perms::owner_all).create(fp);
        int n = os::faultCount();
        MC_CHECK(n || r.has_error() == (m == 0), "file", "%s: wrong without a fault", MN[m]);
        MC_CHECK(m != 0 || r.has_error(), "file", "%s of an existing file", MN[m]);
        if (r.has_error())
        {
            os::faults(false);
            MC_CHECK(os::openFds(-1) == 0, "descriptors", "%s: left open after %s failed", MN[m], os::lastFault());
            MC_CHECK(m == 1 || os::exists("/tmp/data"), "files", "%s: the file is gone after %s failed", MN[m], os::lastFault());
        }
        else
        {
            uint8_t b[8]{};
            Str now = m == 1 ? "" : "abcdef";
            int n0 = os::faultCount();
            auto g = r->read_at(1, b, 3);
            if (!g.has_error())
                MC_CHECK(g.value() == (now.empty() ? 0 : 3) && !memcmp(b, now.empty() ? "" : "bcd", g.value()), "file", "wrong content after %s failed", os::lastFault());
            else
                MC_CHECK(os::faultCount() > n0, "file", "read fails without a fault");
            n0 = os::faultCount();
            auto w = r->write_at(0, (const uint8_t*)"XY", 2);
            if (!w.has_error())
            {
                MC_CHECK(w.value() == 2, "file", "written: %d", (int)w.value());
                now.resize(std::max<size_t>(now.size(), 2));
                now[0] = 'X', now[1] = 'Y';
            }
            else
                MC_CHECK(os::faultCount() > n0, "file", "write fails without a fault");
            n0 = os::faultCount();
            auto p = r->set_permissions(perms::owner_read);
            MC_CHECK(!p.has_error() || os::faultCount() > n0, "file", "permissions without a fault");
            os::faults(false);
            MC_CHECK(os::modeOf("/tmp/data") == (p.has_error() ? 0700u : 0400u), "file", "mode %o", os::modeOf("/tmp/data"));
            memset(b, 0, sizeof b);
            g = r->read(b, 8);
            MC_CHECK(!g.has_error() && g.value() == now.size() && !memcmp(b, now.data(), now.size()), "file", "the content is wrong after %s failed", os::lastFault());
        }
        os::faults(true);
    }
    os::faults(false);
    sup::panicHook() = nullptr;
    MC_CHECK(!panicked || !strcmp(os::lastFault(), "close"), "fatal", "the process ends after %s failed", os::lastFault());
    MC_CHECK(os::openFds(-1) == 0, "descriptors", "left open after %s failed", os::lastFault());
    MC_CHECK(os::badCloses() == 0, "descriptors", "closed twice after %s failed", os::lastFault());
}
// Every history of servers and clients of one name: messages arrive once, in order and unchanged, or the sender learns that they do not.
MC_SCENARIO(socket_histories, S(0, 60), S(0, 900))
{
    os::on();
    os::process(1);
    using Side = PosixIpcChannelSide;
    constexpr uint64_t MAXM[] = {8, Uds::MAX_MESSAGE_SIZE};
    uint64_t max = MAXM[mc::choose(2)];
    optional<Uds> server, spare;
    optional<Uds> client[2];
    struct Peer
    {
        std::deque<Str> q;
        bool open{true};
    };
    std::shared_ptr<Peer> sp, named, cp[2];
    bool moved = false;
    int depth = mc::thorough() ? 7 : 6;
    char next = 'a';
    for (int s = 0; s < depth; ++s)
    {
        int op = s == 0 ? 0 : mc::choose(7);
        if (op == 0) // server comes
        {
            if (server)
                mc::prune();
            auto r = uds(Side::SERVER, max);
            MC_CHECK(!r.has_error(), "socket", "step %d: no server: %d", s, (int)r.error());
            server.emplace(std::move(r.value()));
            sp = named = std::make_shared<Peer>();
        }
        else if (op == 1) // server goes
        {
            if (!server)
                mc::prune();
            server.reset();
            sp->open = false;
            sp.reset();
            named.reset();
        }
        else if (op == 2) // client comes or is replaced by another one
        {
            int c = mc::choose(2);
            if (c == 1 && !client[0])
                mc::prune();
            auto r = uds(Side::CLIENT, max);
            MC_CHECK(r.has_error() == !named, "socket", "step %d: a client %s", s, named ? "cannot connect" : "connects to nobody");
            if (r.has_error())
            {
                MC_CHECK(r.error() == PosixIpcChannelError::NO_SUCH_CHANNEL, "socket", "step %d: error %d", s, (int)r.error());
                continue;
            }
            if (client[c])
                *client[c] = std::move(r.value());
            else
                client[c].emplace(std::move(r.value()));
            cp[c] = named;
        }
        else if (op == 3 || op == 4) // a client sends
        {
            int c = mc::choose(2);
            if (!client[c])
                mc::prune();
            uint64_t sizes[] = {0, 3, max, max + 1};
            uint64_t n = sizes[mc::choose(4)];
            Str m((size_t)n, next++);
            bool api = op == 4;
            auto r = api ? client[c]->timedSend(string<Uds::MAX_MESSAGE_SIZE + 1>(TruncateToCapacity, m.c_str()), units::Duration::fromMilliseconds(10))
                         : client[c]->timedSend(m, units::Duration::fromMilliseconds(10));
            if (n > max)
                MC_CHECK(r.has_error() && r.error() == PosixIpcChannelError::MESSAGE_TOO_LONG, "socket", "step %d: a message of %d bytes", s, (int)n);
            else if (!cp[c]->open)
                MC_CHECK(r.has_error() && r.error() == PosixIpcChannelError::NO_SUCH_CHANNEL, "socket", "step %d: sent to nobody", s);
            else
            {
                MC_CHECK(!r.has_error(), "socket", "step %d: sending %d bytes fails with %d", s, (int)n, (int)r.error());
                cp[c]->q.push_back(m);
            }
        }
        else if (op == 5) // the server receives
        {
            if (!server)
                mc::prune();
            bool api = mc::choose(2);
            uint64_t t0 = mc::now_ns();
            Str got;
            bool e;
            PosixIpcChannelError err{};
            if (api)
            {
                Uds::Message_t b;
                auto r = server->timedReceive(b, units::Duration::fromMilliseconds(20));
                e = r.has_error();
                e ? (void)(err = r.error()) : (void)(got = Str(b.c_str(), b.size()));
            }
            else
            {
                auto r = server->timedReceive(units::Duration::fromMilliseconds(20));
                e = r.has_error();
                e ? (void)(err = r.error()) : (void)(got = r.value());
            }
            MC_CHECK(e == sp->q.empty(), "socket", "step %d: %s", s, e ? "a message is lost" : "a message from nowhere");
            if (e)
            {
                MC_CHECK(err == PosixIpcChannelError::TIMEOUT, "socket", "step %d: error %d instead of a timeout", s, (int)err);
                MC_CHECK(mc::now_ns() - t0 >= 20 * MS, "socket", "step %d: timeout after %d us", s, (int)((mc::now_ns() - t0) / 1000));
            }
            else
            {
                MC_CHECK(got == sp->q.front(), "socket", "step %d: received %d bytes of '%c' instead of %d of '%c'", s, (int)got.size(), got.empty() ? ' ' : got[0],
                         (int)sp->q.front().size(), sp->q.front().empty() ? ' ' : sp->q.front()[0]);
                sp->q.pop_front();
            }
        }
        else // the server moves, or is used the wrong way round
        {
            if (!server)
                mc::prune();
            int k = mc::choose(2);
            if (k == 0)
            {
                Uds tmp(std::move(*server));
                if (moved)
                    server.emplace(std::move(tmp));
                else
                    *server = std::move(tmp);
                moved = !moved;
            }
            else
            {
                MC_CHECK(server->timedSend(Str("x"), units::Duration::fromMilliseconds(1)).has_error(), "socket", "step %d: a server sends", s);
                if (client[0])
                    MC_CHECK(client[0]->timedReceive(units::Duration::fromMilliseconds(1)).has_error(), "socket", "step %d: a client receives", s);
            }
        }
        int live = !!server + (client[0] ? 1 : 0) + (client[1] ? 1 : 0);
        MC_CHECK(os::openFds(-1) == live, "descriptors", "step %d: %d descriptors for %d sockets", s, os::openFds(-1), live);
        MC_CHECK(os::exists(UPATH) == !!named, "files", "step %d: the socket file is %s", s, named ? "gone" : "left");
        MC_CHECK(os::umaskOf(1) == 022, "umask", "step %d: the umask is %o", s, os::umaskOf(1));
        if (named)
            MC_CHECK((os::modeOf(UPATH) & 0777) == 0660, "socket", "step %d: mode %o", s, os::modeOf(UPATH) & 0777);
    }
    server.reset();
    client[0].reset();
    client[1].reset();
    clean("at the end");
}
// Any system call fails.
MC_SCENARIO(socket_faults, S(0, 60, 2), S(0, 900, 3))
{
    os::on();
    os::process(1);
    using Side = PosixIpcChannelSide;
    bool old = mc::choose(2);
    if (old)
    {
        auto* r = new expected<Uds, PosixIpcChannelError>(uds(Side::SERVER)); // of a dead process
        MC_CHECK(!r->has_error(), "harness", "error");
        os::die(1);
    }
    os::faults(true);
    {
        auto sv = uds(Side::SERVER);
        MC_CHECK(os::faultCount() || !sv.has_error(), "socket", "no server");
        if (sv.has_error())
        {
            os::faults(false);
            MC_CHECK(os::openFds(-1) == 0, "descriptors", "left open after %s failed", os::lastFault());
            MC_CHECK(os::umaskOf(1) == 022, "umask", "the umask is %o after %s failed", os::umaskOf(1), os::lastFault());
            os::faults(true);
        }
        else
        {
            int n0 = os::faultCount();
            auto c = uds(Side::CLIENT);
            MC_CHECK(os::faultCount() > n0 || !c.has_error(), "socket", "no client");
            MC_CHECK(os::umaskOf(1) == 022, "umask", "the umask is %o after %s failed", os::umaskOf(1), os::lastFault());
            if (!c.has_error())
            {
                n0 = os::faultCount();
                auto w = c->timedSend(Str("hello"), units::Duration::fromMilliseconds(5));
                MC_CHECK(os::faultCount() > n0 || !w.has_error(), "socket", "not sent");
                n0 = os::faultCount();
                auto g = sv->timedReceive(units::Duration::fromMilliseconds(5));
                if (!g.has_error())
                    MC_CHECK(!w.has_error() && g.value() == "hello", "socket", "received '%s' after %s failed", g.value().c_str(), os::lastFault());
                else
                    MC_CHECK(w.has_error() || os::faultCount() > n0, "socket", "the message is lost after %s failed", os::lastFault());
                if (w.has_error() && g.has_error() && os::faultCount() == n0)
                    MC_CHECK(g.error() == PosixIpcChannelError::TIMEOUT, "socket", "error %d instead of a timeout", (int)g.error());
            }
        }
    }
    os::faults(false);
    MC_CHECK(os::openFds(-1) == 0, "descriptors", "left open after %s failed", os::lastFault());
    MC_CHECK(os::badCloses() == 0, "descriptors", "closed twice after %s failed", os::lastFault());
    MC_CHECK(os::umaskOf(1) == 022, "umask", "the umask is %o after %s failed", os::umaskOf(1), os::lastFault());
    // and the next one works
    auto sv = uds(Side::SERVER);
    auto c = uds(Side::CLIENT);
    MC_CHECK(!sv.has_error() && !c.has_error() && !c->timedSend(Str("again"), units::Duration::fromMilliseconds(5)).has_error(), "socket",
             "unusable after %s failed", os::lastFault());
    auto g = sv->timedReceive(units::Duration::fromMilliseconds(5));
    MC_CHECK(!g.has_error() && g.value() == "again", "socket", "a message is lost after %s failed", os::lastFault());
}
// Names: what is refused, and where the others end up.
MC_SCENARIO(names, S(0, 60), S(0, 60))
{
    os::on();
    os::process(1);
    using Side = PosixIpcChannelSide;
    static const char* NAME[] = {"", "a", "a.b", ".", "..", "a/b", "/a", "a b", "a*", "a:b", "name_that_is_longer_than_the_address_of_a_socket_but_shorter_than_a_name_of_a_channel_may_be_012345"};
    int i = mc::choose(sizeof NAME / sizeof *NAME);
    bool plain = i == 1 || i == 2 || i == 9;
    auto u = uds(Side::SERVER, 8, NAME[i]);
    if (plain || i == 5)
        MC_CHECK(!u.has_error() && os::exists((Str("/tmp/") + NAME[i]).c_str()), "names", "socket '%s'", NAME[i]);
    else if (i != 10 && i != 6)
        MC_CHECK(u.has_error() && u.error() == PosixIpcChannelError::INVALID_CHANNEL_NAME, "names", "socket '%s'", NAME[i]);
    auto m = shm(NAME[i], OpenMode::ExclusiveCreate, 8);
    MC_CHECK(m.has_error() == !(plain || i == 10), "names", "shared memory '%s'", NAME[i]);
    if (!m.has_error())
        MC_CHECK(os::exists((Str("/") + NAME[i]).c_str()), "names", "shared memory '%s' is not there", NAME[i]);
    auto big = UnixDomainSocketBuilder().name("big").channelSide(Side::SERVER).maxMsgSize(Uds::MAX_MESSAGE_SIZE + 1).create();
    MC_CHECK(big.has_error() && big.error() == PosixIpcChannelError::MAX_MESSAGE_SIZE_EXCEEDED, "names", "a too large message size");
}

// ---------------------------------------------------------------- named pipes
namespace
{
auto pipe(PosixIpcChannelSide s, uint64_t n = NamedPipe::MAX_NUMBER_OF_MESSAGES)
{
    return NamedPipeBuilder().name("chan").channelSide(s).maxMsgNumber(n).create();
}
} // namespace
// Every history of two ends of a pipe.
MC_SCENARIO(pipe_histories, S(0, 60), S(0, 900))
{
    os::on();
    os::process(1);
    using Side = PosixIpcChannelSide;
    uint64_t cap = mc::choose(2) ? 1 : 3;
    MC_CHECK(pipe(Side::CLIENT).has_error(), "pipe", "a client without a server");
    auto sv = pipe(Side::SERVER, cap);
    MC_CHECK(!sv.has_error(), "pipe", "no server");
    auto cl = pipe(Side::CLIENT, cap);
    MC_CHECK(!cl.has_error(), "pipe", "no client");
    std::deque<Str> q;
    int depth = mc::thorough() ? 7 : 5;
    char next = 'a';
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(8);
        NamedPipe& e = (op == 0 || op == 3 || op == 7 ? mc::choose(2) : op & 1) ? sv.value() : cl.value(); // both ends may do both
        static const uint64_t SZ[] = {0, 5, NamedPipe::MAX_MESSAGE_SIZE};
        auto d = units::Duration::fromMilliseconds(10);
        uint64_t t0 = mc::now_ns();
        if (op < 3)
        {
            bool full = q.size() == cap;
            if (op == 2 && full)
                mc::prune(); // would block
            Str m((size_t)SZ[op == 0 ? mc::choose(3) : 1], next++);
            auto r = op == 0 ? e.trySend(m) : op == 1 ? e.timedSend(m, d) : e.send(m);
            MC_CHECK(r.has_error() == full, "pipe", "step %d: sending to a pipe with %d of %d messages: %s", s, (int)q.size(), (int)cap, full ? "success" : "error");
            if (full)
                MC_CHECK(r.error() == PosixIpcChannelError::TIMEOUT && (op == 0 || mc::now_ns() - t0 >= 10 * MS), "pipe", "step %d: error %d", s, (int)r.error());
            else
                q.push_back(m);
        }
        else if (op < 6)
        {
            if (op == 5 && q.empty())
                mc::prune();
            auto r = op == 3 ? e.tryReceive() : op == 4 ? e.timedReceive(d) : e.receive();
            MC_CHECK(r.has_error() == q.empty(), "pipe", "step %d: receiving from a pipe with %d messages: %s %d", s, (int)q.size(),
                     r.has_error() ? "error" : "success", r.has_error() ? (int)r.error() : 0);
            if (q.empty())
                MC_CHECK(r.error() == PosixIpcChannelError::TIMEOUT && (op == 3 || mc::now_ns() - t0 >= 10 * MS), "pipe", "step %d: error %d", s, (int)r.error());
            else
            {
                MC_CHECK(r.value() == q.front(), "pipe", "step %d: another message", s);
                q.pop_front();
            }
        }
        else if (op == 6)
        {
            MC_CHECK(e.trySend(Str(NamedPipe::MAX_MESSAGE_SIZE + 1, 'x')).has_error(), "pipe", "step %d: too long", s);
        }
        else
        {
            NamedPipe t(std::move(e));
            e = std::move(t);
        }
    }
    {
        auto gone = std::move(cl.value());
    }
    MC_CHECK(os::files() == 1, "files", "a client that leaves takes the pipe away");
    {
        auto gone = std::move(sv.value());
    }
    clean("at the end");
}
// Senders and receivers of several processes at the same time: no message is lost, duplicated, mixed up or reordered.
MC_SCENARIO(pipe_schedules, P(3, 60), P(4, 900))
{
    os::on();
    os::process(1);
    using Side = PosixIpcChannelSide;
    uint64_t cap = 1 + (uint64_t)mc::choose(2);
    int senders = 1 + mc::choose(2), receivers = 1 + mc::choose(2);
    constexpr int EACH = 2;
    auto sv = pipe(Side::SERVER, cap);
    MC_CHECK(!sv.has_error(), "pipe", "no server");
    auto& p = sv.value();
    int total = senders * EACH;
    struct Got
    {
        int n[2]{};
        int last[2][2]{{-1, -1}, {-1, -1}};
        int sum{0};
    };
    auto& g = *mc::make<Got>();
    for (int i = 0; i < senders; ++i)
        mc::spawn([&p, i] {
            mc::context("send");
            for (int k = 0; k < EACH; ++k)
            {
                char m[40];
                memset(m, 'A' + i, 39), m[39] = 0;
                m[0] = (char)('0' + k);
                auto r = p.send(string<64>(TruncateToCapacity, m));
                MC_CHECK(!r.has_error(), "pipe", "send fails");
            }
        });
    for (int i = 0; i < receivers; ++i)
    {
        int want = total / receivers;
        mc::spawn([&p, &g, i, want] {
            mc::context("receive");
            for (int k = 0; k < want; ++k)
            {
                NamedPipe::Message_t m;
                auto r = p.receive(m);
                MC_CHECK(!r.has_error(), "pipe", "receive fails with %d", (int)r.error());
                mc::Atomic a;
                Str s(m.c_str(), m.size());
                MC_CHECK(s.size() == 39 && (s[1] == 'A' || s[1] == 'B') && s.find_first_not_of(s[1], 1) == Str::npos, "pipe", "mixed up: %s", s.c_str());
                int from = s[1] - 'A', no = s[0] - '0';
                MC_CHECK(g.last[i][from] < no, "pipe", "message %d of sender %d after %d", no, from, g.last[i][from]);
                g.last[i][from] = no;
                g.n[from]++;
                g.sum += 1 << (from * 8 + no * 2);
            }
        });
    }
    mc::joinAll();
    MC_CHECK(g.sum == (senders == 2 ? 0x0505 : 0x05), "pipe", "lost or duplicated: %x", g.sum);
    MC_CHECK(p.tryReceive().has_error(), "pipe", "a message too many");
    for (uint64_t i = 0; i < cap; ++i)
        MC_CHECK(!p.trySend(Str("x")).has_error(), "pipe", "the capacity shrinks");
    MC_CHECK(p.trySend(Str("x")).has_error(), "pipe", "the capacity grows");
}
// A server and a client come up at the same time: the client finds nothing or a pipe that works.
MC_SCENARIO(pipe_startup, U(3, 60), U(5, 900))
{
    os::on();
    os::process(1);
    using Side = PosixIpcChannelSide;
    os::points(true);
    optional<NamedPipe> sv;
    auto& ok = *mc::make<int>(0);
    int f = mc::spawn([&ok] {
        os::process(2);
        for (int i = 0; i < 3; ++i)
        {
            auto r = pipe(Side::CLIENT, 2);
            if (r.has_error())
                continue;
            auto w = r->trySend(Str("hello"));
            MC_CHECK(!w.has_error(), "pipe", "the client's message does not fit into an empty pipe");
            ok = 1;
            break;
        }
    });
    os::processOf(f, 2);
    auto r = pipe(Side::SERVER, 2);
    MC_CHECK(!r.has_error(), "pipe", "no server");
    mc::join(f);
    os::points(false);
    auto g = r->timedReceive(units::Duration::fromMilliseconds(5));
    MC_CHECK(g.has_error() != (ok == 1), "pipe", "%s", ok ? "the client's message is lost" : "a message from nowhere");
    mc::outcome((uint64_t)ok);
}
