#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "os.hpp"
#include "mc.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <grp.h>
#include <pwd.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

namespace
{
enum Kind : uint8_t
{
    NONE,
    FILEK,
    SHM,
    SOCK
};
constexpr int NI = 160, NFD = 192, NS = 64, NQ = 10, FD0 = 1000, NM = 128;
struct Ace
{
    int tag;
    unsigned id, perm;
};
struct Inode
{
    Kind kind;
    bool used, linked;
    int opens;
    int lock; // fd index holding the exclusive lock, -1
    unsigned mode, uid, gid;
    uint64_t size;
    char* mem;
    uint64_t cap;
    int sock;
    int nacl;
    Ace acl[8];
    char path[160];
};
struct Fd
{
    bool used;
    Kind kind;
    int inode, sock, proc, flags;
    uint64_t off;
};
struct Msg
{
    char* p;
    uint32_t n;
};
struct Sock
{
    bool used, open;
    int peer, inode;
    uint64_t sndNs, rcvNs;
    Msg q[NQ];
    int head, n;
    sem_t items, space;
};
struct Map
{
    char* a;
    size_t n;
    int proc;
    bool wr;
};
Inode ino[NI];
Fd fds[NFD];
Sock sk[NS];
Map maps[NM];
bool active, pts, flt;
int fltP = -1;
int crashP = -1;
int procOfFiber[64];
unsigned uidOf[16], gidOf[16];
bool aliveP[16];
uint64_t sigP[16];
int strayKills;
const char* lastF = "";
int nFault, nBad;
mode_t maskOf[16] = {022, 022, 022, 022, 022, 022, 022, 022, 022, 022, 022, 022, 022, 022, 022, 022};

int me()
{
    return procOfFiber[mc::self() & 63];
}
int e(int no)
{
    errno = no;
    return -1;
}
template <typename... A>
int fault(const char* call, A... errs)
{
    if (pts)
        mc::point();
    if (crashP >= 0 && crashP == me() && mc::choose_fault(2))
    {
        int p = crashP;
        crashP = -1;
        mc::log("process %d dies before %s", p, call);
        lastF = call;
        ++nFault;
        os::end(p);
    }
    if (!flt && fltP != me())
        return 0;
    const int v[] = {errs...};
    int k = mc::choose_fault((int)sizeof...(errs) + 1);
    if (!k)
        return 0;
    ++nFault;
    lastF = call;
    mc::log("%s fails with %s", call, strerrorname_np(v[k - 1]));
    return v[k - 1];
}
int findI(const char* p, Kind k)
{
    for (int i = 0; i < NI; ++i)
        if (ino[i].used && ino[i].linked && (k == SHM) == (ino[i].kind == SHM) && !strcmp(ino[i].path, p))
            return i;
    return -1;
}
int newI(const char* p, Kind k, unsigned mode)
{
    for (int i = 0; i < NI; ++i)
        if (!ino[i].used)
        {
            memset(&ino[i], 0, sizeof ino[i]);
            ino[i].used = ino[i].linked = true;
            ino[i].kind = k;
            ino[i].lock = -1;
            ino[i].mode = mode & ~maskOf[me() & 15] & 07777;
            ino[i].uid = uidOf[me() & 15];
            ino[i].gid = gidOf[me() & 15];
            ino[i].sock = -1;
            strncpy(ino[i].path, p, sizeof ino[i].path - 1);
            return i;
        }
    mc::fail("harness", "out of simulated inodes");
}
void gcI(int i)
{
    if (ino[i].used && !ino[i].linked && ino[i].opens == 0)
        ino[i].used = false;
}
int newFd(Kind k, int inode, int sock, int flags)
{
    for (int i = 0; i < NFD; ++i)
        if (!fds[i].used)
        {
            fds[i] = Fd{true, k, inode, sock, me(), flags, 0};
            if (inode >= 0)
                ino[inode].opens++;
            return FD0 + i;
        }
    mc::fail("harness", "out of simulated descriptors");
}
Fd* fdOf(int fd)
{
    return fd >= FD0 && fd < FD0 + NFD && fds[fd - FD0].used ? &fds[fd - FD0] : nullptr;
}
void closeFd(int i)
{
    Fd& f = fds[i];
    if (f.kind == SOCK)
    {
        Sock& s = sk[f.sock];
        s.open = false;
        if (s.inode >= 0)
        {
            ino[s.inode].sock = -1;
            ino[s.inode].opens--;
            gcI(s.inode);
        }
        for (int k = 0; k < NQ; ++k)
            sem_post(&s.space); // senders blocked on the full queue learn that the peer is gone
    }
    else if (f.inode >= 0)
    {
        Inode& n = ino[f.inode];
        if (n.lock == i)
            n.lock = -1;
        n.opens--;
        gcI(f.inode);
    }
    f.used = false;
}
bool sim(int fd)
{
    return active && fd >= FD0 && fd < FD0 + NFD;
}
bool simPath(const char* p)
{
    return active && p && p[0] == '/' && (!strncmp(p, "/tmp/", 5) || !strncmp(p, "/iox", 4) || !strncmp(p, "/dev/shm/", 9));
}
bool member(unsigned u, unsigned g)
{
    return u == g || (g == 2000 && (u == 1000 || u == 1001));
}
// access check algorithm of acl(5)
unsigned aclOf(const Inode& n, unsigned u, int flags)
{
    unsigned want = ((flags & O_ACCMODE) != O_WRONLY ? 4u : 0u) | ((flags & O_ACCMODE) != O_RDONLY ? 2u : 0u);
    unsigned mask = 7;
    for (int i = 0; i < n.nacl; ++i)
        if (n.acl[i].tag == 0x10)
            mask = n.acl[i].perm;
    for (int i = 0; i < n.nacl; ++i)
        if (n.acl[i].tag == 0x01 && n.uid == u)
            return n.acl[i].perm;
    for (int i = 0; i < n.nacl; ++i)
        if (n.acl[i].tag == 0x02 && n.acl[i].id == u)
            return n.acl[i].perm & mask;
    bool match = false;
    for (int i = 0; i < n.nacl; ++i)
        if ((n.acl[i].tag == 0x04 && member(u, n.gid)) || (n.acl[i].tag == 0x08 && member(u, n.acl[i].id)))
        {
            match = true;
            if ((n.acl[i].perm & mask & want) == want)
                return n.acl[i].perm & mask;
        }
    if (match)
        return 0;
    for (int i = 0; i < n.nacl; ++i)
        if (n.acl[i].tag == 0x20)
            return n.acl[i].perm;
    return 0;
}
int doOpen(const char* path, int flags, unsigned mode, Kind k)
{
    int i = findI(path, k);
    if (i < 0 && !(flags & O_CREAT))
        return e(ENOENT);
    if (i >= 0 && (flags & O_CREAT) && (flags & O_EXCL))
        return e(EEXIST);
    if (i >= 0 && ino[i].kind == SOCK)
        return e(ENXIO);
    if (i < 0)
        i = newI(path, k, mode);
    else if (uidOf[me() & 15] != 0)
    {
        Inode& n = ino[i];
        unsigned u = uidOf[me() & 15];
        unsigned b = n.nacl ? aclOf(n, u, flags) : n.uid == u ? n.mode >> 6 : member(u, n.gid) ? n.mode >> 3 : n.mode;
        bool wr = (flags & O_ACCMODE) != O_RDONLY, rd = (flags & O_ACCMODE) != O_WRONLY;
        if ((wr && !(b & 2)) || (rd && !(b & 4)))
            return e(EACCES);
    }
    if (flags & O_TRUNC)
        ino[i].size = 0;
    return newFd(k, i, -1, flags);
}
int doUnlink(const char* path, Kind k)
{
    int i = findI(path, k);
    if (i < 0)
        return e(ENOENT);
    ino[i].linked = false;
    gcI(i);
    return 0;
}
void grow(Inode& n, uint64_t size)
{
    if (size > n.cap)
    {
        uint64_t c = (size + 4095) & ~4095ULL;
        char* m = (char*)mc::raw(c, 4096);
        if (n.size)
            memcpy(m, n.mem, n.size);
        n.mem = m;
        n.cap = c;
    }
    n.size = size;
}
void fillStat(Inode& n, int idx, struct stat* s)
{
    memset(s, 0, sizeof *s);
    s->st_ino = (ino_t)idx + 1;
    s->st_nlink = n.linked ? 1 : 0;
    s->st_mode = (n.kind == SOCK ? S_IFSOCK : S_IFREG) | n.mode;
    s->st_uid = n.uid;
    s->st_gid = n.gid;
    s->st_size = (off_t)n.size;
}
timespec deadline(uint64_t ns)
{
    uint64_t t = mc::now_ns() + ns;
    return timespec{(time_t)(t / 1000000000ULL), (long)(t % 1000000000ULL)};
}
int push(Sock& t, const void* p, size_t n)
{
    char* m = (char*)mc::raw(n ? n : 1, 8);
    memcpy(m, p, n);
    t.q[(t.head + t.n++) % NQ] = Msg{m, (uint32_t)n};
    sem_post(&t.items);
    return 0;
}
} // namespace

namespace os
{
void on() noexcept
{
    active = true;
}
void off() noexcept { active = false; }
void process(int p) noexcept { procOfFiber[mc::self() & 63] = p; }
void processOf(int fid, int p) noexcept { procOfFiber[fid & 63] = p; }
void points(bool b) noexcept { pts = b; }
void faults(bool b) noexcept { flt = b; }
void faultsOf(int p) noexcept { fltP = p; }
void end(int p) noexcept
{
    die(p);
    int self = mc::self();
    bool me_ = procOfFiber[self & 63] == p;
    for (int i = 0; i < mc::fibers(); ++i)
        if (i != self && procOfFiber[i & 63] == p)
            mc::kill(i);
    if (me_)
        mc::kill(self);
}
void mortal(int p) noexcept { crashP = p; }
void user(int p, unsigned uid) noexcept { uidOf[p & 15] = gidOf[p & 15] = uid; }
void group(int p, unsigned gid) noexcept { gidOf[p & 15] = gid; }
void die(int p) noexcept
{
    for (int i = 0; i < NFD; ++i)
        if (fds[i].used && fds[i].proc == p)
            closeFd(i);
    for (auto& m : maps)
        if (m.a && m.proc == p)
            m.a = nullptr;
    aliveP[p & 15] = false;
}
void born(int p) noexcept
{
    aliveP[p & 15] = true;
    sigP[p & 15] = 0;
}
int pidOf(int p) noexcept { return 4000 + p; }
uint64_t signals(int p) noexcept { return sigP[p & 15]; }
int wildKills() noexcept { return strayKills; }
int openFds(int p) noexcept
{
    int n = 0;
    for (auto& f : fds)
        n += f.used && (p < 0 || f.proc == p);
    return n;
}
int mappings(int p) noexcept
{
    int n = 0;
    for (auto& m : maps)
        n += m.a && (p < 0 || m.proc == p);
    return n;
}
int writable(int p) noexcept
{
    int n = 0;
    for (auto& m : maps)
        n += m.a && m.wr && (p < 0 || m.proc == p);
    return n;
}
static Inode* byPath(const char* p)
{
    for (auto& i : ino)
        if (i.used && i.linked && !strcmp(i.path, p))
            return &i;
    return nullptr;
}
bool exists(const char* p) noexcept { return byPath(p) != nullptr; }
int files() noexcept
{
    int n = 0;
    for (auto& i : ino)
        n += i.used && i.linked;
    return n;
}
std::string listing()
{
    std::string s;
    for (auto& i : ino)
        if (i.used && i.linked)
            s += std::string(s.empty() ? "" : " ") + i.path;
    return s;
}
const char* lastFault() noexcept { return lastF; }
int faultCount() noexcept { return nFault; }
unsigned umaskOf(int p) noexcept { return maskOf[p & 15]; }
int badCloses() noexcept { return nBad; }
int queued(const char* p) noexcept
{
    Inode* i = byPath(p);
    return i && i->sock >= 0 ? sk[i->sock].n : -1;
}
bool inject(const char* p, const void* d, size_t n) noexcept
{
    Inode* i = byPath(p);
    if (!i || i->sock < 0 || sk[i->sock].n == NQ)
        return false;
    sem_wait(&sk[i->sock].space);
    push(sk[i->sock], d, n);
    return true;
}
unsigned modeOf(const char* p) noexcept
{
    Inode* i = byPath(p);
    return i ? i->mode : 0;
}
uint64_t sizeOf(const char* p) noexcept
{
    Inode* i = byPath(p);
    return i ? i->size : 0;
}
} // namespace os

extern "C" {
void mc_on_thread(int parent, int child) { procOfFiber[child & 63] = procOfFiber[parent & 63]; }
int open(const char* path, int flags, ...)
{
    unsigned mode = 0;
    if (flags & O_CREAT)
    {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, unsigned);
        va_end(ap);
    }
    if (!simPath(path))
        return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (int k = fault("open", EACCES, EMFILE))
        return e(k);
    return doOpen(path, flags, mode, FILEK);
}
int open64(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    unsigned mode = flags & O_CREAT ? va_arg(ap, unsigned) : 0;
    va_end(ap);
    return open(path, flags, mode);
}
int close(int fd)
{
    if (!sim(fd))
        return (int)syscall(SYS_close, fd);
    int k = fault("close", EIO);
    if (!fdOf(fd))
    {
        ++nBad;
        return e(EBADF);
    }
    closeFd(fd - FD0); // Linux releases the descriptor even if close reports an error
    return k ? e(k) : 0;
}
int flock(int fd, int op)
{
    if (!sim(fd))
        return (int)syscall(SYS_flock, fd, op);
    Fd* f = fdOf(fd);
    if (!f)
        return e(EBADF);
    if (op & LOCK_UN)
    {
        if (int k = fault("flock(unlock)", ENOLCK))
            return e(k);
        if (ino[f->inode].lock == fd - FD0)
            ino[f->inode].lock = -1;
        return 0;
    }
    if (int k = fault("flock", ENOLCK, EINTR))
        return e(k);
    int& l = ino[f->inode].lock;
    if (l >= 0 && l != fd - FD0)
        return e(EWOULDBLOCK);
    l = fd - FD0;
    return 0;
}
int fstat(int fd, struct stat* s)
{
    if (!sim(fd))
        return (int)syscall(SYS_fstat, fd, s);
    if (int k = fault("fstat", EIO))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f || f->inode < 0)
        return e(EBADF);
    fillStat(ino[f->inode], f->inode, s);
    return 0;
}
int fstat64(int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }
int stat(const char* p, struct stat* s)
{
    if (!simPath(p))
        return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
    if (int k = fault("stat", EIO))
        return e(k);
    int i = findI(p, FILEK);
    if (i < 0)
        return e(ENOENT);
    fillStat(ino[i], i, s);
    return 0;
}
int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
int access(const char* p, int m)
{
    if (!simPath(p))
        return (int)syscall(SYS_access, p, m);
    if (int k = fault("access", EIO))
        return e(k);
    return findI(p, FILEK) < 0 ? e(ENOENT) : 0;
}
int unlink(const char* p)
{
    if (!simPath(p))
        return (int)syscall(SYS_unlink, p);
    if (int k = fault("unlink", EPERM))
        return e(k);
    return doUnlink(p, FILEK);
}
int remove(const char* p)
{
    if (!simPath(p))
        return (int)syscall(SYS_unlink, p);
    if (int k = fault("remove", EPERM))
        return e(k);
    return doUnlink(p, FILEK);
}
off_t lseek(int fd, off_t o, int wh)
{
    if (!sim(fd))
        return syscall(SYS_lseek, fd, o, wh);
    if (int k = fault("lseek", EINVAL))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f)
        return e(EBADF);
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->off : (int64_t)ino[f->inode].size;
    if (b + o < 0)
        return e(EINVAL);
    f->off = (uint64_t)(b + o);
    return (off_t)f->off;
}
off64_t lseek64(int fd, off64_t o, int wh) { return lseek(fd, o, wh); }
ssize_t read(int fd, void* p, size_t n)
{
    if (!sim(fd))
        return syscall(SYS_read, fd, p, n);
    if (int k = fault("read", EIO, EINTR))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f || (f->flags & O_ACCMODE) == O_WRONLY)
        return e(EBADF);
    Inode& i = ino[f->inode];
    if (f->off >= i.size)
        return 0;
    if (n > i.size - f->off)
        n = i.size - f->off;
    memcpy(p, i.mem + f->off, n);
    f->off += n;
    return (ssize_t)n;
}
ssize_t write(int fd, const void* p, size_t n)
{
    if (!sim(fd))
        return syscall(SYS_write, fd, p, n);
    if (int k = fault("write", ENOSPC, EINTR))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f || (f->flags & O_ACCMODE) == O_RDONLY)
        return e(EBADF);
    Inode& i = ino[f->inode];
    if (n == 0)
        return 0;
    if (f->off + n > i.size)
        grow(i, f->off + n);
    memcpy(i.mem + f->off, p, n);
    f->off += n;
    return (ssize_t)n;
}
int fchmod(int fd, mode_t m)
{
    if (!sim(fd))
        return (int)syscall(SYS_fchmod, fd, m);
    if (int k = fault("fchmod", EPERM))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f)
        return e(EBADF);
    ino[f->inode].mode = m & 07777;
    return 0;
}
int fchown(int fd, uid_t u, gid_t g)
{
    if (!sim(fd))
        return (int)syscall(SYS_fchown, fd, u, g);
    if (int k = fault("fchown", EPERM))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f)
        return e(EBADF);
    if (u != (uid_t)-1)
        ino[f->inode].uid = u;
    if (g != (gid_t)-1)
        ino[f->inode].gid = g;
    return 0;
}
int ftruncate(int fd, off_t n)
{
    if (!sim(fd))
        return (int)syscall(SYS_ftruncate, fd, n);
    if (int k = fault("ftruncate", EINVAL, ENOMEM))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f)
        return e(EBADF);
    if (n < 0 || n > (off_t)(400LL << 20))
        return e(EFBIG);
    grow(ino[f->inode], (uint64_t)n);
    return 0;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int shm_open(const char* name, int flags, mode_t mode)
{
    if (!active)
        return e(ENOSYS);
    if (int k = fault("shm_open", EACCES, EMFILE))
        return e(k);
    return doOpen(name, flags, mode, SHM);
}
int shm_unlink(const char* name)
{
    if (!active)
        return e(ENOSYS);
    if (int k = fault("shm_unlink", EACCES))
        return e(k);
    return doUnlink(name, SHM);
}
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
    if (!sim(fd))
        return (void*)syscall(SYS_mmap, a, n, prot, flags, fd, off);
    if (int k = fault("mmap", ENOMEM, EACCES))
        return errno = k, MAP_FAILED;
    Fd* f = fdOf(fd);
    if (!f)
        return errno = EBADF, MAP_FAILED;
    Inode& i = ino[f->inode];
    if (n == 0 || off % 4096)
        return errno = EINVAL, MAP_FAILED;
    if ((prot & PROT_WRITE) && (flags & MAP_SHARED) && (f->flags & O_ACCMODE) == O_RDONLY)
        return errno = EACCES, MAP_FAILED;
    if ((uint64_t)off + n > ((i.size + 4095) & ~4095ULL))
        mc::fail("bus-error", "mapping of %llu bytes of %s which has only %llu", (unsigned long long)n, i.path, (unsigned long long)i.size);
    for (auto& m : maps)
        if (!m.a)
        {
            m = Map{i.mem + off, n, f->proc, (prot & PROT_WRITE) != 0};
            return m.a;
        }
    mc::fail("harness", "out of simulated mappings");
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off64_t off) { return mmap(a, n, prot, flags, fd, off); }
int munmap(void* a, size_t n)
{
    for (auto& m : maps)
        if (active && m.a && m.a == a && m.n == n && (m.proc == me()))
        {
            int k = fault("munmap", EINVAL);
            if (k)
                return e(k);
            m.a = nullptr;
            return 0;
        }
    for (auto& m : maps)
        if (active && m.a && m.a == a)
        {
            m.a = nullptr;
            return 0;
        }
    if (active && (uint64_t)a >= 0x10000000000ULL && (uint64_t)a < 0x10000000000ULL + (512ULL << 20))
    {
        ++nBad;
        return e(EINVAL);
    }
    return (int)syscall(SYS_munmap, a, n);
}
int socket(int d, int t, int p)
{
    if (!active)
        return (int)syscall(SYS_socket, d, t, p);
    if (int k = fault("socket", EMFILE, ENOBUFS))
        return e(k);
    for (int i = 0; i < NS; ++i)
        if (!sk[i].used)
        {
            memset(&sk[i], 0, sizeof sk[i]);
            sk[i].used = sk[i].open = true;
            sk[i].peer = sk[i].inode = -1;
            sem_init(&sk[i].items, 0, 0);
            sem_init(&sk[i].space, 0, NQ);
            return newFd(SOCK, -1, i, 0);
        }
    mc::fail("harness", "out of simulated sockets");
}
int bind(int fd, const struct sockaddr* a, socklen_t l)
{
    if (!sim(fd))
        return (int)syscall(SYS_bind, fd, a, l);
    if (int k = fault("bind", EACCES, ENOMEM))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f)
        return e(EBADF);
    const char* p = ((const sockaddr_un*)a)->sun_path;
    if (findI(p, FILEK) >= 0)
        return e(EADDRINUSE);
    int i = newI(p, SOCK, 0777);
    ino[i].sock = f->sock;
    ino[i].opens = 1;
    sk[f->sock].inode = i;
    return 0;
}
int connect(int fd, const struct sockaddr* a, socklen_t l)
{
    if (!sim(fd))
        return (int)syscall(SYS_connect, fd, a, l);
    if (int k = fault("connect", EACCES, EAGAIN))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f)
        return e(EBADF);
    int i = findI(((const sockaddr_un*)a)->sun_path, FILEK);
    if (i < 0)
        return e(ENOENT);
    if (ino[i].kind != SOCK || ino[i].sock < 0)
        return e(ECONNREFUSED);
    sk[f->sock].peer = ino[i].sock;
    return 0;
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l)
{
    if (!sim(fd))
        return syscall(SYS_sendto, fd, b, n, fl, a, l);
    if (int k = fault("sendto", ENOBUFS, EINTR))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f)
        return e(EBADF);
    Sock& s = sk[f->sock];
    if (s.peer < 0)
        return e(ENOTCONN);
    Sock& t = sk[s.peer];
    if (!t.open)
        return e(ECONNREFUSED);
    if (s.sndNs)
    {
        timespec ts = deadline(s.sndNs);
        if (sem_timedwait(&t.space, &ts))
            return e(EAGAIN);
    }
    else
        sem_wait(&t.space);
    if (!t.open)
        return e(ECONNREFUSED);
    push(t, b, n);
    return (ssize_t)n;
}
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l)
{
    if (!sim(fd))
        return syscall(SYS_recvfrom, fd, b, n, fl, a, l);
    if (int k = fault("recvfrom", ENOMEM, EINTR))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f)
        return e(EBADF);
    Sock& s = sk[f->sock];
    if (s.rcvNs)
    {
        timespec ts = deadline(s.rcvNs);
        if (sem_timedwait(&s.items, &ts))
            return e(EAGAIN);
    }
    else
        sem_wait(&s.items);
    Msg m = s.q[s.head];
    s.head = (s.head + 1) % NQ;
    s.n--;
    if (m.n < n)
        n = m.n;
    memcpy(b, m.p, n);
    sem_post(&s.space);
    return (ssize_t)n;
}
int setsockopt(int fd, int lv, int opt, const void* v, socklen_t l)
{
    if (!sim(fd))
        return (int)syscall(SYS_setsockopt, fd, lv, opt, v, l);
    if (int k = fault("setsockopt", EDOM, ENOPROTOOPT))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f)
        return e(EBADF);
    const timeval* tv = (const timeval*)v;
    uint64_t ns = (uint64_t)tv->tv_sec * 1000000000ULL + (uint64_t)tv->tv_usec * 1000ULL;
    (opt == SO_SNDTIMEO ? sk[f->sock].sndNs : sk[f->sock].rcvNs) = ns;
    return 0;
}
mode_t umask(mode_t m)
{
    if (!active)
        return (mode_t)syscall(SYS_umask, m);
    mode_t o = maskOf[me() & 15];
    maskOf[me() & 15] = m;
    return o;
}
pid_t getpid() noexcept { return active ? 4000 + me() : (pid_t)syscall(SYS_getpid); }
uid_t getuid() { return active ? uidOf[me() & 15] : (uid_t)syscall(SYS_getuid); }
uid_t geteuid() { return active ? uidOf[me() & 15] : (uid_t)syscall(SYS_geteuid); }
gid_t getgid() { return active ? gidOf[me() & 15] : (gid_t)syscall(SYS_getgid); }
gid_t getegid() { return active ? gidOf[me() & 15] : (gid_t)syscall(SYS_getegid); }
int kill(pid_t p, int s)
{
    if (!active)
        return (int)syscall(SYS_kill, p, s);
    if (p <= 0) // a whole group, or everybody
    {
        ++strayKills;
        return 0;
    }
    int i = p - 4000;
    if (i < 0 || i > 15 || !aliveP[i])
        return e(ESRCH);
    sigP[i] |= 1ULL << (s & 63);
    if (s == 9)
        os::die(i);
    return 0;
}
int sigaction(int s, const struct sigaction* a, struct sigaction* o);
int acl_get_entry(void* acl, int id, void** entry) __attribute__((weak));
int acl_get_tag_type(void* entry, int* tag) __attribute__((weak));
void* acl_get_qualifier(void* entry) __attribute__((weak));
int acl_get_permset(void* entry, void** set) __attribute__((weak));
int acl_get_perm(void* set, unsigned perm) __attribute__((weak));
int acl_set_fd(int fd, void* acl)
{
    if (int k = fault("acl_set_fd", EPERM))
        return e(k);
    Fd* f = fdOf(fd);
    if (!f || f->inode < 0)
        return e(EBADF);
    Inode& n = ino[f->inode];
    n.nacl = 0;
    if (!acl_get_entry)
        return 0;
    void* en = nullptr;
    for (int r = acl_get_entry(acl, 0, &en); r == 1 && n.nacl < 8; r = acl_get_entry(acl, 1, &en))
    {
        Ace& a = n.acl[n.nacl++];
        a = Ace{};
        void* set = nullptr;
        acl_get_tag_type(en, &a.tag);
        if (a.tag == 0x02 || a.tag == 0x08)
        {
            unsigned* q = (unsigned*)acl_get_qualifier(en);
            a.id = *q;
        }
        acl_get_permset(en, &set);
        a.perm = (acl_get_perm(set, 4) ? 4u : 0u) | (acl_get_perm(set, 2) ? 2u : 0u);
    }
    return 0;
}

// users 0 root, 1000 alice, 1001 bob; groups 0 root, 1000 alice, 1001 bob, 2000 ipc {alice, bob}
static passwd pw;
static group gr;
static char* noMembers[1];
struct Name
{
    unsigned id;
    const char* n;
};
static const Name users[] = {{0, "root"}, {1000, "alice"}, {1001, "bob"}};
static const Name groups[] = {{0, "root"}, {1000, "alice"}, {1001, "bob"}, {2000, "ipc"}};
static passwd* pwOf(const Name& u)
{
    pw.pw_name = const_cast<char*>(u.n);
    pw.pw_uid = pw.pw_gid = u.id;
    pw.pw_passwd = pw.pw_gecos = pw.pw_dir = pw.pw_shell = const_cast<char*>("");
    return &pw;
}
static group* grOf(const Name& u)
{
    gr.gr_name = const_cast<char*>(u.n);
    gr.gr_gid = u.id;
    gr.gr_mem = noMembers;
    return &gr;
}
struct passwd* getpwuid(uid_t u)
{
    for (auto& x : users)
        if (x.id == u)
            return pwOf(x);
    return nullptr;
}
struct passwd* getpwnam(const char* n)
{
    for (auto& x : users)
        if (!strcmp(x.n, n))
            return pwOf(x);
    return nullptr;
}
int getpwuid_r(uid_t u, struct passwd* p, char*, size_t, struct passwd** r)
{
    passwd* x = getpwuid(u);
    if (x)
        *p = *x;
    *r = x ? p : nullptr;
    return 0;
}
struct group* getgrgid(gid_t u)
{
    for (auto& x : groups)
        if (x.id == u)
            return grOf(x);
    return nullptr;
}
struct group* getgrnam(const char* n)
{
    for (auto& x : groups)
        if (!strcmp(x.n, n))
            return grOf(x);
    return nullptr;
}
int getgrouplist(const char* n, gid_t g, gid_t* out, int* cnt)
{
    gid_t l[2];
    int k = 0;
    l[k++] = g;
    if (!strcmp(n, "alice") || !strcmp(n, "bob"))
        l[k++] = 2000;
    int cap = *cnt;
    *cnt = k;
    for (int i = 0; i < k && i < cap; ++i)
        out[i] = l[i];
    return k > cap ? -1 : k;
}
} // extern C
