// --wrap seams: everything nondeterministic that repository (and harness) code can call.
#include "core.h"
#include "net.h"
#include "race.h"
#include <cerrno>
#include <condition_variable>
#include <cstring>
#include <malloc.h>
#include <openssl/crypto.h>
#include <memory>
#include <mutex>
#include <new>
#include <pthread.h>
#include <random>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

using namespace sim;

// ---------------------------------------------------------------- mutexes
namespace
{
struct Mx {
    int owner = -1;
    int depth = 0;
    int waiters = 0;
};
std::unordered_map<const void*, Mx>& mxMap()
{
    static auto m = new std::unordered_map<const void*, Mx>();
    return *m;
}
bool recursiveMutex(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
void mxLock(pthread_mutex_t* m)
{
    yieldPoint();
    while (true) {
        bool got = false;
        {
            Kernel k;
            auto& x = mxMap()[m];
            if (x.owner == -1) {
                x.owner = currentThreadId();
                x.depth = 1;
                got = true;
            } else if (x.owner == currentThreadId()) {
                if (recursiveMutex(m)) {
                    x.depth++;
                    got = true;
                } else {
                    violation(plan().prop.c_str(), "self-deadlock", "thread %d locks a mutex it already holds", currentThreadId());
                }
            } else {
                x.waiters++;
            }
        }
        if (got) {
            race::acquire(m);
            return;
        }
        blockOn(m, -1);
        Kernel k;
        mxMap()[m].waiters--;
    }
}
void mxUnlock(pthread_mutex_t* m)
{
    race::release(m);
    {
        Kernel k;
        auto it = mxMap().find(m);
        if (it == mxMap().end() || it->second.owner != currentThreadId()) return; // foreign (e.g. locked before the simulation)
        if (--it->second.depth > 0) return;
        it->second.owner = -1;
        const bool w = it->second.waiters > 0;
        if (!w) mxMap().erase(it);
        if (w) wakeAll(m);
    }
    yieldPoint();
}
} // namespace

extern "C" {
struct tm* __real_localtime(const time_t*);
struct tm* __wrap_localtime(const time_t* t)
{
    race::sharedBuffer(__builtin_return_address(0));
    return __real_localtime(t);
}
struct tm* __real_gmtime(const time_t*);
struct tm* __wrap_gmtime(const time_t* t)
{
    race::sharedBuffer(__builtin_return_address(0));
    return __real_gmtime(t);
}
int __real_rand(void);
int __wrap_rand(void)
{
    race::sharedBuffer(__builtin_return_address(0));
    return __real_rand();
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!active()) return inSim() ? 0 : __real_pthread_mutex_lock(m);
    mxLock(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!active()) return inSim() ? 0 : __real_pthread_mutex_unlock(m);
    mxUnlock(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!active()) return inSim() ? 0 : __real_pthread_mutex_trylock(m);
    yieldPoint();
    int r = EBUSY;
    {
        Kernel k;
        auto& x = mxMap()[m];
        if (x.owner == -1) {
            x.owner = currentThreadId();
            x.depth = 1;
            r = 0;
        } else if (x.owner == currentThreadId() && recursiveMutex(m)) {
            x.depth++;
            r = 0;
        }
    }
    if (r == 0) race::acquire(m);
    return r;
}
// read-write locks: treated as exclusive
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!active()) return inSim() ? 0 : __real_pthread_rwlock_rdlock(m);
    mxLock((pthread_mutex_t*)m);
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!active()) return inSim() ? 0 : __real_pthread_rwlock_wrlock(m);
    mxLock((pthread_mutex_t*)m);
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!active()) return inSim() ? 0 : __real_pthread_rwlock_unlock(m);
    mxUnlock((pthread_mutex_t*)m);
    return 0;
}

// ---------------------------------------------------------------- condition variables
static int cvWait(void* cv, pthread_mutex_t* m, i64 deadline)
{
    // a waiter can wake up spuriously
    if (fault(F_CVSPUR)) {
        i64 t = now() + (i64)(faultParam(F_CVSPUR) % (u64)(20 * MS));
        if (deadline < 0 || t < deadline) deadline = t;
    }
    const i64 limit = deadline;
    race::release(m);
    {
        // release
        Kernel k;
        auto& x = mxMap()[m];
        x.owner = -1;
        x.depth = 0;
        if (x.waiters) wakeAll(m);
    }
    const bool woken = blockOn(cv, limit);
    mxLock(m);
    return woken ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    cvWait(c, m, -1);
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    yieldPoint();
    wakeOne(c);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    yieldPoint();
    wakeAll(c);
    return 0;
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
    yieldPoint();
    const i64 abs = (i64)ts->tv_sec * SEC + ts->tv_nsec;
    const i64 cur = clk == CLOCK_REALTIME ? nodeWall(currentNode()) : nodeSteady(currentNode());
    i64 dl = now() + std::max<i64>(abs - cur, 0);
    if (fault(F_OVERSLEEP)) dl += (i64)(faultParam(F_OVERSLEEP) % (u64)(12 * MS));
    const i64 deadlineTrue = dl;
    int r = cvWait(c, m, dl);
    if (r == ETIMEDOUT && now() < deadlineTrue) r = 0; // spurious
    return r;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    return __wrap_pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts);
}
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
    NoPreempt np;
    const bool done = *o == 2;
    const int r = __real_pthread_once(o, f);
    if (!done) race::release(o);
    race::acquire(o);
    return r;
}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
static thread_local int guardDepth = 0;
void simNoPreempt(int d);
int __wrap___cxa_guard_acquire(void* g)
{
    int r = __real___cxa_guard_acquire(g);
    race::acquire(g);
    if (r) {
        guardDepth++;
        simNoPreempt(1);
    }
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    race::release(g);
    __real___cxa_guard_release(g);
    guardDepth--;
    simNoPreempt(-1);
}
void __wrap___cxa_guard_abort(void* g)
{
    __real___cxa_guard_abort(g);
    guardDepth--;
    simNoPreempt(-1);
}

// std::condition_variable members that live in libstdc++.so
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, std::unique_lock<std::mutex>* lk)
{
    yieldPoint();
    cvWait(cv, lk->mutex()->native_handle(), -1);
}
void __wrap__ZNSt18condition_variable10notify_oneEv(void* cv)
{
    if (!active()) return;
    yieldPoint();
    wakeOne(cv);
}
void __wrap__ZNSt18condition_variable10notify_allEv(void* cv)
{
    if (!active()) return;
    yieldPoint();
    wakeAll(cv);
}
} // extern C

// ---------------------------------------------------------------- threads
namespace
{
struct SimState : std::thread::_State {
    std::unique_ptr<std::thread::_State> inner;
    Thread* t;
    void _M_run() override
    {
        enterThread(t);
        inner->_M_run();
        inner.reset();
        exitThread();
    }
};
std::unordered_map<u64, Thread*>& idMap()
{
    static auto m = new std::unordered_map<u64, Thread*>();
    return *m;
}
} // namespace
extern "C" {
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* self, std::unique_ptr<std::thread::_State>* st, void (*f)());
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* self, std::unique_ptr<std::thread::_State>* st, void (*f)())
{
    if (!active()) return __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, st, f);
    Thread* t = prepareThread("thread");
    race::threadStart(currentThreadId(), threadId(t));
    {
        Kernel k;
        auto s = new SimState();
        s->inner = std::move(*st);
        s->t = t;
        std::unique_ptr<std::thread::_State> u(s);
        __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, &u, f);
        idMap()[(u64)self->native_handle()] = t;
    }
    yieldPoint();
}
void __real__ZNSt6thread4joinEv(std::thread*);
void __wrap__ZNSt6thread4joinEv(std::thread* th)
{
    if (!active()) return __real__ZNSt6thread4joinEv(th);
    yieldPoint();
    Thread* t = nullptr;
    if (th->joinable()) {
        auto it = idMap().find((u64)th->native_handle());
        if (it != idMap().end()) t = it->second;
    }
    if (t) {
        joinWait(t);
        race::threadJoin(threadId(t));
    }
    Kernel k;
    __real__ZNSt6thread4joinEv(th);
}
void __real__ZNSt6thread6detachEv(std::thread*);
void __wrap__ZNSt6thread6detachEv(std::thread* th)
{
    if (active()) yieldPoint();
    __real__ZNSt6thread6detachEv(th);
}

// ---------------------------------------------------------------- randomness
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* p)
{
    if (!inSim()) return __real__ZNSt13random_device9_M_getvalEv(p);
    return (unsigned)rndNode(currentNode());
}
// values at the edges of the range are as legitimate as any other, and interesting
// (weak: the compiler may have inlined or removed them, then there is nothing to intercept)
static std::unordered_map<const void*, std::pair<uint32_t, uint32_t>> gRandomRange;
static void rememberRange(const void* g, uint32_t lo, uint32_t hi)
{
    if (!inSim()) return;
    Kernel k;
    gRandomRange[g] = { lo, hi };
}
__attribute__((weak)) void __real__ZN4srtc15RandomGeneratorIjEC1Ejj(void*, uint32_t, uint32_t);
void __wrap__ZN4srtc15RandomGeneratorIjEC1Ejj(void* g, uint32_t lo, uint32_t hi)
{
    __real__ZN4srtc15RandomGeneratorIjEC1Ejj(g, lo, hi);
    rememberRange(g, lo, hi);
}
__attribute__((weak)) void __real__ZN4srtc15RandomGeneratorIjEC2Ejj(void*, uint32_t, uint32_t);
void __wrap__ZN4srtc15RandomGeneratorIjEC2Ejj(void* g, uint32_t lo, uint32_t hi)
{
    __real__ZN4srtc15RandomGeneratorIjEC2Ejj(g, lo, hi);
    rememberRange(g, lo, hi);
}
__attribute__((weak)) uint32_t __real__ZN4srtc15RandomGeneratorIjE4nextEv(void*);
uint32_t __wrap__ZN4srtc15RandomGeneratorIjE4nextEv(void* g)
{
    const uint32_t v = __real__ZN4srtc15RandomGeneratorIjE4nextEv(g);
    if (!inSim()) return v;
    auto it = gRandomRange.find(g);
    if (it == gRandomRange.end() || it->second.second - it->second.first < 0x7ffffff0u) return v;
    return edgeValue(v, it->second.first, it->second.second);
}
ssize_t __wrap_getrandom(void* p, size_t n, unsigned)
{
    rndBytes(p, n);
    return (ssize_t)n;
}

// ---------------------------------------------------------------- sockets etc.
int __wrap_socket(int d, int, int) { return net::sysSocket(d); }
int __real_close(int);
int __wrap_close(int fd)
{
    if (!net::isFake(fd)) return __real_close(fd);
    bool h;
    return net::sysClose(fd, h);
}
int __real_fcntl(int, int, long);
int __wrap_fcntl(int fd, int cmd, long arg)
{
    if (net::isFake(fd)) return 0;
    return __real_fcntl(fd, cmd, arg);
}
int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int __wrap_getsockopt(int, int, int, void*, socklen_t*) { return 0; }
int __wrap_bind(int, const struct sockaddr*, socklen_t) { return 0; }
int __wrap_connect(int, const struct sockaddr*, socklen_t) { return 0; }
int __wrap_ioctl(int, unsigned long, void*) { return 0; }
ssize_t __wrap_sendto(int fd, const void* p, size_t n, int, const struct sockaddr* a, socklen_t) { return net::sysSendto(fd, p, n, a); }
ssize_t __wrap_send(int fd, const void* p, size_t n, int) { return net::sysSendto(fd, p, n, nullptr); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int)
{
    std::string b;
    for (size_t i = 0; i < m->msg_iovlen; i++) b.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return net::sysSendto(fd, b.data(), b.size(), (const sockaddr*)m->msg_name);
}
ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int, struct sockaddr* a, socklen_t* al) { return net::sysRecvfrom(fd, p, n, a, al); }
ssize_t __wrap_recv(int fd, void* p, size_t n, int) { return net::sysRecvfrom(fd, p, n, nullptr, nullptr); }
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int) { return net::sysRecvfrom(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, (sockaddr*)m->msg_name, &m->msg_namelen); }
int __wrap_epoll_create(int) { return net::sysEpollCreate(); }
int __wrap_epoll_create1(int) { return net::sysEpollCreate(); }
int __wrap_epoll_ctl(int e, int o, int f, struct epoll_event* ev) { return net::sysEpollCtl(e, o, f, ev); }
int __wrap_epoll_wait(int e, struct epoll_event* ev, int m, int t) { return net::sysEpollWait(e, ev, m, t); }
int __wrap_epoll_pwait(int e, struct epoll_event* ev, int m, int t, const void*) { return net::sysEpollWait(e, ev, m, t); }
int __wrap_eventfd(unsigned i, int) { return net::sysEventfd(i); }
static const void* fdSync(int fd) { return (const void*)(uintptr_t)(16 + fd); }
int __wrap_eventfd_write(int fd, eventfd_t v)
{
    race::release(fdSync(fd));
    return net::sysEventfdWrite(fd, v);
}
int __wrap_eventfd_read(int fd, eventfd_t* v)
{
    u64 x = 0;
    int r = net::sysEventfdRead(fd, &x);
    race::acquire(fdSync(fd));
    *v = x;
    return r;
}
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    if (!net::isFake(fd)) return __real_read(fd, p, n);
    u64 x = 0;
    if (net::sysEventfdRead(fd, &x)) return -1;
    race::acquire(fdSync(fd));
    memcpy(p, &x, std::min<size_t>(n, 8));
    return 8;
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    if (!net::isFake(fd)) return __real_write(fd, p, n);
    u64 x = 0;
    memcpy(&x, p, std::min<size_t>(n, 8));
    race::release(fdSync(fd));
    return net::sysEventfdWrite(fd, x) ? -1 : 8;
}

// ---------------------------------------------------------------- time
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!inSim()) return (int)syscall(SYS_clock_gettime, c, ts);
    const i64 t = readClock(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE);
    ts->tv_sec = t / SEC;
    ts->tv_nsec = t % SEC;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
    if (!inSim()) {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    const i64 t = readClock(true);
    tv->tv_sec = t / SEC;
    tv->tv_usec = (t % SEC) / 1000;
    return 0;
}
time_t time(time_t* out) noexcept
{
    time_t r;
    if (!inSim()) {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        r = ts.tv_sec;
    } else {
        r = readClock(true) / SEC;
    }
    if (out) *out = r;
    return r;
}
int __wrap_nanosleep(const struct timespec* ts, struct timespec*)
{
    sleepFor((i64)ts->tv_sec * SEC + ts->tv_nsec);
    return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec*)
{
    i64 t = (i64)ts->tv_sec * SEC + ts->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        const i64 cur = c == CLOCK_REALTIME ? nodeWall(currentNode()) : nodeSteady(currentNode());
        t = std::max<i64>(0, t - cur);
    }
    sleepFor(t);
    return 0;
}
int __wrap_usleep(unsigned us)
{
    sleepFor((i64)us * US);
    return 0;
}
int __wrap_sched_yield()
{
    yieldPoint();
    return 0;
}
} // extern C

namespace sim
{
void noPreemptAdd(int d);
}
extern "C" void simNoPreempt(int d) { sim::noPreemptAdd(d); }

// ---------------------------------------------------------------- heap accounting
#if !defined(__SANITIZE_ADDRESS__) && !defined(NO_HEAP_ACCOUNT)
static size_t gLive[16], gPeak[16];
extern "C" void* __real_malloc(size_t);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void __real_free(void*);
namespace sim
{
size_t heapLive(int node) { return gLive[node & 15]; }
size_t heapPeak(int node) { return gPeak[node & 15]; }
void heapPeakReset()
{
    for (int i = 0; i < 16; i++) gPeak[i] = gLive[i];
}
} // namespace sim
static void account(int k, size_t n)
{
    gLive[k] += n;
    if (gLive[k] > gPeak[k]) gPeak[k] = gLive[k];
    if (gLive[k] > (size_t)1500 << 20) violation(plan().prop.c_str(), "memory", "node %d holds more than 1500 MB of live heap", k);
}
struct alignas(16) Hdr {
    uint32_t node; // 0xff: not accounted
    size_t size;
};
static void* simNew(size_t n)
{
    auto h = (Hdr*)__real_malloc(sizeof(Hdr) + n);
    if (!h) throw std::bad_alloc();
    h->size = n;
    h->node = 0xff;
    if (active()) {
        const int k = currentNode() & 15;
        h->node = (uint32_t)k;
        account(k, n + sizeof(Hdr));
        if (race::on) race::blockNew(h + 1, n);
        memset((void*)(h + 1), 0xA5, n < 4096 ? n : 4096); // the contents of new memory are arbitrary
    }
    return h + 1;
}
static void simDelete(void* p, const void* pc)
{
    if (!p) return;
    auto h = (Hdr*)p - 1;
    if (race::on && h->node == 0xfe) violation(plan().prop.c_str(), "double-free", "a block of %zu bytes is freed twice", h->size);
    if (h->node != 0xff) {
        gLive[h->node & 15] -= h->size + sizeof(Hdr);
        if (race::on && inSim() && race::blockFree(h, p, h->size, pc)) {
            memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
            h->node = 0xfe;
            return;
        }
        memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
    }
    __real_free(h);
}
// malloc() of the repository, the simulator does not use it
static std::unordered_map<void*, std::pair<int, size_t>>& mallocs()
{
    static auto m = new std::unordered_map<void*, std::pair<int, size_t>>();
    return *m;
}
extern "C" void* __wrap_malloc(size_t n)
{
    void* p = __real_malloc(n);
    if (p && active()) {
        Kernel k;
        account(currentNode() & 15, n + 16);
        mallocs()[p] = { currentNode() & 15, n + 16 };
        memset(p, 0xA5, n < 4096 ? n : 4096);
    }
    return p;
}
extern "C" void __wrap_free(void* p)
{
    if (p && inSim()) {
        Kernel k;
        auto it = mallocs().find(p);
        if (it != mallocs().end()) {
            gLive[it->second.first] -= it->second.second;
            mallocs().erase(it);
        }
    }
    __real_free(p);
}
// memory of OpenSSL
static void* sslMalloc(size_t n, const char*, int)
{
    auto h = (Hdr*)__real_malloc(sizeof(Hdr) + n);
    if (!h) return nullptr;
    h->size = n;
    h->node = 0xff;
    if (active()) {
        h->node = (uint32_t)(currentNode() & 15);
        account((int)h->node, n + sizeof(Hdr));
    }
    return h + 1;
}
static void sslFree(void* p, const char*, int)
{
    if (!p) return;
    auto h = (Hdr*)p - 1;
    if (h->node != 0xff) gLive[h->node & 15] -= h->size + sizeof(Hdr);
    __real_free(h);
}
static void* sslRealloc(void* p, size_t n, const char* f, int l)
{
    if (!p) return sslMalloc(n, f, l);
    if (!n) {
        sslFree(p, f, l);
        return nullptr;
    }
    void* q = sslMalloc(n, f, l);
    if (!q) return nullptr;
    const size_t old = ((Hdr*)p - 1)->size;
    memcpy(q, p, old < n ? old : n);
    sslFree(p, f, l);
    return q;
}
void heapInit() { CRYPTO_set_mem_functions(sslMalloc, sslRealloc, sslFree); }
void* operator new(size_t n) { return simNew(n); }
void* operator new[](size_t n) { return simNew(n); }
void operator delete(void* p) noexcept { simDelete(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { simDelete(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { simDelete(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { simDelete(p, __builtin_return_address(0)); }
#else
namespace sim
{
size_t heapLive(int) { return 0; }
size_t heapPeak(int) { return 0; }
void heapPeakReset() {}
} // namespace sim
void heapInit() {}
#endif
