#include "net.h"
#include <arpa/inet.h>
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <map>
#include <sys/epoll.h>

using namespace sim;

namespace net
{
Hooks hooks;
bool keepSent = true;
u64 lostCount = 0;
u64 sendErrors = 0;
i64 pollCost = 50 * US;
int errMask = 0xff;

namespace
{
constexpr int kBase = 100000;
struct Queued {
    Bytes data;
    Addr from;
    u64 dgId;
};
struct Fd {
    int fd, node;
    enum T { SOCK, EPOLL, EVENT } type;
    bool open = true;
    bool dialed = false;
    Addr dial;
    std::deque<Queued> q;
    size_t qBytes = 0;
    u64 counter = 0;
    std::vector<std::pair<int, epoll_event>> interest; // epoll
    std::vector<int> watchers;                         // epoll fds watching this
    int family = AF_INET;
};
std::vector<Fd*> fds;
struct Link {
    int a;
    Addr dialA;
    int b;
    Addr dialB;
};
std::vector<Link> links;
std::map<std::pair<int, int>, DirCfg> dirs;
std::vector<Window> windows;
std::vector<Dgram> sentList;
std::map<int, Addr> lastPeerMap;
std::map<int, bool> cut;
u64 dgCtr = 0;

Fd* get(int fd)
{
    if (fd < kBase || fd - kBase >= (int)fds.size()) return nullptr;
    auto f = fds[fd - kBase];
    return f->open ? f : nullptr;
}
Fd* mk(Fd::T t)
{
    auto f = new Fd();
    f->fd = kBase + (int)fds.size();
    f->node = currentNode();
    f->type = t;
    fds.push_back(f);
    return f;
}
bool readable(Fd* f)
{
    return f->type == Fd::SOCK ? !f->q.empty() : f->type == Fd::EVENT ? f->counter > 0 : false;
}
void notify(Fd* f)
{
    for (int w : f->watchers)
        if (auto e = get(w)) wakeAll(e);
}
Addr toAddr(const sockaddr* a)
{
    char buf[64] = {};
    Addr r;
    if (a->sa_family == AF_INET6) {
        auto s = (const sockaddr_in6*)a;
        inet_ntop(AF_INET6, &s->sin6_addr, buf, sizeof buf);
        r.port = ntohs(s->sin6_port);
    } else {
        auto s = (const sockaddr_in*)a;
        inet_ntop(AF_INET, &s->sin_addr, buf, sizeof buf);
        r.port = ntohs(s->sin_port);
    }
    r.ip = buf;
    return r;
}
void fromAddr(const Addr& a, sockaddr* out, socklen_t* len)
{
    if (a.ip.find(':') != std::string::npos) {
        sockaddr_in6 s = {};
        s.sin6_family = AF_INET6;
        inet_pton(AF_INET6, a.ip.c_str(), &s.sin6_addr);
        s.sin6_port = htons(a.port);
        memcpy(out, &s, std::min<size_t>(*len, sizeof s));
        *len = sizeof s;
    } else {
        sockaddr_in s = {};
        s.sin_family = AF_INET;
        inet_pton(AF_INET, a.ip.c_str(), &s.sin_addr);
        s.sin_port = htons(a.port);
        memcpy(out, &s, std::min<size_t>(*len, sizeof s));
        *len = sizeof s;
    }
}
void drop(const Dgram& d, const char* why)
{
    if (!d.injected) lostCount++;
    tlog("drop dg%llu (%s)", (unsigned long long)d.id, why);
    if (hooks.onDrop) hooks.onDrop(d, why);
}
void deliver(Dgram d)
{
    if (cut[d.to]) return drop(d, "receiver vanished");
    Fd* target = nullptr;
    for (auto f : fds)
        if (f->open && f->type == Fd::SOCK && f->node == d.to && f->dialed && f->dial == d.src) target = f;
    if (!target) return drop(d, "no socket");
    if (target->qBytes + d.data.size() > 208 * 1024) return drop(d, "receive buffer full");
    traceMix(0xde11000000ULL + d.id);
    tlog("deliver dg%llu to node %d (%zu bytes, class %d)%s", (unsigned long long)d.id, d.to, d.data.size(), d.cls, d.injected ? " [injected]" : d.genuine ? "" : " [altered]");
    if (hooks.onDeliver) hooks.onDeliver(d);
    if (hooks.rewrite) hooks.rewrite(d);
    target->qBytes += d.data.size();
    target->q.push_back({ std::move(d.data), d.src, d.id });
    notify(target);
}
void schedule(Dgram d, i64 t)
{
    at(t, [d = std::move(d)]() mutable { deliver(std::move(d)); });
}
void transmit(Dgram d)
{
    auto& c = dir(d.from, d.to);
    if (cut[d.from] || cut[d.to]) return drop(d, "vanished");
    i64 extra = 0;
    bool policyDone = false;
    if (hooks.policy) {
        i64 r = hooks.policy(d);
        if (r == -1) return scripted(SC_DROPPED), drop(d, "policy");
        if (r >= 0) {
            if (r > 0) scripted(SC_DELAYED);
            extra = r;
            policyDone = true;
        }
    }
    for (auto& w : windows)
        if (w.a == d.from && w.b == d.to && (w.mask & d.cls) && now() >= w.from && now() < w.to) return scripted(SC_BLACKHOLED), drop(d, "blackhole");
    const bool elig = (c.faultMask & d.cls) != 0 && !policyDone;
    bool lose = false;
    const char* why = "loss";
    if (c.burst > 0 && elig && c.burstLeft == 0 && fault(F_BURST, c.burst)) c.burstLeft = 1 + (int)(faultParam(F_BURST) % (u64)c.burstMax);
    if (c.burstLeft > 0 && elig) {
        c.burstLeft--;
        lose = true;
        why = "burst";
    }
    if (!faultsEnabled()) c.burstLeft = 0, lose = false;
    if (elig && c.loss > 0 && fault(F_LOSS, c.loss)) lose = true;
    i64 lat = c.latency;
    if (c.jitter > 0) lat += (i64)(hash3(seed(), 4242 + d.from, d.id) % (u64)c.jitter);
    i64 t = std::max(now() + lat, c.lastArrival + 1);
    bool delayed = extra > 0;
    if (elig && c.delay > 0 && fault(F_DELAY, c.delay)) {
        extra += 1 + (i64)(faultParam(F_DELAY) % (u64)c.delayMax);
        delayed = true;
    }
    if (elig && c.dup > 0 && fault(F_DUP, c.dup)) {
        Dgram d2 = d;
        schedule(std::move(d2), t + (i64)(faultParam(F_DUP) % (u64)c.dupMax));
    }
    if (lose) return drop(d, why);
    if (elig && c.corrupt > 0 && fault(F_CORRUPT, c.corrupt) && !d.data.empty()) {
        const u64 r = faultParam(F_CORRUPT);
        const int n = 1 + (int)(r % 3);
        for (int i = 0; i < n; i++) {
            const u64 x = faultParam(F_CORRUPT, 1 + i);
            // bias towards the header and the trailing authentication tag
            size_t pos = (x & 3) == 0 ? (x >> 8) % std::min<size_t>(d.data.size(), 24) : (x & 3) == 1 ? d.data.size() - 1 - (x >> 8) % std::min<size_t>(d.data.size(), 20) : (x >> 8) % d.data.size();
            d.data[pos] ^= (uint8_t)(1u << ((x >> 40) & 7));
        }
        d.genuine = false;
    }
    if (elig && c.trunc > 0 && fault(F_TRUNC, c.trunc) && !d.data.empty()) {
        const u64 r = faultParam(F_TRUNC);
        if ((r & 3) == 0) {
            const size_t n = 1 + (r >> 8) % 40;
            for (size_t i = 0; i < n; i++) d.data.push_back((uint8_t)(hash2(r, i)));
        } else {
            d.data.resize((r & 4) ? (r >> 8) % d.data.size() : d.data.size() - 1 - (r >> 8) % std::min<size_t>(d.data.size(), 20));
        }
        d.genuine = false;
    }
    if (d.data.empty()) return drop(d, "empty");
    if (!delayed) c.lastArrival = t;
    schedule(std::move(d), t + extra);
}
} // namespace

int classify(const uint8_t* p, size_t n)
{
    if (n > 20 && p[0] < 2) return STUN;
    if (n >= 1 && p[0] >= 20 && p[0] <= 63) return DTLS;
    if (n >= 8 && p[0] >= 128 && p[0] <= 191) {
        const int pt = p[1] & 0x7f;
        return pt >= 64 && pt <= 95 ? RTCP : RTP;
    }
    return OTHER;
}

void reset()
{
    fds.clear();
    links.clear();
    dirs.clear();
    windows.clear();
    sentList.clear();
    lastPeerMap.clear();
    cut.clear();
    dgCtr = 0;
    lostCount = sendErrors = 0;
    hooks = {};
}
DirCfg& dir(int a, int b) { return dirs[{ a, b }]; }
void addLink(int a, const Addr& x, int b, const Addr& y) { links.push_back({ a, x, b, y }); }
const std::vector<Dgram>& sent() { return sentList; }
void addWindow(const Window& w) { windows.push_back(w); }
void clearWindows() { windows.clear(); }
void cutNode(int n)
{
    cut[n] = true;
    scripted(SC_VANISHED);
    tlog("node %d vanishes", n);
}
int openSockets(int node)
{
    int n = 0;
    for (auto f : fds) n += f->open && f->node == node && f->type == Fd::SOCK;
    return n;
}
int openFds(int node)
{
    int n = 0;
    for (auto f : fds) n += f->open && f->node == node;
    return n;
}
bool lastPeer(int node, Addr& out)
{
    auto it = lastPeerMap.find(node);
    if (it == lastPeerMap.end()) return false;
    out = it->second;
    return true;
}
void inject(int node, const Addr& from, const Bytes& data, i64 delay, bool replayed)
{
    Kernel k;
    Dgram d;
    d.id = ++dgCtr;
    d.to = node;
    d.src = from;
    d.data = data;
    d.cls = classify(data.data(), data.size());
    d.injected = true;
    scripted(SC_INJECTED);
    d.genuine = replayed;
    d.sentAt = now();
    schedule(std::move(d), now() + delay);
}

// ------------------------------------------------------------ system calls
bool isFake(int fd) { return fd >= kBase; }
static const int kErrs[] = { EINTR, EAGAIN, ENOBUFS, ENETUNREACH, ECONNREFUSED, EHOSTUNREACH, ENOMEM, EPERM };
static int pickErr(u64 r)
{
    for (int i = 0; i < 16; i++) {
        int k = (int)((r >> i) % 8);
        if (errMask & (1 << k)) return kErrs[k];
    }
    return EAGAIN;
}

int sysSocket(int domain)
{
    yieldPoint();
    Kernel k;
    if (fault(F_SOCKERR)) {
        errno = faultParam(F_SOCKERR) & 1 ? EMFILE : ENOBUFS;
        tlog("socket fails: %s", strerror(errno));
        return -1;
    }
    auto f = mk(Fd::SOCK);
    f->family = domain;
    return f->fd;
}
int sysClose(int fd, bool& handled)
{
    handled = true;
    auto f = get(fd);
    if (!f) {
        violation(plan().prop.c_str(), "bad-fd", "close() of descriptor %d which is not open", fd);
    }
    yieldPoint();
    Kernel k;
    f->open = false;
    if (f->type == Fd::SOCK && hooks.onSocketClosed) hooks.onSocketClosed(f->node);
    for (auto g : fds)
        if (g->type == Fd::EPOLL)
            for (size_t i = 0; i < g->interest.size(); i++)
                if (g->interest[i].first == fd) g->interest.erase(g->interest.begin() + i--);
    return 0;
}
static u64 nCalls[16];
u64 calls(int node) { return nCalls[node & 15]; }
ssize_t sysSendto(int fd, const void* p, size_t n, const sockaddr* a)
{
    nCalls[currentNode() & 15]++;
    yieldPoint();
    auto f = get(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    Kernel k;
    readClock(false);
    Dgram d;
    if (a)
        d.dst = toAddr(a);
    else
        d.dst = f->dial;
    f->dial = d.dst;
    f->dialed = true;
    d.id = ++dgCtr;
    d.from = f->node;
    d.sock = fd;
    d.data.assign((const uint8_t*)p, (const uint8_t*)p + n);
    d.cls = classify(d.data.data(), n);
    d.sentAt = now();
    for (auto& l : links) {
        if (l.a == f->node && l.dialA == d.dst) {
            d.to = l.b;
            d.src = l.dialB;
        } else if (l.b == f->node && l.dialB == d.dst) {
            d.to = l.a;
            d.src = l.dialA;
        }
    }
    if (!cut[f->node]) {
        if (fault(F_SENDERR)) {
            const int e = pickErr(faultParam(F_SENDERR));
            sendErrors++;
            lostCount++;
            tlog("sendto fails: %s", strerror(e));
            if (hooks.onDrop) hooks.onDrop(d, "senderr");
            errno = e;
            return -1;
        }
    }
    traceMix(hash3(0x5e4d, d.id, hashBytes(d.data.data(), n)));
    tlog("send dg%llu node %d -> %s:%d (%zu bytes, class %d)", (unsigned long long)d.id, d.from, d.dst.ip.c_str(), d.dst.port, n, d.cls);
    if (d.to) lastPeerMap[d.from] = d.dst;
    if (keepSent) sentList.push_back(d);
    if (hooks.onSend) hooks.onSend(d);
    if (!d.to) {
        if (hooks.onDrop) hooks.onDrop(d, "unreachable");
        return (ssize_t)n;
    }
    transmit(std::move(d));
    return (ssize_t)n;
}
ssize_t sysRecvfrom(int fd, void* p, size_t n, sockaddr* a, socklen_t* al)
{
    nCalls[currentNode() & 15]++;
    yieldPoint();
    auto f = get(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    Kernel k;
    if (fault(F_RECVERR)) {
        errno = pickErr(faultParam(F_RECVERR));
        tlog("recvfrom fails: %s", strerror(errno));
        return -1;
    }
    if (f->q.empty()) {
        errno = EAGAIN;
        return -1;
    }
    auto q = std::move(f->q.front());
    f->q.pop_front();
    f->qBytes -= q.data.size();
    if (hooks.onRecv) hooks.onRecv(f->node, q.dgId);
    const size_t m = std::min(n, q.data.size());
    memcpy(p, q.data.data(), m);
    if (a) fromAddr(q.from, a, al);
    return (ssize_t)m;
}
int sysEpollCreate()
{
    yieldPoint();
    Kernel k;
    return mk(Fd::EPOLL)->fd;
}
int sysEpollCtl(int ep, int opr, int fd, void* evp)
{
    yieldPoint();
    Kernel k;
    auto e = get(ep);
    auto f = get(fd);
    if (!e || !f) {
        errno = EBADF;
        return -1;
    }
    if (opr == EPOLL_CTL_ADD) {
        e->interest.push_back({ fd, *(epoll_event*)evp });
        f->watchers.push_back(ep);
    } else if (opr == EPOLL_CTL_DEL) {
        for (size_t i = 0; i < e->interest.size(); i++)
            if (e->interest[i].first == fd) e->interest.erase(e->interest.begin() + i--);
        for (size_t i = 0; i < f->watchers.size(); i++)
            if (f->watchers[i] == ep) f->watchers.erase(f->watchers.begin() + i--);
    } else if (opr == EPOLL_CTL_MOD) {
        for (auto& x : e->interest)
            if (x.first == fd) x.second = *(epoll_event*)evp;
    }
    return 0;
}
int sysEpollWait(int ep, void* evs, int max, int timeout)
{
    nCalls[currentNode() & 15]++;
    yieldPoint();
    auto e = get(ep);
    if (!e) {
        errno = EBADF;
        return -1;
    }
    auto out = (epoll_event*)evs;
    readClock(false);
    const i64 start = now();
    i64 deadline = timeout < 0 ? -1 : start + (i64)timeout * MS;
    if (timeout > 0) {
        deadline += (i64)(hash3(seed(), 31337, start) % (u64)(120 * US));
        if (fault(F_OVERSLEEP)) {
            const u64 r = faultParam(F_OVERSLEEP);
            deadline += (r & 7) == 0 ? (i64)(r >> 8) % (150 * MS) : (i64)(r >> 8) % (12 * MS);
        }
    }
    if (fault(F_EPOLLERR)) {
        const u64 r = faultParam(F_EPOLLERR);
        if (r & 1) {
            if (timeout > 0 && (r & 2)) blockOn(&deadline, now() + (i64)(r >> 8) % ((i64)timeout * MS));
            tlog("epoll_wait: EINTR");
            errno = EINTR;
            return -1;
        }
        // spurious: everything reported ready
        int n = 0;
        for (auto& x : e->interest) {
            if (n >= max) break;
            out[n].events = EPOLLIN;
            out[n].data = x.second.data;
            n++;
        }
        tlog("epoll_wait: spurious readiness of %d descriptors", n);
        if (n) return n;
    }
    while (true) {
        int n = 0;
        {
            Kernel k;
            std::vector<std::pair<int, epoll_event>> r;
            for (auto& x : e->interest) {
                auto f = get(x.first);
                if (f && (x.second.events & EPOLLIN) && readable(f)) r.push_back(x);
            }
            if (r.size() > 1 && fault(F_EPOLLORD)) {
                const u64 q = faultParam(F_EPOLLORD);
                std::rotate(r.begin(), r.begin() + q % r.size(), r.end());
                if (q & 256) r.resize(1 + (q >> 9) % r.size());
            }
            for (auto& x : r) {
                if (n >= max) break;
                out[n].events = EPOLLIN;
                out[n].data = x.second.data;
                n++;
            }
        }
        if (n) return n;
        if (timeout == 0) {
            blockOn(&out, now() + pollCost);
            return 0;
        }
        if (deadline >= 0 && now() >= deadline) return 0;
        blockOn(e, deadline);
    }
}
int sysEventfd(unsigned init)
{
    Kernel k;
    auto f = mk(Fd::EVENT);
    f->counter = init;
    return f->fd;
}
int sysEventfdWrite(int fd, u64 v)
{
    nCalls[currentNode() & 15]++;
    yieldPoint();
    Kernel k;
    auto f = get(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    f->counter += v;
    notify(f);
    return 0;
}
int sysEventfdRead(int fd, u64* v)
{
    nCalls[currentNode() & 15]++;
    yieldPoint();
    Kernel k;
    auto f = get(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    if (f->counter == 0 || fault(F_EPOLLERR, rate(F_EPOLLERR) / 2)) {
        errno = f->counter ? EINTR : EAGAIN;
        return -1;
    }
    *v = f->counter;
    f->counter = 0;
    return 0;
}
} // namespace net
