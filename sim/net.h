// Simulated UDP network, sockets, epoll and eventfd.
#pragma once
#include "core.h"
#include <deque>
#include <netinet/in.h>
#include <string>
#include <vector>

namespace net
{
using sim::i64;
using sim::u64;
using Bytes = std::vector<uint8_t>;

struct Addr {
    std::string ip;
    int port = 0;
    bool operator<(const Addr& o) const { return ip != o.ip ? ip < o.ip : port < o.port; }
    bool operator==(const Addr& o) const { return ip == o.ip && port == o.port; }
};

enum Cls { STUN = 1, DTLS = 2, RTP = 4, RTCP = 8, OTHER = 16, ALL = 31 };
int classify(const uint8_t* p, size_t n);

struct Dgram {
    u64 id = 0;
    int from = 0, to = 0;  // nodes; to = 0: no counterpart
    int sock = -1;         // sender's socket number
    int cls = 0;
    Addr dst;              // as dialled by the sender
    Addr src;              // as seen by the receiver
    Bytes data;
    i64 sentAt = 0;
    bool injected = false; // attacker
    bool genuine = true;   // delivered bytes equal to what a node sent
};

struct DirCfg {
    i64 latency = 10 * sim::MS;
    i64 jitter = 0;       // FIFO preserving
    double loss = 0, dup = 0, delay = 0, corrupt = 0, trunc = 0, burst = 0;
    i64 delayMax = 30 * sim::MS; // extra delay of a DELAY fault
    i64 dupMax = 20 * sim::MS;
    int burstMax = 20;
    int faultMask = ALL;  // classes the faults apply to
    i64 lastArrival = 0;
    int burstLeft = 0;
};

// what happened, for the oracles
struct Hooks {
    std::function<void(const Dgram&)> onSend;             // datagram handed to the network by a node
    std::function<void(const Dgram&)> onDeliver;          // about to be queued at the receiving socket
    std::function<void(const Dgram&, const char*)> onDrop;
    // optional scenario policy: return -1 to drop, -2 for default, >= 0 extra delay
    std::function<i64(const Dgram&)> policy;
    std::function<void(int node)> onSocketClosed;
    std::function<void(int node, u64 dg)> onRecv;         // a node reads a datagram from its socket
    std::function<void(Dgram&)> rewrite;                  // change the bytes of a datagram as it arrives (still counts as genuine)
};
extern Hooks hooks;

void reset();
DirCfg& dir(int fromNode, int toNode);
void addLink(int nodeA, const Addr& dialedByA, int nodeB, const Addr& dialedByB);
// attacker: deliver bytes to `node` so that they seem to come from `from`
void inject(int node, const Addr& from, const Bytes& data, i64 delay, bool replayed = false);
bool lastPeer(int node, Addr& out); // address `node` sent to most recently
const std::vector<Dgram>& sent();   // everything sent by nodes (kept while keepSent)
extern bool keepSent;
extern u64 lostCount;      // datagrams between nodes that were lost for any reason after links existed
extern u64 sendErrors;
struct Window {
    i64 from, to;
    int a, b; // direction a->b
    int mask;
};
void addWindow(const Window& w);
void clearWindows();
void cutNode(int node); // node vanishes: nothing in or out any more
int openSockets(int node);
int openFds(int node);
u64 calls(int node); // system calls made by a node on sockets, eventfds and epoll descriptors
extern i64 pollCost;
extern int errMask; // which errno may be injected: bits

// syscall layer used by wraps
int sysSocket(int domain);
int sysClose(int fd, bool& handled);
bool isFake(int fd);
ssize_t sysSendto(int fd, const void* p, size_t n, const sockaddr* a);
ssize_t sysRecvfrom(int fd, void* p, size_t n, sockaddr* a, socklen_t* al);
int sysEpollCreate();
int sysEpollCtl(int ep, int op, int fd, void* ev);
int sysEpollWait(int ep, void* evs, int max, int timeout);
int sysEventfd(unsigned init);
int sysEventfdWrite(int fd, u64 v);
int sysEventfdRead(int fd, u64* v);
} // namespace net
