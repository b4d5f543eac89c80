// Deterministic simulation kernel: threads, clocks, events, faults, traces.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim
{
using u64 = uint64_t;
using i64 = int64_t;
constexpr i64 US = 1000, MS = 1000000, SEC = 1000000000LL;

// ---- hashing: every choice is a pure function of (seed, kind, index)
inline u64 mix(u64 x)
{
    x ^= x >> 30;
    x *= 0xbf58476d1ce4e5b9ULL;
    x ^= x >> 27;
    x *= 0x94d049bb133111ebULL;
    x ^= x >> 31;
    return x;
}
inline u64 hash2(u64 a, u64 b) { return mix(mix(a + 0x9e3779b97f4a7c15ULL) ^ (b * 0xd6e8feb86659fd93ULL + 0x2545f4914f6cdd1dULL)); }
inline u64 hash3(u64 a, u64 b, u64 c) { return hash2(hash2(a, b), c); }
u64 hashStr(const char* s);
u64 hashBytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ULL);
inline double unit(u64 h) { return (double)(h >> 11) * (1.0 / 9007199254740992.0); }

// ---- fault kinds
enum FK {
    F_OP, // workload operation (suppressible by the minimiser), not a fault
    F_LOSS,
    F_BURST,
    F_DUP,
    F_DELAY,
    F_CORRUPT,
    F_TRUNC,
    F_WINDOW, // blackhole window
    F_REPLAY, // attacker re-sends a recorded datagram
    F_INJECT, // attacker sends a forged datagram
    F_SENDERR,
    F_RECVERR,
    F_EPOLLERR,
    F_EPOLLORD,
    F_OVERSLEEP,
    F_PREEMPT,   // at a synchronisation point or system call
    F_BBPREEMPT, // in the middle of a function
    F_PICK,      // scheduler does not choose FIFO
    F_STALL,     // a thread is suspended for long
    F_WALLJUMP,
    F_CVSPUR, // spurious condition variable wake up
    F_KILL,   // peer vanishes
    F_PEEROP, // peer misbehaves (validly encrypted but malformed content)
    F_SOCKERR, // no socket can be created
    F_NKINDS
};
enum Scripted { SC_BLACKHOLED, SC_DROPPED, SC_DELAYED, SC_INJECTED, SC_WALLJUMPS, SC_VANISHED, N_SCRIPTED };
extern const char* const kScriptedName[N_SCRIPTED];
void scripted(Scripted s);
extern const char* const kFaultName[F_NKINDS];

// ---- result slot, shared with the parent
constexpr int kMaxFired = 60000;
constexpr int kMaxProbes = 96;
struct Fired {
    uint32_t kind : 8;
    uint32_t idx : 24;
};
struct Slot {
    volatile int status; // 0 running, 1 ok, 2 violation, 3 simulator error
    char prop[16];
    char cls[96];
    char msg[3000];
    volatile u64 traceHash;
    volatile u64 schedHash;
    volatile i64 simTime;
    volatile u64 bbs;
    volatile u64 switches;
    volatile u64 datagrams;
    volatile u64 ops;
    volatile u64 checks; // oracle evaluations
    u64 asked[F_NKINDS];
    u64 fired[F_NKINDS];
    u64 scripted[N_SCRIPTED]; // events the scenario itself decided (not suppressible one by one)
    volatile uint32_t nFired;
    Fired firedList[kMaxFired];
    int nProbes;
    char probeName[kMaxProbes][48];
    u64 probeVal[kMaxProbes];
    uint8_t cov[65536];
};

// ---- a run's plan
struct Plan {
    std::string scenario;
    std::string prop;
    u64 seed = 1;
    bool listed[F_NKINDS] = {};         // only the occurrences in `allow` fire
    bool kindOff[F_NKINDS] = {};        // suppressed kinds
    std::set<uint32_t> allow[F_NKINDS];
    bool trace = false;                        // write a readable trace
    FILE* traceFile = nullptr;
};

// ---- kernel interface
bool active(); // called from a simulated thread, outside the kernel
bool inSim();  // simulated thread, kernel or not

void begin(const Plan& plan, Slot* slot); // in the child
const Plan& plan();
u64 seed();

i64 now(); // global simulated time, ns
void sleepUntil(i64 t);
inline void sleepFor(i64 d) { sleepUntil(now() + d); }
bool waitFor(const std::function<bool()>& pred, i64 timeout, i64 step = 5 * MS); // polls
void setTimeLimit(i64 t, const char* cls); // global limit: beyond = violation cls

void at(i64 t, std::function<void()> fn); // kernel event
void yieldPoint(FK kind = F_PREEMPT);

// blocking primitives for the wrappers
bool blockOn(const void* obj, i64 deadline); // true = woken, false = timed out
void wakeAll(const void* obj);
void wakeOne(const void* obj);

int currentThreadId();
int currentNode();
void setNode(int node);
struct NodeScope {
    int prev;
    explicit NodeScope(int n) : prev(currentNode()) { setNode(n); }
    ~NodeScope() { setNode(prev); }
};
struct NoPreempt {
    NoPreempt();
    ~NoPreempt();
};
struct Kernel { // repo code called inside must not be scheduled
    Kernel();
    ~Kernel();
    bool prev;
};

// clocks
i64 nodeSteady(int node);
i64 nodeWall(int node);
i64 readClock(bool wall); // advances time a little
void setClockBase(int node, i64 steadyBase, i64 wallBase);
void jumpWall(int node, i64 delta);

// randomness
u64 param(const char* name);                                 // per-run constant
i64 paramRange(const char* name, i64 lo, i64 hi);            // inclusive
double paramReal(const char* name, double lo, double hi);
bool paramBool(const char* name, double p);
uint32_t edgeValue(uint32_t v, uint32_t lo, uint32_t hi); // sometimes a value near an end or the middle of the range
u64 rndNode(int node); // deterministic stream for std::random_device etc.
void rndBytes(void* p, size_t n);

// faults
void setRate(FK k, double p);
double rate(FK k);
bool fault(FK k, double p);           // ask: does the fault fire?
inline bool fault(FK k) { return fault(k, rate(k)); }
u64 faultParam(FK k, u64 salt = 0);   // parameter of the last asked fault of this kind
bool op();                            // ask whether the next workload op is to be executed
u64 opParam(u64 salt);
void faultsOff(bool network, bool sched); // stop injecting (heal)
bool faultsEnabled();

// reporting
void tlog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void traceMix(u64 v);
bool tracing();
[[noreturn]] void violation(const char* prop, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void simError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finishOk();
void probe(const char* name, u64 add = 1);
u64 probeGet(const char* name);
void checked(u64 n = 1);

// busy loop accounting
u64 callsSinceBlock(int node);

// thread support used by wraps
struct Thread;
Thread* prepareThread(const char* name); // in the creating thread
int threadId(Thread* t);
void setMicroStalls(i64 max); // preempted threads may be off the processor for up to this long (0: not)
void enterThread(Thread* t);             // in the new thread: waits for its turn
void exitThread();                       // in the ending thread
void joinWait(Thread* t);
bool threadDone(Thread* t);
extern u64 g_bb; // basic blocks executed
void stallThread(i64 dur);
int stallVictims(); // number of stalls happened
i64 stallTotal();   // time spent in them
size_t heapLive(int node); // bytes allocated by repository code of a node (0 in sanitizer builds)
size_t heapPeak(int node);
void heapPeakReset();
} // namespace sim
