#include "core.h"
#include <set>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <pthread.h>
#include <queue>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

namespace sim
{
const char* const kFaultName[F_NKINDS] = { "op",      "loss",    "burst",    "dup",      "delay",     "corrupt", "truncate", "blackhole",
                                           "replay",  "inject",  "senderr",  "recverr",  "epollerr",  "epollorder", "oversleep", "preempt",
                                           "bbpreempt", "pick",  "stall",    "walljump", "cvspurious", "vanish", "peerop", "sockerr" };

u64 hashStr(const char* s) { return hashBytes(s, strlen(s)); }
u64 hashBytes(const void* p, size_t n, u64 h)
{
    auto b = (const uint8_t*)p;
    while (n >= 8) {
        u64 v;
        memcpy(&v, b, 8);
        h = mix(h ^ v);
        b += 8;
        n -= 8;
    }
    u64 v = n;
    for (size_t i = 0; i < n; i++) v = (v << 8) | b[i];
    return mix(h ^ v ^ 0x5bd1e995);
}

struct Thread {
    int id = 0;
    int node = 0;
    sem_t sem;
    enum St { READY, BLOCKED, DONE } st = READY;
    const void* obj = nullptr;
    i64 deadline = -1;
    bool timedOut = false;
    u64 readySeq = 0;
    int noPreempt = 0;
    i64 stalledUntil = 0;
    u64 callsSinceBlock = 0;
    std::string name;
};

namespace
{
struct Ev {
    i64 t;
    u64 seq;
    std::function<void()> fn;
};
struct EvLess {
    bool operator()(const Ev* a, const Ev* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; }
};
struct State {
    Plan plan;
    Slot* slot = nullptr;
    i64 now = 1000 * SEC;
    u64 evSeq = 0;
    u64 readySeq = 0;
    std::priority_queue<Ev*, std::vector<Ev*>, EvLess> events;
    std::vector<Thread*> threads;
    bool inKernel = false;
    u64 asked[F_NKINDS] = {};
    double rate[F_NKINDS] = {};
    u64 lastIdx[F_NKINDS] = {};
    bool netFaults = true, schedFaults = true;
    u64 rndCtr[16] = {};
    i64 steadyBase[16] = {}, wallBase[16] = {};
    i64 limit = 0;
    const char* limitCls = "stuck";
    u64 lastBbTime = 0;
    u64 bbNext = ~0ULL;
    u64 bbHang = 0;
    u64 clkCtr = 0;
    u64 picks = 0;
    u64 edgeCtr = 0;
    std::set<uint32_t> edges;
    std::map<std::string, int> probes;
    int stalls = 0;
    i64 stallTotal = 0;
    i64 microStallMax = 0;
};
State* S = nullptr;
thread_local Thread* self = nullptr;

void nextBbPreempt()
{
    if (S->rate[F_BBPREEMPT] <= 0) {
        S->bbNext = ~0ULL;
        return;
    }
    const u64 h = hash3(S->plan.seed, 0xbb00 + F_BBPREEMPT, S->asked[F_BBPREEMPT]);
    const double mean = 1.0 / S->rate[F_BBPREEMPT];
    S->bbNext = g_bb + 1 + (u64)(unit(h) * 2 * mean);
}
} // namespace

u64 g_bb = 0;
bool g_on = false;

bool inSim() { return self != nullptr; }
bool active() { return self != nullptr && !S->inKernel; }
const Plan& plan() { return S->plan; }
u64 seed() { return S->plan.seed; }
i64 now() { return S->now; }
int currentThreadId() { return self ? self->id : -1; }
int currentNode() { return self ? self->node : 0; }
void setNode(int n)
{
    if (self) self->node = n;
}
NoPreempt::NoPreempt()
{
    if (self) self->noPreempt++;
}
NoPreempt::~NoPreempt()
{
    if (self) self->noPreempt--;
}
Kernel::Kernel()
{
    prev = S->inKernel;
    S->inKernel = true;
}
Kernel::~Kernel() { S->inKernel = prev; }

bool tracing() { return S && S->plan.trace; }
void traceMix(u64 v)
{
    if (S) S->slot->traceHash = hash2(S->slot->traceHash, v);
}
void tlog(const char* fmt, ...)
{
    if (!tracing()) return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(S->plan.traceFile, "[%12.6f t%d n%d] ", (double)(S->now - 1000 * SEC) / 1e9, self ? self->id : -1, self ? self->node : -1);
    vfprintf(S->plan.traceFile, fmt, ap);
    fputc('\n', S->plan.traceFile);
    va_end(ap);
}

static void finish(int status)
{
    S->slot->simTime = S->now - 1000 * SEC;
    S->slot->bbs = g_bb;
    if (S->plan.traceFile) fflush(S->plan.traceFile);
    S->slot->status = status;
    _exit(status == 1 ? 0 : status == 2 ? 42 : 43);
}

void violation(const char* prop, const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    snprintf(S->slot->prop, sizeof(S->slot->prop), "%s", prop);
    snprintf(S->slot->cls, sizeof(S->slot->cls), "%s", cls);
    vsnprintf(S->slot->msg, sizeof(S->slot->msg), fmt, ap);
    va_end(ap);
    tlog("VIOLATION %s %s: %s", prop, cls, S->slot->msg);
    finish(2);
    abort();
}
void simError(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    snprintf(S->slot->cls, sizeof(S->slot->cls), "simerror");
    vsnprintf(S->slot->msg, sizeof(S->slot->msg), fmt, ap);
    va_end(ap);
    tlog("SIMERROR %s", S->slot->msg);
    finish(3);
    abort();
}
void finishOk()
{
    tlog("run finished ok");
    finish(1);
    abort();
}

static int probeIndex(const char* name)
{
    auto it = S->probes.find(name);
    if (it != S->probes.end()) return it->second;
    if (S->slot->nProbes >= kMaxProbes) return -1;
    int i = S->slot->nProbes++;
    snprintf(S->slot->probeName[i], 48, "%s", name);
    S->probes[name] = i;
    return i;
}
void probe(const char* name, u64 add)
{
    Kernel k;
    int i = probeIndex(name);
    if (i >= 0) S->slot->probeVal[i] += add;
}
u64 probeGet(const char* name)
{
    Kernel k;
    int i = probeIndex(name);
    return i >= 0 ? S->slot->probeVal[i] : 0;
}
void checked(u64 n) { S->slot->checks = S->slot->checks + n; }

void begin(const Plan& p, Slot* slot)
{
    S = new State();
    S->plan = p;
    S->slot = slot;
    auto t = new Thread();
    t->id = 0;
    t->name = "driver";
    sem_init(&t->sem, 0, 0);
    S->threads.push_back(t);
    self = t;
    for (int i = 0; i < 16; i++) {
        S->steadyBase[i] = (i64)(hash3(p.seed, 77, i) % 1000000) * SEC / 10;
        S->wallBase[i] = 1700000000LL * SEC + (i64)(hash3(p.seed, 78, i) % 400) * SEC;
    }
    slot->traceHash = p.seed;
    g_bb = 0;
    g_on = true;
}

// ---------------------------------------------------------------- faults
void setRate(FK k, double p)
{
    S->rate[k] = p;
    if (k == F_BBPREEMPT) nextBbPreempt();
}
double rate(FK k) { return S->rate[k]; }
static bool isNetKind(FK k) { return (k >= F_LOSS && k <= F_INJECT) || k == F_SENDERR || k == F_RECVERR || k == F_KILL || k == F_PEEROP; }
bool fault(FK k, double p)
{
    const u64 idx = S->asked[k]++;
    S->slot->asked[k] = S->asked[k];
    S->lastIdx[k] = idx;
    bool f;
    if (k != F_OP) {
        if (isNetKind(k) ? !S->netFaults : !S->schedFaults) return false;
    }
    if (S->plan.listed[k])
        f = S->plan.allow[k].count((uint32_t)idx) > 0;
    else
        f = !S->plan.kindOff[k] && p > 0 && unit(hash3(S->plan.seed, 100 + k, idx)) < p;
    if (f) {
        S->slot->fired[k]++;
        if (S->slot->nFired < (uint32_t)kMaxFired) {
            auto& x = S->slot->firedList[S->slot->nFired];
            x.kind = k;
            x.idx = (uint32_t)idx & 0xffffff;
            S->slot->nFired = S->slot->nFired + 1;
        }
        if (k != F_OP && k != F_PICK && k != F_PREEMPT && k != F_BBPREEMPT && k != F_EPOLLORD) tlog("fault %s #%llu", kFaultName[k], (unsigned long long)idx);
    }
    return f;
}
u64 faultParam(FK k, u64 salt) { return hash3(hash2(S->plan.seed, 1000 + k), S->lastIdx[k], salt); }
bool op()
{
    const bool r = fault(F_OP, 1.0);
    if (r) S->slot->ops = S->slot->ops + 1;
    return r;
}
u64 opParam(u64 salt) { return faultParam(F_OP, salt); }
void faultsOff(bool network, bool sched)
{
    if (network) S->netFaults = false;
    if (sched) {
        S->schedFaults = false;
        S->bbNext = ~0ULL;
    }
}
bool faultsEnabled() { return S->netFaults; }

u64 param(const char* name) { return hash3(S->plan.seed, 0x9a9a, hashStr(name)); }
i64 paramRange(const char* name, i64 lo, i64 hi) { return lo + (i64)(param(name) % (u64)(hi - lo + 1)); }
double paramReal(const char* name, double lo, double hi) { return lo + unit(param(name)) * (hi - lo); }
bool paramBool(const char* name, double p) { return unit(param(name)) < p; }
uint32_t edgeValue(uint32_t v, uint32_t lo, uint32_t hi)
{
    const u64 h = hash3(S->plan.seed, 0xed9e, S->edgeCtr++);
    if (hash2(S->plan.seed, 0xed9f) % 2 || h % 3) return v; // in half of the runs, a third of the values
    const uint32_t d = (uint32_t)((h >> 8) % 700);
    const uint32_t mid = lo + (hi - lo) / 2;
    const uint32_t r = (h >> 4) % 8 < 5 ? hi - d : (h >> 4) % 8 < 6 ? lo + d : mid + 350 - d;
    return S->edges.insert(r).second ? r : v; // never twice: identifiers are drawn from here too
}
u64 rndNode(int node)
{
    node &= 15;
    return hash3(S->plan.seed, 5000 + node, S->rndCtr[node]++);
}
void rndBytes(void* p, size_t n)
{
    auto b = (uint8_t*)p;
    while (n) {
        u64 v = rndNode(currentNode());
        size_t k = n < 8 ? n : 8;
        memcpy(b, &v, k);
        b += k;
        n -= k;
    }
}

// ---------------------------------------------------------------- time
i64 nodeSteady(int n) { return S->now + S->steadyBase[n & 15]; }
i64 nodeWall(int n) { return S->now + S->wallBase[n & 15]; }
void setClockBase(int n, i64 s, i64 w)
{
    S->steadyBase[n & 15] = s;
    S->wallBase[n & 15] = w;
}
const char* const kScriptedName[N_SCRIPTED] = { "scripted_blackholed_datagrams", "scripted_lost_datagrams", "scripted_delayed_datagrams", "scripted_injected_datagrams", "scripted_wall_clock_jumps", "scripted_vanished_nodes" };
void scripted(Scripted s) { S->slot->scripted[s]++; }
void jumpWall(int n, i64 d)
{
    scripted(SC_WALLJUMPS);
    S->wallBase[n & 15] += d;
    tlog("wall clock of node %d jumps by %.3f s", n, (double)d / 1e9);
}
static void burnTime(i64 extra)
{
    // executed basic blocks take time
    S->now += extra + (i64)(g_bb - S->lastBbTime);
    S->lastBbTime = g_bb;
}
i64 readClock(bool wall)
{
    if (!S->inKernel) burnTime(60);
    return wall ? nodeWall(currentNode()) : nodeSteady(currentNode());
}

// ---------------------------------------------------------------- scheduling
static void wakeThread(Thread* t, bool timedOut)
{
    t->st = Thread::READY;
    t->obj = nullptr;
    t->deadline = -1;
    t->timedOut = timedOut;
    t->readySeq = ++S->readySeq;
}

static void runDue()
{
    while (!S->events.empty() && S->events.top()->t <= S->now) {
        auto e = S->events.top();
        S->events.pop();
        const bool prev = S->inKernel;
        S->inKernel = true;
        e->fn();
        S->inKernel = prev;
        delete e;
    }
    for (auto t : S->threads) {
        if (t->st == Thread::BLOCKED && t->deadline >= 0 && t->deadline <= S->now) wakeThread(t, true);
    }
}

static void dispatch()
{
    // called with self->st set; chooses who runs next
    const bool prevK = S->inKernel;
    S->inKernel = true;
    Thread* next = nullptr;
    while (true) {
        runDue();
        std::vector<Thread*> ready;
        i64 stallMin = INT64_MAX;
        for (auto t : S->threads) {
            if (t->st == Thread::READY) {
                if (t->stalledUntil > S->now) stallMin = std::min(stallMin, t->stalledUntil);
                else ready.push_back(t);
            }
        }
        if (ready.empty()) {
            i64 m = stallMin;
            if (!S->events.empty()) m = std::min(m, S->events.top()->t);
            for (auto t : S->threads)
                if (t->st == Thread::BLOCKED && t->deadline >= 0) m = std::min(m, t->deadline);
            if (m == INT64_MAX) {
                std::string s;
                for (auto t : S->threads)
                    if (t->st == Thread::BLOCKED) s += " t" + std::to_string(t->id) + ":" + t->name + "(node " + std::to_string(t->node) + ")";
                violation(S->plan.prop.c_str(), "deadlock", "no simulated thread can ever run again; blocked:%s", s.c_str());
            }
            S->now = std::max(S->now, m);
            if (S->limit && S->now > S->limit) {
                std::string s;
                for (auto t : S->threads)
                    if (t->st != Thread::DONE) s += " t" + std::to_string(t->id) + ":" + t->name + (t->st == Thread::BLOCKED ? "(blocked)" : "(ready)");
                violation(S->plan.prop.c_str(), S->limitCls, "the run did not end by %.1f simulated seconds; threads:%s", (double)(S->limit - 1000 * SEC) / 1e9, s.c_str());
            }
            continue;
        }
        std::sort(ready.begin(), ready.end(), [](Thread* a, Thread* b) { return a->readySeq < b->readySeq; });
        next = ready[0];
        if (ready.size() > 1 && fault(F_PICK)) next = ready[1 + faultParam(F_PICK) % (ready.size() - 1)];
        break;
    }
    S->inKernel = prevK;
    if (next != self) {
        S->slot->switches = S->slot->switches + 1;
        S->slot->schedHash = hash3(S->slot->schedHash, (u64)(self->id * 64 + next->id), 0);
        traceMix((u64)next->id * 1000003 + (u64)S->now);
        auto me = self;
        S->inKernel = false;
        const bool done = me->st == Thread::DONE;
        sem_post(&next->sem);
        if (done) return;
        while (sem_wait(&me->sem) != 0) {
        }
        S->inKernel = prevK;
    }
}

// a preempted thread may not get the processor back for a while
void setMicroStalls(i64 max) { S->microStallMax = max; }
static void microStall(u64 r)
{
    if (S->microStallMax && r % 3 == 0) self->stalledUntil = S->now + (i64)((r >> 8) % (u64)S->microStallMax);
}
void yieldPoint(FK kind)
{
    if (!self || S->inKernel) return;
    self->callsSinceBlock++;
    if (self->callsSinceBlock > 3000000)
        violation(S->plan.prop.c_str(), "busy-loop", "thread %d (%s) made 3000000 system calls or lock operations without ever blocking", self->id, self->name.c_str());
    if (!S->events.empty() && S->events.top()->t <= S->now) runDue();
    if (S->limit && S->now > S->limit)
        violation(S->plan.prop.c_str(), S->limitCls, "the run did not end by %.1f simulated seconds (thread %d %s still running)", (double)(S->limit - 1000 * SEC) / 1e9, self->id, self->name.c_str());
    if (self->noPreempt) return;
    if (self->node > 0 && S->rate[F_STALL] > 0 && fault(F_STALL)) {
        const u64 r = faultParam(F_STALL);
        i64 d = (r % 4 == 0) ? (i64)(r >> 8) % (3 * SEC) : (i64)(r >> 8) % (200 * MS);
        self->stalledUntil = S->now + d;
        S->stalls++;
        S->stallTotal += d;
        tlog("thread stalls for %.3f ms", (double)d / 1e6);
        self->readySeq = ++S->readySeq;
        dispatch();
        return;
    }
    if (fault(kind)) {
        microStall(faultParam(kind));
        self->readySeq = ++S->readySeq;
        dispatch();
    }
}
int stallVictims() { return S->stalls; }
i64 stallTotal() { return S->stallTotal; }
void stallThread(i64 d)
{
    self->stalledUntil = S->now + d;
    self->readySeq = ++S->readySeq;
    dispatch();
}

bool blockOn(const void* obj, i64 deadline)
{
    if (self->noPreempt) {
        // cannot give up the processor inside a one-time initialiser: would be a simulator limitation
        simError("blocking inside a no-preempt section");
    }
    burnTime(0);
    self->callsSinceBlock = 0;
    self->st = Thread::BLOCKED;
    self->obj = obj;
    self->deadline = deadline;
    self->timedOut = false;
    dispatch();
    return !self->timedOut;
}
void wakeAll(const void* obj)
{
    for (auto t : S->threads)
        if (t->st == Thread::BLOCKED && t->obj == obj) wakeThread(t, false);
}
void wakeOne(const void* obj)
{
    std::vector<Thread*> w;
    for (auto t : S->threads)
        if (t->st == Thread::BLOCKED && t->obj == obj) w.push_back(t);
    if (w.empty()) return;
    size_t i = 0;
    if (w.size() > 1 && fault(F_PICK)) i = 1 + faultParam(F_PICK) % (w.size() - 1);
    wakeThread(w[i], false);
}
void sleepUntil(i64 t)
{
    if (t <= S->now) t = S->now + 1;
    static int sleepObj;
    blockOn(&sleepObj + 0, t);
    self->callsSinceBlock = 0;
}
bool waitFor(const std::function<bool()>& pred, i64 timeout, i64 step)
{
    const i64 end = S->now + timeout;
    while (true) {
        bool ok;
        {
            Kernel k;
            ok = pred();
        }
        if (ok) return true;
        if (S->now >= end) return false;
        sleepUntil(std::min(end, S->now + step));
    }
}
void setTimeLimit(i64 t, const char* cls)
{
    S->limit = t;
    S->limitCls = cls;
}
void at(i64 t, std::function<void()> fn)
{
    auto e = new Ev{ std::max(t, S->now), ++S->evSeq, std::move(fn) };
    S->events.push(e);
}
u64 callsSinceBlock(int) { return self->callsSinceBlock; }

// ---------------------------------------------------------------- threads
Thread* prepareThread(const char* name)
{
    Kernel k;
    auto t = new Thread();
    t->id = (int)S->threads.size();
    t->node = self->node;
    t->name = name;
    sem_init(&t->sem, 0, 0);
    t->readySeq = ++S->readySeq;
    S->threads.push_back(t);
    if (t->id > 1000) simError("too many threads");
    traceMix(0x7000 + t->id);
    return t;
}
void enterThread(Thread* t)
{
    while (sem_wait(&t->sem) != 0) {
    }
    self = t;
}
void exitThread()
{
    auto me = self;
    me->st = Thread::DONE;
    wakeAll(me);
    traceMix(0x8000 + me->id);
    dispatch();
    self = nullptr;
}
bool threadDone(Thread* t) { return t->st == Thread::DONE; }
int threadId(Thread* t) { return t->id; }
void joinWait(Thread* t)
{
    while (t->st != Thread::DONE) blockOn(t, -1);
}
} // namespace sim

// ---------------------------------------------------------------- basic block hook
using namespace sim;
extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc()
{
    if (!g_on || !self || S->inKernel) return;
    g_bb++;
    S->slot->cov[((uintptr_t)__builtin_return_address(0) * 2654435761u >> 8) & 0xffff] = 1;
    if (g_bb >= S->bbNext) {
        S->asked[F_BBPREEMPT]++;
        const u64 idx = S->asked[F_BBPREEMPT] - 1;
        nextBbPreempt();
        bool f = false;
        if (S->schedFaults && !self->noPreempt) {
            f = S->plan.listed[F_BBPREEMPT] ? S->plan.allow[F_BBPREEMPT].count((uint32_t)idx) > 0 : !S->plan.kindOff[F_BBPREEMPT];
        }
        if (f) {
            S->slot->fired[F_BBPREEMPT]++;
            if (S->slot->nFired < (uint32_t)kMaxFired) {
                auto& x = S->slot->firedList[S->slot->nFired];
                x.kind = F_BBPREEMPT;
                x.idx = (uint32_t)idx & 0xffffff;
                S->slot->nFired = S->slot->nFired + 1;
            }
            microStall(hash3(S->plan.seed, 0x5ba11, idx));
            self->readySeq = ++S->readySeq;
            dispatch();
        }
        S->slot->asked[F_BBPREEMPT] = S->asked[F_BBPREEMPT];
    }
    if ((g_bb & 0xffffff) == 0) {
        static u64 lastT;
        static i64 lastNow;
        if (lastNow == S->now && lastT) {
            if (g_bb - lastT > 250000000ULL)
                violation(S->plan.prop.c_str(), "hang", "thread %d (%s) executed 250 million basic blocks without any system call, lock or clock read", self->id, self->name.c_str());
        } else {
            lastNow = S->now;
            lastT = g_bb;
        }
    }
}
namespace sim
{
void noPreemptAdd(int d)
{
    if (self) self->noPreempt += d;
}
} // namespace sim
