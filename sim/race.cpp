// Happens-before data race and use-after-free detection for FLAVOUR=race: the repository is compiled with
// -fsanitize=thread, but instead of the TSan runtime the calls the compiler inserts come here. Which accesses are
// ordered follows from what the simulated threads did: locks, thread starts and joins, atomics, once flags, eventfds.
#include "core.h"
#include "race.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <sys/mman.h>
#include <unordered_map>
#include <vector>

using namespace sim;

#ifndef SIM_RACE
namespace race
{
bool on = false;
void acquire(const void*) {}
void release(const void*) {}
void threadStart(int, int) {}
void threadJoin(int) {}
void sharedBuffer(const void*) {}
void blockNew(void*, size_t) {}
bool blockFree(void*, void*, size_t, const void*) { return false; }
} // namespace race
#else
namespace race
{
bool on = true;
namespace
{
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
constexpr int kReads = 3;
struct Cell {
    u32 wclk, wpc;
    u32 rclk[kReads], rpc[kReads];
    u16 wtid, rtid[kReads];
    u8 wmask, rmask[kReads];
    u8 state; // 0: not tracked, 1: in use, 2: freed
};
struct Page {
    Cell c[512];
};
Page** gTop[2048];
Page* page(uintptr_t a, bool make)
{
    Page**& l1 = gTop[(a >> 36) & 2047];
    if (!l1) {
        if (!make) return nullptr;
        l1 = (Page**)mmap(nullptr, (size_t)(1 << 24) * sizeof(Page*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (l1 == MAP_FAILED) abort();
    }
    Page*& p = l1[(a >> 12) & 0xffffff];
    if (!p && make) {
        p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) abort();
    }
    return p;
}
typedef std::vector<u32> VC;
std::vector<VC>& clocks()
{
    static std::vector<VC>* v; // no guard: the guards come here
    if (!v) {
        Kernel k;
        v = new std::vector<VC>();
    }
    return *v;
}
std::unordered_map<const void*, VC>& syncs()
{
    static std::unordered_map<const void*, VC>* m; // no guard: the guards come here
    if (!m) {
        Kernel k;
        m = new std::unordered_map<const void*, VC>();
    }
    return *m;
}
VC& mine(int t)
{
    auto& c = clocks();
    if ((int)c.size() <= t) c.resize(t + 1);
    auto& v = c[t];
    if ((int)v.size() <= t) v.resize(t + 1, 0);
    if (v[t] == 0) v[t] = 1;
    return v;
}
void join(VC& a, const VC& b)
{
    if (a.size() < b.size()) a.resize(b.size(), 0);
    for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
bool before(const VC& v, int t, u32 clk) { return (size_t)t < v.size() && v[t] >= clk; }

std::string place(u32 pc)
{
    char cmd[160], line[512];
    snprintf(cmd, sizeof cmd, "addr2line -s -f -C -e /proc/%d/exe 0x%x 2>/dev/null", (int)getpid(), pc ? pc - 1 : 0);
    std::string fn = "?", at = "?";
    if (FILE* f = popen(cmd, "r")) {
        if (fgets(line, sizeof line, f)) fn = line;
        if (fgets(line, sizeof line, f)) at = line;
        pclose(f);
    }
    while (!fn.empty() && fn.back() == '\n') fn.pop_back();
    while (!at.empty() && at.back() == '\n') at.pop_back();
    if (auto p = fn.find('('); p != std::string::npos && p > 0) fn.resize(p);
    if (auto p = at.find(' '); p != std::string::npos) at.resize(p);
    return fn + " (" + at + ")";
}
// the frames of the current thread, as the compiler announces them
struct Frames {
    u32 pc[512];
    int n = 0;
};
thread_local Frames frames;

[[noreturn]] void report(const char* kind, bool w1, int t1, u32 pc1, bool w2, u32 pc2)
{
    Kernel k;
    std::string stack;
    for (int i = frames.n - 1, n = 0; i >= 0 && i < 512 && n < 6; i--, n++) stack += " < " + place(frames.pc[i]);
    const std::string a = place(pc2), b = place(pc1);
    auto func = [](const std::string& s) { return s.substr(0, s.find(" (")); };
    std::string cls = std::string(kind) + ":" + func(a) + "/" + func(b);
    violation(plan().prop.c_str(), cls.substr(0, 90).c_str(), "%s: thread %d %s in %s%s; unordered with thread %d, %s in %s", kind, currentThreadId(), w2 ? "writes" : "reads", a.c_str(), stack.c_str(), t1, w1 ? strcmp(kind, "use-after-free") ? "writes" : "frees" : "reads", b.c_str());
}

extern "C" char __data_start, _end;

inline void granule(uintptr_t g, u8 mask, bool write, u32 pc, int tid, const VC& v)
{
    Page* p = page(g, false);
    if (!p) {
        if (g < (uintptr_t)&__data_start || g >= (uintptr_t)&_end) return;
        p = page(g, true);
    }
    Cell& c = p->c[(g >> 3) & 511];
    if (c.state == 0) {
        if (g < ((uintptr_t)&__data_start & ~7ULL) || g >= (uintptr_t)&_end) return;
        c.state = 1;
    }
    if (c.state == 2) {
        if (c.wmask & mask) report("use-after-free", true, c.wtid, c.wpc, write, pc);
        return;
    }
    if ((c.wmask & mask) && c.wtid != tid && !before(v, c.wtid, c.wclk)) report("data-race", true, c.wtid, c.wpc, write, pc);
    if (write) {
        for (int i = 0; i < kReads; i++)
            if ((c.rmask[i] & mask) && c.rtid[i] != tid && !before(v, c.rtid[i], c.rclk[i])) report("data-race", false, c.rtid[i], c.rpc[i], write, pc);
        c.wtid = (u16)tid;
        c.wclk = v[tid];
        c.wpc = pc;
        c.wmask = mask;
        return;
    }
    int slot = -1;
    for (int i = 0; i < kReads; i++)
        if (c.rmask[i] && c.rtid[i] == tid) slot = i;
    for (int i = 0; i < kReads && slot < 0; i++)
        if (!c.rmask[i] || before(v, c.rtid[i], c.rclk[i])) slot = i;
    if (slot < 0) slot = 0;
    if (c.rmask[slot] && c.rtid[slot] == tid && c.rclk[slot] == v[tid]) {
        c.rmask[slot] |= mask;
    } else {
        c.rmask[slot] = mask;
    }
    c.rtid[slot] = (u16)tid;
    c.rclk[slot] = v[tid];
    c.rpc[slot] = pc;
}
void access(const void* ptr, size_t n, bool write, const void* retpc)
{
    if (!active() || !n) return;
    const int tid = currentThreadId();
    const VC& v = mine(tid);
    uintptr_t a = (uintptr_t)ptr, e = a + n;
    const u32 pc = (u32)(uintptr_t)retpc;
    while (a < e) {
        const uintptr_t g = a & ~7ULL;
        const int lo = (int)(a - g), hi = (int)std::min<uintptr_t>(8, e - g);
        const u8 mask = (u8)(((1u << hi) - 1) & ~((1u << lo) - 1));
        granule(g, mask, write, pc, tid, v);
        a = g + 8;
    }
}
struct Quarantined {
    void* raw;
    void* p;
    size_t n;
};
std::deque<Quarantined>& quarantine()
{
    static std::deque<Quarantined>* q; // no guard: the guards come here
    if (!q) {
        Kernel k;
        q = new std::deque<Quarantined>();
    }
    return *q;
}
size_t gHeld = 0;
} // namespace

void acquire(const void* o)
{
    if (!active()) return;
    Kernel k;
    auto it = syncs().find(o);
    if (it != syncs().end()) join(mine(currentThreadId()), it->second);
}
void release(const void* o)
{
    if (!active()) return;
    Kernel k;
    auto& v = mine(currentThreadId());
    join(syncs()[o], v);
    v[currentThreadId()]++;
}
void threadStart(int parent, int child)
{
    Kernel k;
    mine(child);
    VC v = mine(parent);
    join(mine(child), v);
    mine(parent)[parent]++;
}
void threadJoin(int child)
{
    Kernel k;
    VC v = mine(child);
    join(mine(currentThreadId()), v);
}
// a call into the C library which writes to a buffer shared by all threads
void sharedBuffer(const void* retpc)
{
    static unsigned long long buffer;
    access(&buffer, 8, true, retpc);
}
void blockNew(void* p, size_t n)
{
    for (uintptr_t a = (uintptr_t)p & ~7ULL; a < (uintptr_t)p + n; a += 8) {
        Cell& c = page(a, true)->c[(a >> 3) & 511];
        memset(&c, 0, sizeof c);
        c.state = 1;
    }
}
bool blockFree(void* raw, void* p, size_t n, const void* retpc)
{
    if (active() && n) access(p, n, true, retpc);
    Kernel k;
    for (uintptr_t a = (uintptr_t)p & ~7ULL; a < (uintptr_t)p + n; a += 8)
        if (Page* pg = page(a, false)) {
            Cell& c = pg->c[(a >> 3) & 511];
            c.state = 2;
            c.wtid = (u16)currentThreadId();
            c.wpc = (u32)(uintptr_t)retpc;
        }
    quarantine().push_back({ raw, p, n });
    gHeld += n + 64;
    while (gHeld > ((size_t)16 << 20)) {
        auto q = quarantine().front();
        quarantine().pop_front();
        gHeld -= q.n + 64;
        for (uintptr_t a = (uintptr_t)q.p & ~7ULL; a < (uintptr_t)q.p + q.n; a += 8)
            if (Page* pg = page(a, false)) memset(&pg->c[(a >> 3) & 511], 0, sizeof(Cell));
        free(q.raw);
    }
    return true;
}
} // namespace race

#define PC __builtin_return_address(0)
#define ACCESS(n) \
    void __tsan_read##n(void* p) { race::access(p, n, false, PC); } \
    void __tsan_write##n(void* p) { race::access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { race::access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { race::access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { race::access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { race::access(p, n, true, PC); }
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) \
    { \
        race::acquire((const void*)a); \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) \
    { \
        race::release((const void*)a); \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) \
    { \
        race::acquire((const void*)a); \
        race::release((const void*)a); \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    RMW(bits, T, fetch_add) RMW(bits, T, fetch_sub) RMW(bits, T, fetch_and) RMW(bits, T, fetch_or) RMW(bits, T, fetch_xor) RMW(bits, T, fetch_nand) \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) \
    { \
        race::acquire((const void*)a); \
        const bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (r) race::release((const void*)a); \
        return r; \
    } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int o, int p) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, o, p); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int o, int p) \
    { \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, o, p); \
        return c; \
    }
#define RMW(bits, T, op) \
    T __tsan_atomic##bits##_##op(volatile T* a, T v, int) \
    { \
        race::acquire((const void*)a); \
        race::release((const void*)a); \
        return __atomic_##op(a, v, __ATOMIC_SEQ_CST); \
    }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    auto& f = race::frames;
    if (f.n < 512) f.pc[f.n] = (uint32_t)(uintptr_t)pc;
    f.n++;
}
void __tsan_func_exit()
{
    if (race::frames.n > 0) race::frames.n--;
}
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
void __tsan_read_range(void* p, unsigned long n) { race::access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { race::access(p, n, true, PC); }
void __tsan_vptr_read(void** p) { race::access(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v) race::access(p, 8, true, PC);
}
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#endif
