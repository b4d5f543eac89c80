// C23: the task schedulers, called from several threads, against a small reference model.
#include "scen.h"
#include "srtc/scheduler.h"
#include <deque>
#include "race.h"
#include <thread>
using std::shared_ptr;
using std::string;
using std::weak_ptr;

namespace
{
using Ms = std::chrono::milliseconds;
struct Arm { // one (re-)scheduling of a task
    i64 callAt = 0, retAt = 0, delay = 0; // monotonic clock of the node
    bool replaced = false;                // by an update, which was called at
    i64 replCall = 0, replRet = 0;
    bool maybe = false; // need not run
};
struct Tk {
    int id = 0;
    int scope = -1; // -1: directly on the scheduler
    weak_ptr<srtc::Task> h;
    std::vector<Arm> arms;
    bool cancelCalled = false, cancelReturned = false, cancelFromInside = false;
    bool killed = false; // its scheduler's destructor has returned
    bool killing = false;
    int runs = 0, runsAtUpdate = 0;
    bool running = false, updatedInRun = false;
    i64 lastStart = 0;
    i64 work = 0;      // how long it runs
    int inside = 0;    // what it does while running
    i64 insideDelay = 0;
    int depth = 0;
    bool busy = false; // a thread is operating on the handle
};
struct Model {
    std::deque<Tk> tasks;
    shared_ptr<srtc::RealScheduler> real;
    std::vector<srtc::ScopedScheduler*> scopes;
    bool quiet = false; // tasks do nothing but run
    std::vector<int> scopeState;  // 0 alive, 1 destructor running, 2 gone
    std::vector<int> scopeUsers;
    bool loop = false;
    bool sparse = false;
    bool realGone = false, realGoing = false;
    int realUsers = 0;
    int runningNow = 0;
    i64 busyUntil = 0, workTotal = 0;
    u64 n = 0;
    i64 clk() { return nodeSteady(1); }

    void run(int id)
    {
        int inside;
        i64 work;
        {
            Kernel k;
            Tk& t = tasks[id];
            checked();
            probe("tasks_run");
            if (runningNow) violation("C23", "overlap", "task %d started while another task was running", id);
            runningNow++;
            t.running = true;
            t.updatedInRun = false;
            const i64 c = clk();
            tlog("task %d starts", id);
            if (realGone) violation("C23", "run-after-destruction", "task %d started after its scheduler was destroyed", id);
            // an update may race with the start of the task: then that run is not affected by what happens to the new one
            bool raced = false;
            for (auto& a : t.arms)
                if (!loop && a.delay != -1 && a.replaced && a.replRet && a.replRet >= a.callAt + a.delay) raced = true;
            if (t.killed && !raced) violation("C23", "run-after-destruction", "task %d started after its scoped scheduler was destroyed", id);
            if (t.cancelReturned && !raced) violation("C23", "run-after-cancel", "task %d started after it had been cancelled", id);
            // which arm may this be?
            Arm* best = nullptr;
            const i64 bound = 1 * MS; // the time points are computed from the clock, read within the call
            (void)bound;
            for (auto& a : t.arms) {
                if (a.delay == -1) continue; // used
                if (c < a.callAt + a.delay) continue;
                if (a.replaced && (loop || (a.replRet && a.replRet < a.callAt + a.delay))) continue; // was replaced before it was due
                best = &a; // the latest, if it may be any of several
            }
            if (!best) {
                const Arm* last = nullptr;
                for (auto& a : t.arms)
                    if (a.delay != -1 && !(a.replaced && (loop || (a.replRet && a.replRet < a.callAt + a.delay)))) last = &a;
                if (last) violation("C23", "early", "task %d started %.3f ms before it was due", id, (double)(last->callAt + last->delay - c) / 1e6);
                violation("C23", t.arms.size() > 1 ? "run-at-old-time" : "ran-twice", "task %d started although it is not scheduled (%d runs, %zu schedulings)", id, t.runs, t.arms.size());
            }
            // order: another task which is certainly due earlier, and certainly queued, must not be left behind
            for (auto& o : tasks) {
                if (o.id == id || o.cancelCalled || o.killing || o.busy) continue;
                for (auto& a : o.arms) {
                    if (a.delay == -1 || a.replaced || a.maybe || !a.retAt) continue;
                    if (a.retAt + a.delay < best->callAt + best->delay && a.retAt < best->callAt + best->delay && a.retAt < c - 200 * MS && stallVictims() == 0)
                        violation("C23", "order", "task %d (due at %.3f) started before task %d (due at %.3f)", id, (double)(best->callAt + best->delay) / 1e6, o.id, (double)(a.retAt + a.delay) / 1e6);
                }
            }
            // promptness
            const i64 due = std::max(best->callAt + best->delay, busyUntil);
            if (!loop && stallVictims() == 0 && c - due > 60 * MS) violation("C23", "late", "task %d started %.3f ms after it was due", id, (double)(c - due) / 1e6);
            best->delay = -1;
            t.runs++;
            t.lastStart = c;
            inside = t.inside;
            work = t.work;
        }
        if (inside && !quiet) act(inside, id);
        if (work) sleepFor(work);
        {
            Kernel k;
            tasks[id].running = false;
            runningNow--;
            busyUntil = clk();
            tlog("task %d ends", id);
        }
    }
    void act(int what, int id)
    {
        switch (what) {
        case 1: submit(id); break;
        case 2: cancel(id, id); break;         // itself
        case 3: update(id, id); break;         // itself
        case 4: cancel(pick(id), id); break;   // another
        case 5: update(pick(id), id); break;
        }
    }
    int pick(int salt)
    {
        Kernel k;
        if (tasks.empty()) return -1;
        return (int)(hash3(seed(), 0x91c4, (u64)salt * 7919 + n++) % tasks.size());
    }
    int enter(int scope) // a user of a scheduler keeps it alive
    {
        Kernel k;
        if (realGoing) return 0;
        if (scope >= 0 && scopeState[scope] != 0) return 0;
        realUsers++;
        if (scope >= 0) scopeUsers[scope]++;
        return 1;
    }
    // what an application does to hand things from one thread to another
    static const void* key(int kind, int i) { return (const void*)(uintptr_t)(0x100000 * (kind + 1) + i); }
    void leave(int scope)
    {
        race::release(key(2, 0));
        if (scope >= 0) race::release(key(1, scope));
        Kernel k;
        realUsers--;
        if (scope >= 0) scopeUsers[scope]--;
    }
    void submit(int from) // from: the running task, or -1
    {
        u64 h;
        int scope, id;
        i64 delay;
        srtc::Scheduler* s;
        shared_ptr<srtc::RealScheduler> hold;
        {
            Kernel k;
            if (tasks.size() > 400) return;
            h = hash3(seed(), 0x5cbed, n++);
            scope = scopes.empty() ? -1 : (int)(h % (scopes.size() + 1)) - 1;
            if (from >= 0) {
                // a task uses the scheduler it runs on
                scope = tasks[from].scope;
                if (tasks[from].depth > 3) return;
            }
            const u64 r = mix(h ^ 5);
            if (sparse) delay = r % 3 == 0 ? (i64)(r >> 8) % 200 : (i64)(r >> 8) % 6000;
            else delay = r % 6 == 0 ? 0 : r % 6 == 1 ? 1 : r % 6 < 5 ? (i64)(r >> 8) % 120 : (i64)(r >> 8) % 1500;
        }
        if (from < 0) {
            if (!enter(scope)) return;
        } else if (realGoing) {
            return; // an application does not use a scheduler which is being destroyed
        } else if (scope >= 0 && scopeState[scope] == 2) {
            return;
        }
        {
            Kernel k;
            hold = from < 0 ? real : nullptr;
            s = scope >= 0 ? (srtc::Scheduler*)scopes[scope] : (srtc::Scheduler*)real.get();
            Tk t;
            id = t.id = (int)tasks.size();
            t.scope = scope;
            t.work = mix(h ^ 9) % 4 == 0 ? (i64)(mix(h ^ 10) % 20) * MS : 0;
            t.inside = mix(h ^ 11) % 3 == 0 ? 1 + (int)(mix(h ^ 12) % 5) : 0;
            t.depth = from >= 0 ? tasks[from].depth + 1 : 0;
            t.killing = scope >= 0 && scopeState[scope] == 1;
            t.busy = true;
            Arm a;
            a.callAt = clk();
            a.delay = delay * MS;
            t.arms.push_back(a);
            tasks.push_back(t);
            probe("submitted");
            tlog("submit task %d delay %lld scope %d", id, (long long)delay, scope);
        }
        if (op()) {
            auto r = s->submit(Ms(delay), __FILE__, __LINE__, [this, id] { run(id); });
            race::release(key(0, id));
            Kernel k;
            tasks[id].h = r;
            tasks[id].arms[0].retAt = clk();
        } else {
            Kernel k;
            tasks[id].arms[0].delay = -1;
            tasks[id].cancelCalled = true;
        }
        {
            Kernel k;
            tasks[id].busy = false;
            hold.reset();
        }
        if (from < 0) leave(scope);
    }
    bool begin(int id, int from)
    {
        Kernel k;
        Tk& t = tasks[id];
        if (t.cancelCalled) return false; // cancelling twice is covered by `twice`
        if (t.busy) return false;
        // a task may only be cancelled from another task when that one uses the same scheduler
        if (t.scope >= 0 && (scopeState[t.scope] == 2 || (scopeState[t.scope] == 1 && from < 0))) return false;
        if (from >= 0 && t.scope >= 0 && scopeState[t.scope] == 1) return false;
        if (realGoing) return false;
        t.busy = true;
        return true;
    }
    void cancel(int id, int from)
    {
        if (id < 0 || !begin(id, from)) return;
        const int scope = tasks[id].scope;
        const bool guest = true; // the scope is not destroyed meanwhile
        if (guest && !enter(scope)) {
            tasks[id].busy = false;
            return;
        }
        weak_ptr<srtc::Task> h, h2;
        bool twice;
        {
            Kernel k;
            Tk& t = tasks[id];
            t.cancelCalled = true;
            if (t.running && from == id) t.updatedInRun = true;
            h = t.h;
            h2 = t.h;
            twice = from < 0 && !loop && mix(hash3(seed(), 0x7214ce, (u64)id)) % 3 == 0;
            tlog("cancel task %d from %d%s", id, from, twice ? " twice" : "");
            probe("cancelled");
        }
        race::acquire(key(0, id));
        if (op()) {
            if (twice) {
                std::thread th([&] {
                    setNode(1);
                    srtc::Task::cancelHelper(h2);
                });
                srtc::Task::cancelHelper(h);
                th.join();
            } else {
                srtc::Task::cancelHelper(h);
            }
            Kernel k;
            Tk& t = tasks[id];
            t.cancelReturned = true;
            if (t.running && !t.updatedInRun && from < 0 && !loop) violation("C23", "cancel-returned-early", "cancelling task %d returned while it was running", id);
        }
        {
            Kernel k;
            tasks[id].busy = false;
            tlog("cancel task %d returned", id);
        }
        if (guest) leave(scope);
    }
    void update(int id, int from)
    {
        if (id < 0 || !begin(id, from)) return;
        const int scope = tasks[id].scope;
        const bool guest = true; // the scope is not destroyed meanwhile
        if (guest && !enter(scope)) {
            tasks[id].busy = false;
            return;
        }
        i64 delay;
        size_t old;
        {
            Kernel k;
            const u64 r = hash3(seed(), 0x0bda7e, n++);
            delay = sparse && mix(r) % 3 == 0 ? (i64)(r % 4000) : (i64)(r % 300);
            old = tasks[id].arms.size();
            if (tasks[id].running) tasks[id].updatedInRun = true;
            tlog("update task %d from %d to %lld", id, from, (long long)delay);
            probe("updated");
        }
        race::acquire(key(0, id));
        if (op()) {
            shared_ptr<srtc::Task> t;
            {
                Kernel k;
                t = tasks[id].h.lock();
            }
            if (t) {
                {
                    Kernel k;
                    Arm a;
                    a.callAt = clk();
                    a.delay = delay * MS;
                    tasks[id].arms.push_back(a);
                }
                auto r = t->update(Ms(delay));
                race::release(key(0, id));
                Kernel k;
                Tk& m = tasks[id];
                const i64 c = clk();
                // a scoped scheduler does not update a task which has run; the empty result may also mean that it already ran again
                const bool armed = scope < 0 || !r.expired() || m.arms[old].delay == -1;
                if (armed || !loop) {
                    m.h = r;
                    if (!armed) m.arms[old].maybe = true;
                    m.arms[old].retAt = c;
                    for (size_t i = 0; i < old; i++) {
                        m.arms[i].replaced = true;
                        if (!m.arms[i].replRet) m.arms[i].replRet = c;
                        // not needed any more unless it is being run right now
                    }
                } else {
                    m.arms[old].delay = -1; // had already run
                }
                t.reset();
            }
        }
        {
            Kernel k;
            tasks[id].busy = false;
        }
        if (guest) leave(scope);
    }
    void killScope(int i)
    {
        while (true) {
            {
                Kernel k;
                if (scopeState[i]) return;
                if (!scopeUsers[i]) {
                    scopeState[i] = 1;
                    for (auto& t : tasks)
                        if (t.scope == i) t.killing = true;
                    tlog("destroy scope %d", i);
                    probe("scopes_destroyed");
                    break;
                }
            }
            sleepFor(1 * MS);
        }
        race::acquire(key(1, i));
        delete scopes[i];
        race::release(key(2, 0));
        Kernel k;
        scopeState[i] = 2;
        tlog("scope %d destroyed", i);
        for (auto& t : tasks) {
            if (t.scope != i) continue;
            t.killed = true;
            if (t.running && !t.updatedInRun && !loop) violation("C23", "destroyed-while-running", "the destructor of a scoped scheduler returned while task %d was running", t.id);
        }
    }
    void killReal()
    {
        while (true) {
            {
                Kernel k;
                if (!realUsers) {
                    realGoing = true;
                    for (auto& t : tasks) t.killing = true;
                    tlog("destroy scheduler");
                    break;
                }
            }
            sleepFor(1 * MS);
        }
        race::acquire(key(2, 0));
        real.reset();
        Kernel k;
        realGone = true;
        tlog("scheduler destroyed");
    }
    // everything which was to run has run
    void settled()
    {
        Kernel k;
        for (auto& t : tasks) {
            if (t.cancelCalled || t.killing) continue;
            for (auto& a : t.arms) {
                if (a.delay == -1 || a.replaced || a.maybe || clk() - a.callAt - a.delay < (stallVictims() ? 5 * SEC : 100 * MS)) continue;
                violation("C23", "never-ran", "task %d, due %.3f ms ago, has not run", t.id, (double)(clk() - a.callAt - a.delay) / 1e6);
            }
        }
    }
    bool pending()
    {
        Kernel k;
        for (auto& t : tasks) {
            if (t.cancelCalled || t.killing) continue;
            for (auto& a : t.arms)
                if (a.delay != -1 && !a.replaced && !a.maybe) return true;
        }
        return runningNow > 0;
    }
};
} // namespace

SCENARIO(sched)
{
    setTimeLimit(now() + 100 * SEC, "deadlock");
    Model* mp;
    bool loop, killRealEarly;
    int threads, nscopes;
    {
        Kernel k;
        pickProfile();
        mp = new Model();
        loop = mp->loop = paramBool("loop", 0.4);
        threads = loop ? 1 : (int)paramRange("threads", 1, 4);
        nscopes = (int)paramRange("scopes", 0, 3);
        killRealEarly = !loop && paramBool("kill_real", 0.3);
        schedFaults(paramReal("sched", 0.5, 20));
        setRate(F_CVSPUR, paramBool("spur", 0.5) ? 0.02 : 0);
        if (paramBool("stalls", 0.2)) setRate(F_STALL, 0.002);
    }
    Model& m = *mp;
    setNode(1);
    // few tasks, far apart: whoever sleeps is only woken when it must be
    const bool sparse = m.sparse = paramBool("sparse", 0.3);
    i64 end = now() + (sparse ? paramRange("run", 3000, 15000) : paramRange("run", 300, 4000)) * MS;
    if (loop)
        m.real = std::make_shared<srtc::LoopScheduler>();
    else
        m.real = std::make_shared<srtc::ThreadScheduler>("sched");
    for (int i = 0; i < nscopes; i++) {
        m.scopes.push_back(new srtc::ScopedScheduler(m.real));
        m.scopeState.push_back(0);
        m.scopeUsers.push_back(0);
    }
    auto body = [&](int me) {
        setNode(1);
        u64 k0 = 0;
        while (now() < end) {
            const u64 h = hash3(seed(), 0xca11e5 + (u64)me, k0++);
            switch (h % 8) {
            case 0: m.cancel(m.pick(me), -1); break;
            case 1: m.update(m.pick(me), -1); break;
            case 2:
                if (fault(F_WALLJUMP, 0.2)) jumpWall(1, (i64)(mix(h) % 7200000 - 3600000) * MS);
                break;
            case 3:
                if (nscopes && mix(h ^ 1) % 30 == 0) m.killScope((int)(mix(h ^ 2) % (u64)nscopes));
                break;
            default: m.submit(-1);
            }
            if (loop) {
                // an event loop: wait as long as told, or for the next thing to do
                const int to = m.real ? std::static_pointer_cast<srtc::LoopScheduler>(m.real)->getTimeoutMillis(60) : 60;
                {
                    Kernel k;
                    checked();
                    if (to < 0) violation("C23", "negative-timeout", "the loop scheduler asks to wait %d ms", to);
                    i64 first = INT64_MAX;
                    for (auto& t : m.tasks)
                        if (!t.cancelCalled && !t.killing)
                            for (auto& a : t.arms)
                                if (a.delay != -1 && !a.replaced && !a.maybe) first = std::min(first, a.retAt + a.delay);
                    if (first != INT64_MAX && (i64)to * MS > std::max<i64>(0, first - m.clk()) + 1 * MS)
                        violation("C23", "timeout-too-long", "the loop scheduler asks to wait %d ms, a task is due in %.3f ms", to, (double)(first - m.clk()) / 1e6);
                }
                sleepFor(sparse && mix(h ^ 6) % 2 ? (i64)to * MS : std::min<i64>((i64)to * MS, (i64)(mix(h ^ 3) % 30) * MS));
                std::static_pointer_cast<srtc::LoopScheduler>(m.real)->run();
                Kernel k;
                // whatever was due before run() was called has run
            } else {
                sleepFor((i64)(mix(h ^ 3) % (u64)(threads * (sparse ? 600000 : 8000))) * US);
            }
        }
    };
    if (loop) {
        body(0);
        m.quiet = true;
        const i64 stop = now() + 8 * SEC;
        while (m.pending() && now() < stop) {
            const int to = std::static_pointer_cast<srtc::LoopScheduler>(m.real)->getTimeoutMillis(60);
            sleepFor((i64)to * MS + 300 * US);
            const i64 c = m.clk();
            std::static_pointer_cast<srtc::LoopScheduler>(m.real)->run();
            Kernel k;
            for (auto& t : m.tasks)
                if (!t.cancelCalled && !t.killing)
                    for (auto& a : t.arms)
                        if (a.delay != -1 && !a.replaced && !a.maybe && a.retAt && a.retAt + a.delay < c) violation("C23", "not-run", "task %d was due when the loop scheduler ran, and was not run", t.id);
        }
        m.settled();
        for (int i = 0; i < nscopes; i++) m.killScope(i);
        m.killReal();
    } else {
        std::vector<std::thread> th;
        for (int i = 1; i < threads; i++) th.emplace_back([&, i] { body(i); });
        body(0);
        for (auto& t : th) t.join();
        m.quiet = true;
        if (!killRealEarly) {
            const i64 stop = now() + 8 * SEC + (stallVictims() ? 20 * SEC : 0);
            while (m.pending() && now() < stop) sleepFor(20 * MS);
            m.settled();
        }
        for (int i = 0; i < nscopes; i++) m.killScope(i);
        m.killReal();
        sleepFor(2 * SEC);
    }
    setNode(0);
}
