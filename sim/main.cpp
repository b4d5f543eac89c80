// Search driver: forks one child process per simulated run, checks determinism, minimises and replays violations.
#include "harness.h"
#include "net.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using std::string;
using std::vector;

std::vector<Scenario>& scenarios()
{
    static auto v = new std::vector<Scenario>();
    return *v;
}
void heapInit(); // count the memory OpenSSL uses
void initRepo(); // one-time initialisation before forking

static double wallNow()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ child
static Slot* gSlot;
static string gProp;
static bool gAsanError = false;
extern "C" void __asan_on_error();
extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" void __asan_on_error() { gAsanError = true; }
extern "C" const char* __asan_default_options();
// our own handler turns every report into a violation; the simulated heap is small, so freed memory stays in quarantine
extern "C" const char* __asan_default_options()
{
    return "abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1";
}

static void crashHandler(int sig)
{
    static volatile int once = 0;
    if (once++) _exit(44);
    void* bt[40];
    int n = backtrace(bt, 40);
    size_t used = 0;
    char* m = gSlot->msg;
    const size_t cap = sizeof(gSlot->msg);
    used += snprintf(m + used, cap - used, "%s%s%s; stack:", strsignal(sig), gAsanError ? ": " : "", gAsanError && __asan_get_report_description ? __asan_get_report_description() : "");
    for (int i = 2; i < n && used + 200 < cap; i++) {
        Dl_info di;
        if (dladdr(bt[i], &di) && di.dli_sname) used += snprintf(m + used, cap - used, " %.120s+%ld", di.dli_sname, (long)((char*)bt[i] - (char*)di.dli_saddr));
    }
    snprintf(gSlot->prop, sizeof gSlot->prop, "%s", gProp.c_str());
    if (gAsanError && __asan_get_report_description)
        snprintf(gSlot->cls, sizeof gSlot->cls, "memory-error:%s", __asan_get_report_description());
    else
        snprintf(gSlot->cls, sizeof gSlot->cls, "crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL");
    const bool over = sig == SIGALRM || sig == SIGPROF;
    gSlot->status = over ? 3 : 2;
    if (over) snprintf(gSlot->cls, sizeof gSlot->cls, "simerror:wall-clock");
    if (inSim() && tracing()) {
        tlog("VIOLATION %s %s", gSlot->cls, gSlot->msg);
        fflush(plan().traceFile);
    }
    _exit(42);
}

static int simRandBytes(unsigned char* b, int n)
{
    if (inSim())
        rndBytes(b, (size_t)n);
    else
        for (int i = 0; i < n; i++) b[i] = (unsigned char)hash2(99, (u64)i * 31 + n);
    return 1;
}
static int simRandStatus() { return 1; }
static int simRandAdd(const void*, int, double) { return 1; }
static int simRandSeed(const void*, int) { return 1; }
static const RAND_METHOD kRand = { simRandSeed, simRandBytes, nullptr, simRandAdd, simRandBytes, simRandStatus };

[[noreturn]] static void childMain(const Plan& p, Slot* slot)
{
    gSlot = slot;
    gProp = p.prop;
    static char alt[65536];
    stack_t ss = {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGPROF }) {
        struct sigaction sa = {};
        sa.sa_handler = crashHandler;
        sa.sa_flags = SA_ONSTACK;
        sigaction(s, &sa, nullptr);
    }
    const int limit = getenv("SIM_ALARM") ? atoi(getenv("SIM_ALARM")) : 120; // of processor time: the machine may be busy
    const itimerval itv = { {}, { limit, 0 } };
    setitimer(ITIMER_PROF, &itv, nullptr);
    alarm((unsigned)limit * 5);
    for (auto& s : scenarios()) {
        if (p.scenario == s.name) {
            net::reset();
            begin(p, slot);
            s.fn();
            finishOk();
        }
    }
    fprintf(stderr, "unknown scenario %s\n", p.scenario.c_str());
    _exit(45);
}

// ------------------------------------------------------------------ results
struct Result {
    int status = 0;
    string prop, cls, msg, err;
    u64 traceHash = 0, schedHash = 0, bbs = 0, switches = 0, datagrams = 0, ops = 0, checks = 0;
    i64 simTime = 0;
    u64 fired[F_NKINDS] = {}, scripted[N_SCRIPTED] = {};
    vector<Fired> list;
    bool overflow = false;
    vector<std::pair<string, u64>> probes;
    double wall = 0;
    bool ran = false;
};

static vector<Slot*> gSlots;
static string gTmp;
static uint8_t gCov[65536];
static bool gCollectCov = true;
static string gTraceOut;

static void fill(Result& r, Slot* s, int st, const string& errFile)
{
    r.ran = true;
    r.status = s->status;
    r.prop = s->prop;
    r.cls = s->cls;
    r.msg = s->msg;
    r.traceHash = s->traceHash;
    r.schedHash = s->schedHash;
    r.bbs = s->bbs;
    r.switches = s->switches;
    r.ops = s->ops;
    r.checks = s->checks;
    r.simTime = s->simTime;
    for (int i = 0; i < F_NKINDS; i++) r.fired[i] = s->fired[i];
    for (int i = 0; i < N_SCRIPTED; i++) r.scripted[i] = s->scripted[i];
    r.overflow = s->nFired >= (uint32_t)kMaxFired;
    if (r.status != 1) r.list.assign(s->firedList, s->firedList + s->nFired);
    for (int i = 0; i < s->nProbes; i++) r.probes.push_back({ s->probeName[i], s->probeVal[i] });
    if (gCollectCov)
        for (int i = 0; i < 65536; i++) gCov[i] |= s->cov[i];
    if (r.status == 0) {
        r.status = 3;
        r.cls = "simerror:abnormal-end";
        std::ostringstream os;
        os << "child ended with wait status " << st << ": ";
        std::ifstream f(errFile);
        string l, all;
        while (std::getline(f, l)) all += l + "\n";
        if (all.size() > 1500) all = all.substr(all.size() - 1500);
        r.msg = os.str() + all;
    }
}

// run all plans, at most nslots at a time; stop(result) may ask to stop starting new ones
static void runBatch(const vector<Plan>& plans, vector<Result>& out, double deadline, const std::function<bool(size_t, const Result&)>& onDone)
{
    out.assign(plans.size(), Result());
    struct Run {
        pid_t pid = 0;
        size_t idx = 0;
        double t0 = 0;
    };
    vector<Run> run(gSlots.size());
    size_t next = 0, active = 0;
    bool stop = false;
    while (true) {
        for (size_t i = 0; i < run.size() && !stop && next < plans.size(); i++) {
            if (run[i].pid) continue;
            if (deadline > 0 && wallNow() > deadline) {
                stop = true;
                break;
            }
            auto s = gSlots[i];
            madvise(s, sizeof(Slot), MADV_REMOVE);
            memset((void*)s, 0, offsetof(Slot, firedList));
            s->nProbes = 0;
            memset(s->probeVal, 0, sizeof s->probeVal);
            memset(s->cov, 0, sizeof s->cov);
            const string err = gTmp + "/err" + std::to_string(i);
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                dup2(fd, 2);
                int dn = open("/dev/null", O_WRONLY);
                dup2(dn, 1);
                Plan p = plans[next];
                if (p.trace) p.traceFile = fopen(gTraceOut.c_str(), "w");
                childMain(p, s);
            }
            run[i] = { pid, next++, wallNow() };
            active++;
        }
        if (!active) break;
        int st;
        pid_t pid = waitpid(-1, &st, 0);
        for (size_t i = 0; i < run.size(); i++) {
            if (run[i].pid != pid) continue;
            auto& r = out[run[i].idx];
            fill(r, gSlots[i], st, gTmp + "/err" + std::to_string(i));
            r.wall = wallNow() - run[i].t0;
            run[i].pid = 0;
            active--;
            if (onDone && !onDone(run[i].idx, r)) stop = true;
        }
    }
}
static Result runSingle(const Plan& p)
{
    vector<Result> o;
    runBatch({ p }, o, 0, nullptr);
    return o[0];
}

// ------------------------------------------------------------------ replay files
static void writeReplay(const string& path, const Plan& p, const Result& r, const string& flavour, const string& note)
{
    std::ofstream f(path);
    f << "simreplay 1\nprop " << p.prop << "\nscenario " << p.scenario << "\nseed " << p.seed << "\nflavour " << flavour << "\nclass " << r.cls << "\nhash " << r.traceHash << "\n";
    string m = r.msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    f << "message " << m << "\n";
    f << "note " << note << "\n";
    for (int k = 0; k < F_NKINDS; k++) {
        if (p.listed[k]) {
            f << "only " << kFaultName[k];
            for (auto i : p.allow[k]) f << ' ' << i;
            f << "\n";
        } else if (p.kindOff[k]) {
            f << "off " << kFaultName[k] << "\n";
        }
    }
}
struct ReplayFile {
    Plan plan;
    string cls, flavour;
    u64 hash = 0;
};
static bool readReplay(const string& path, ReplayFile& o)
{
    std::ifstream f(path);
    string l;
    if (!std::getline(f, l) || l != "simreplay 1") return false;
    while (std::getline(f, l)) {
        std::istringstream is(l);
        string k;
        is >> k;
        if (k == "prop") is >> o.plan.prop;
        else if (k == "scenario") is >> o.plan.scenario;
        else if (k == "seed") is >> o.plan.seed;
        else if (k == "flavour") is >> o.flavour;
        else if (k == "class") {
            std::getline(is, o.cls);
            o.cls.erase(0, 1);
        } else if (k == "hash") is >> o.hash;
        else if (k == "only" || k == "off") {
            string n;
            is >> n;
            for (int i = 0; i < F_NKINDS; i++) {
                if (n != kFaultName[i]) continue;
                if (k == "off") o.plan.kindOff[i] = true;
                else {
                    o.plan.listed[i] = true;
                    uint32_t x;
                    while (is >> x) o.plan.allow[i].insert(x);
                }
            }
        }
    }
    return true;
}

// ------------------------------------------------------------------ minimisation
static bool same(const Result& r, const Result& ref) { return r.status == 2 && r.cls == ref.cls && r.prop == ref.prop; }

static void minimise(Plan& plan, Result& best, double deadline, u64& tried)
{
    // 1. drop whole kinds, one at a time, cheapest first
    vector<int> kinds;
    for (int k = 1; k < F_NKINDS; k++)
        if (best.fired[k]) kinds.push_back(k);
    std::sort(kinds.begin(), kinds.end(), [&](int a, int b) { return best.fired[a] > best.fired[b]; });
    // try all off first
    {
        Plan p = plan;
        for (int k : kinds) p.kindOff[k] = true;
        Result r = runSingle(p);
        tried++;
        if (same(r, best)) {
            plan = p;
            best = r;
            kinds.clear();
        }
    }
    for (int k : kinds) {
        if (wallNow() > deadline) break;
        Plan p = plan;
        p.kindOff[k] = true;
        Result r = runSingle(p);
        tried++;
        if (same(r, best)) {
            plan = p;
            best = r;
        }
    }
    // 2. turn the remaining kinds into explicit lists and reduce them, then the workload
    if (best.overflow) return;
    auto tolist = [&](Plan& p, const Result& r) {
        for (int k = 0; k < F_NKINDS; k++) {
            if (p.kindOff[k]) continue;
            p.listed[k] = true;
            p.allow[k].clear();
        }
        for (auto& x : r.list) p.allow[x.kind].insert(x.idx);
    };
    {
        Plan p = plan;
        tolist(p, best);
        Result r = runSingle(p);
        tried++;
        if (!same(r, best)) return;
        plan = p;
        best = r;
    }
    for (int round = 0; round < 2; round++) {
        vector<int> order;
        for (int k = 1; k < F_NKINDS; k++) order.push_back(k);
        order.push_back(F_OP);
        for (int k : order) {
            if (plan.kindOff[k] || plan.allow[k].empty()) continue;
            size_t n = 2;
            while (!plan.allow[k].empty()) {
                if (wallNow() > deadline) return;
                vector<uint32_t> cur(plan.allow[k].begin(), plan.allow[k].end());
                if (n > cur.size()) n = cur.size();
                vector<Plan> cand;
                for (size_t i = 0; i < n; i++) {
                    Plan p = plan;
                    size_t a = cur.size() * i / n, b = cur.size() * (i + 1) / n;
                    for (size_t j = a; j < b; j++) p.allow[k].erase(cur[j]);
                    cand.push_back(p);
                }
                bool hit = false;
                for (size_t i = 0; i < cand.size() && !hit; i += gSlots.size()) {
                    if (wallNow() > deadline) return;
                    vector<Plan> part(cand.begin() + i, cand.begin() + std::min(cand.size(), i + gSlots.size()));
                    vector<Result> res;
                    runBatch(part, res, 0, nullptr);
                    tried += part.size();
                    for (size_t j = 0; j < part.size(); j++) {
                        if (same(res[j], best)) {
                            plan = part[j];
                            best = res[j];
                            hit = true;
                            n = std::max<size_t>(2, n - 1);
                            break;
                        }
                    }
                }
                if (!hit) {
                    if (n >= cur.size()) break;
                    n = std::min(cur.size(), n * 2);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ known findings
struct Known {
    string prop, cls, match, desc;
    u64 hits = 0;
};
static vector<Known> loadKnown(const string& path, const string& prop)
{
    vector<Known> v;
    std::ifstream f(path);
    string l;
    while (std::getline(f, l)) {
        if (l.rfind("known:", 0) != 0) continue;
        Known k;
        auto field = [&](const char* n) {
            auto p = l.find(string(n) + "=\"");
            if (p == string::npos) return string();
            p += strlen(n) + 2;
            return l.substr(p, l.find('"', p) - p);
        };
        k.prop = field("property");
        k.cls = field("class");
        k.match = field("match");
        k.desc = field("what");
        if (k.prop == prop) v.push_back(k);
    }
    return v;
}

static string jsonEsc(const string& s)
{
    string o;
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}

int main(int argc, char** argv)
{
    // fixed address-space layout: hash maps keyed by pointer iterate in the same order in every process
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int cur = personality(0xffffffff);
        if (cur != -1 && personality(cur | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<string, string> a;
    for (int i = 1; i < argc; i++) {
        string s = argv[i];
        if (s.rfind("--", 0) == 0) {
            if (i + 1 < argc && string(argv[i + 1]).rfind("--", 0) != 0) a[s.substr(2)] = argv[++i];
            else a[s.substr(2)] = "1";
        }
    }
    const string verif = a.count("verif") ? a["verif"] : "/verif";
#if defined(__SANITIZE_ADDRESS__)
    const string flavour = "asan";
#elif defined(SIM_RACE)
    const string flavour = "race";
#else
    const string flavour = "plain";
#endif
    gTmp = verif + "/.build/tmp." + std::to_string(getpid());
    mkdir((verif + "/.build").c_str(), 0755);
    mkdir(gTmp.c_str(), 0755);
    auto cleanup = [&]() {
        for (size_t i = 0; i < gSlots.size(); i++) unlink((gTmp + "/err" + std::to_string(i)).c_str());
        rmdir(gTmp.c_str());
    };
    int jobs = a.count("jobs") ? atoi(a["jobs"].c_str()) : 8;
    for (int i = 0; i < jobs; i++) {
        auto s = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        gSlots.push_back(s);
    }
    heapInit();
    RAND_set_rand_method(&kRand);
    initRepo();

    if (a.count("replay")) {
        ReplayFile rf;
        if (!readReplay(a["replay"], rf)) {
            fprintf(stderr, "cannot read %s\n", a["replay"].c_str());
            return 2;
        }
        if (rf.flavour != flavour) {
            fprintf(stderr, "replay file is for the %s build\n", rf.flavour.c_str());
            return 2;
        }
        if (a.count("trace")) {
            rf.plan.trace = true;
            gTraceOut = a["trace"];
        }
        Result r = runSingle(rf.plan);
        cleanup();
        printf("replayed: status %d class %s hash %llu\n%s\n", r.status, r.cls.c_str(), (unsigned long long)r.traceHash, r.msg.c_str());
        if (r.status == 2 && r.cls == rf.cls && r.traceHash == rf.hash) {
            printf("VIOLATION property=%s replay=%s\n", rf.plan.prop.c_str(), a["replay"].c_str());
            return 1;
        }
        printf("not reproduced (expected class %s hash %llu)\n", rf.cls.c_str(), (unsigned long long)rf.hash);
        return 0;
    }
    if (a.count("one")) { // --one scenario --prop P --seed N [--trace file] [--count n]
        const int count = a.count("count") ? atoi(a["count"].c_str()) : 1;
        vector<Plan> ps;
        for (int i = 0; i < count; i++) {
            Plan p;
            p.scenario = a["one"];
            p.prop = a.count("prop") ? a["prop"] : "ANY";
            p.seed = strtoull(a["seed"].c_str(), nullptr, 0) + i;
            if (a.count("trace")) {
                p.trace = true;
                gTraceOut = a["trace"];
            }
            if (a.count("off")) {
                std::istringstream is(a["off"]);
                string n;
                while (std::getline(is, n, ','))
                    for (int k = 0; k < F_NKINDS; k++)
                        if (n == kFaultName[k] || (n == "all" && k)) p.kindOff[k] = true;
            }
            ps.push_back(p);
        }
        vector<Result> rs;
        double t0 = wallNow();
        runBatch(ps, rs, 0, nullptr);
        std::map<string, int> cls;
        std::map<string, u64> probes;
        for (int i = 0; i < count; i++) {
            auto& r = rs[i];
            for (auto& q : r.probes) probes[q.first] += q.second;
            if (r.status != 1) {
                if (cls[r.prop + " " + r.cls]++ < (a.count("v") ? 100 : 2)) printf("seed %llu: status %d %s %s: %s\n", (unsigned long long)ps[i].seed, r.status, r.prop.c_str(), r.cls.c_str(), r.msg.c_str());
            }
            if (a.count("hashes")) printf("%llu %d %llx %llx\n", (unsigned long long)ps[i].seed, r.status, (unsigned long long)r.traceHash, (unsigned long long)r.schedHash);
            if (count == 1) {
                printf("status %d hash %llx sched %llx sim %.1f s bbs %llu switches %llu ops %llu checks %llu wall %.2f\n", r.status, (unsigned long long)r.traceHash, (unsigned long long)r.schedHash, (double)r.simTime / 1e9, (unsigned long long)r.bbs, (unsigned long long)r.switches, (unsigned long long)r.ops, (unsigned long long)r.checks, r.wall);
                for (int k = 0; k < F_NKINDS; k++)
                    if (r.fired[k]) printf("  %s: %llu\n", kFaultName[k], (unsigned long long)r.fired[k]);
            }
        }
        for (auto& q : probes) printf("  probe %s: %llu\n", q.first.c_str(), (unsigned long long)q.second);
        printf("%d runs in %.1f s;", count, wallNow() - t0);
        for (auto& c : cls) printf(" [%s: %d]", c.first.c_str(), c.second);
        printf("\n");
        cleanup();
        return 0;
    }

    // ------------------------------------------------------------------ a check
    const string id = a["prop"];
    const Prop* prop = nullptr;
    for (auto& p : props())
        if (id == p.id) prop = &p;
    if (!prop) {
        fprintf(stderr, "unknown property %s\n", id.c_str());
        return 2;
    }
    const string tier = a.count("tier") ? a["tier"] : "quick";
    const bool thorough = tier == "thorough";
    const u64 baseSeed = a.count("seed") ? strtoull(a["seed"].c_str(), nullptr, 0) : 1;
    const double t0 = wallNow();
    const double budget = a.count("budget") ? atof(a["budget"].c_str()) : thorough ? 1500 : 75;
    const double deadline = t0 + budget;
    auto known = loadKnown(verif + "/known_findings.txt", id);

    vector<Plan> plans;
    {
        // interleave the scenarios so that a time cap still samples all of them
        size_t total = 0;
        vector<size_t> cnt;
        for (auto& pt : prop->parts) {
            cnt.push_back((size_t)(thorough ? pt.thorough : pt.quick));
            total += cnt.back();
        }
        vector<size_t> done(cnt.size(), 0);
        for (size_t n = 0; n < total; n++) {
            size_t bestI = 0;
            double bestF = 2;
            for (size_t i = 0; i < cnt.size(); i++) {
                if (done[i] >= cnt[i]) continue;
                double f = (double)done[i] / (double)cnt[i];
                if (f < bestF) bestF = f, bestI = i;
            }
            Plan p;
            p.scenario = prop->parts[bestI].scenario;
            p.prop = id;
            p.seed = hash3(baseSeed, hashStr((id + ":" + p.scenario).c_str()), done[bestI]) >> 24;
            plans.push_back(p);
            done[bestI]++;
        }
    }
    auto isKnown = [&](const Result& r) -> Known* {
        for (auto& k : known)
            if (r.cls.find(k.cls) != string::npos && (k.match.empty() || r.msg.find(k.match) != string::npos)) return &k;
        return nullptr;
    };
    vector<Result> res;
    size_t simErrors = 0;
    string firstSimError;
    vector<size_t> viol;
    runBatch(plans, res, deadline, [&](size_t i, const Result& r) {
        if (r.status == 2) {
            if (auto k = isKnown(r)) {
                k->hits++;
                return true;
            }
            viol.push_back(i);
            return false;
        }
        if (r.status == 3) {
            simErrors++;
            if (firstSimError.empty()) firstSimError = plans[i].scenario + " seed " + std::to_string(plans[i].seed) + ": " + r.cls + ": " + r.msg;
        }
        return true;
    });
    std::sort(viol.begin(), viol.end());
    const double searchWall = wallNow() - t0;

    // determinism: repeat a sample in new children and one in a fresh process
    u64 detRuns = 0, detBad = 0;
    string detMsg;
    if (viol.empty()) {
        vector<Plan> again;
        vector<size_t> idx;
        std::map<string, int> per;
        for (size_t i = 0; i < plans.size() && again.size() < 24; i++) {
            if (!res[i].ran || res[i].status != 1) continue;
            if (per[plans[i].scenario]++ >= (thorough ? 8 : 3)) continue;
            again.push_back(plans[i]);
            idx.push_back(i);
        }
        vector<Result> r2;
        bool cc = gCollectCov;
        gCollectCov = false;
        runBatch(again, r2, 0, nullptr);
        gCollectCov = cc;
        for (size_t i = 0; i < again.size(); i++) {
            detRuns++;
            if (r2[i].traceHash != res[idx[i]].traceHash || r2[i].schedHash != res[idx[i]].schedHash) {
                detBad++;
                detMsg = again[i].scenario + " seed " + std::to_string(again[i].seed);
            }
        }
        if (!again.empty()) {
            Plan p = again[0];
            const string rp = gTmp + "/det.replay";
            Result fake = res[idx[0]];
            writeReplay(rp, p, fake, flavour, "determinism probe");
            const string cmd = string("/proc/self/exe");
            int pfd[2];
            if (pipe(pfd) == 0) {
                pid_t pid = fork();
                if (pid == 0) {
                    dup2(pfd[1], 1);
                    unsetenv("SIM_NOASLR");
                    execl("/proc/self/exe", "simcheck", "--verif", verif.c_str(), "--jobs", "1", "--replay", rp.c_str(), (char*)nullptr);
                    _exit(9);
                }
                close(pfd[1]);
                string o;
                char buf[4096];
                ssize_t n;
                while ((n = read(pfd[0], buf, sizeof buf)) > 0) o.append(buf, (size_t)n);
                close(pfd[0]);
                int st;
                waitpid(pid, &st, 0);
                detRuns++;
                if (o.find("hash " + std::to_string(fake.traceHash)) == string::npos) {
                    detBad++;
                    detMsg = "fresh process: " + p.scenario + " seed " + std::to_string(p.seed) + " expected " + std::to_string(fake.traceHash) + " got " + o;
                }
            }
            unlink(rp.c_str());
        }
    }

    // statistics
    u64 done = 0, nontrivial = 0, bbs = 0, switches = 0, checks = 0, ops = 0, faults = 0;
    std::set<u64> th, sh;
    double simSec = 0;
    u64 fired[F_NKINDS] = {}, scr[N_SCRIPTED] = {};
    std::map<string, u64> probes;
    std::map<string, std::pair<u64, u64>> perScen;
    for (size_t i = 0; i < plans.size(); i++) {
        auto& r = res[i];
        if (!r.ran) continue;
        done++;
        perScen[plans[i].scenario].first++;
        simSec += (double)r.simTime / 1e9;
        bbs += r.bbs;
        switches += r.switches;
        checks += r.checks;
        ops += r.ops;
        u64 f = 0;
        for (int k = 0; k < F_NKINDS; k++) {
            fired[k] += r.fired[k];
            if (k) f += r.fired[k];
        }
        faults += f;
        for (int k = 0; k < N_SCRIPTED; k++) scr[k] += r.scripted[k];
        for (auto& q : r.probes) probes[q.first] += q.second;
        sh.insert(r.schedHash);
        if (r.checks > 0 && f > 0 && r.ops > 0 && th.insert(r.traceHash).second) {
            nontrivial++;
            perScen[plans[i].scenario].second++;
        }
    }
    size_t covN = 0;
    for (int i = 0; i < 65536; i++) covN += gCov[i];

    // a violation
    int exitCode = 0;
    string violJson;
    if (!viol.empty()) {
        const size_t i = viol[0];
        Plan p = plans[i];
        Result best = res[i];
        gCollectCov = false;
        printf("violation in %s seed %llu: %s: %s\n", p.scenario.c_str(), (unsigned long long)p.seed, best.cls.c_str(), best.msg.c_str());
        fflush(stdout);
        Result again = runSingle(p);
        const bool repro = same(again, best) && again.traceHash == best.traceHash;
        u64 tried = 0;
        Plan mp = p;
        Result mr = again;
        if (repro) minimise(mp, mr, wallNow() + (thorough ? 240 : 40), tried);
        mkdir((verif + "/replays").c_str(), 0755);
        const string rp = verif + "/replays/" + id + "-" + p.scenario + "-" + std::to_string(p.seed) + ".replay";
        auto nf = [](const Result& r) {
            u64 f = 0;
            for (int k = 1; k < F_NKINDS; k++) f += r.fired[k];
            return f;
        };
        writeReplay(rp, mp, repro ? mr : best, flavour, "minimised from " + std::to_string(nf(best)) + " faults / " + std::to_string(best.ops) + " ops to " + std::to_string(nf(mr)) + " faults / " + std::to_string(mr.ops) + " ops in " + std::to_string(tried) + " runs");
        // the file must reproduce in a fresh process
        bool fresh = false;
        {
            pid_t pid = fork();
            if (pid == 0) {
                int dn = open("/dev/null", O_WRONLY);
                dup2(dn, 1);
                unsetenv("SIM_NOASLR");
                execl("/proc/self/exe", "simcheck", "--verif", verif.c_str(), "--jobs", "1", "--replay", rp.c_str(), (char*)nullptr);
                _exit(9);
            }
            int st;
            waitpid(pid, &st, 0);
            fresh = WIFEXITED(st) && WEXITSTATUS(st) == 1;
        }
        // readable trace of the minimised run
        gTraceOut = rp + ".trace";
        Plan tp = mp;
        tp.trace = true;
        runSingle(tp);
        printf("minimised: %llu -> %llu faults, %llu -> %llu operations (%llu runs); %s\n", (unsigned long long)nf(best), (unsigned long long)nf(mr), (unsigned long long)best.ops, (unsigned long long)mr.ops, (unsigned long long)tried, mr.msg.c_str());
        if (!repro || !fresh) {
            printf("ERROR: the violation did not replay exactly (rerun %s, fresh process %s)\n", repro ? "ok" : "differs", fresh ? "ok" : "differs");
            // a crash or memory error that is not bit-for-bit repeatable is still a violation: the replay re-runs the seed
            if (best.cls.rfind("crash", 0) == 0 || best.cls.rfind("memory-error", 0) == 0 || same(again, best)) {
                exitCode = 1;
            } else {
                exitCode = 2;
            }
        } else {
            exitCode = 1;
        }
        if (exitCode == 1) printf("VIOLATION property=%s replay=%s\n", id.c_str(), rp.c_str());
        violJson = "{\"class\":\"" + jsonEsc(best.cls) + "\",\"message\":\"" + jsonEsc(mr.msg) + "\",\"replay\":\"" + rp + "\"}";
    } else if (detBad) {
        printf("ERROR: nondeterministic run: %s\n", detMsg.c_str());
        exitCode = 2;
    } else if (simErrors * 50 > done || done == 0) {
        printf("ERROR: %zu of %llu runs ended in a simulator error, e.g. %s\n", simErrors, (unsigned long long)done, firstSimError.c_str());
        exitCode = 2;
    }
    for (auto& k : known)
        if (k.hits || true) printf("KNOWN-FINDING: property=%s %s%s\n", id.c_str(), k.desc.c_str(), k.hits ? (" (met in " + std::to_string(k.hits) + " runs)").c_str() : "");

    const double wall = wallNow() - t0;
    mkdir((verif + "/evidence").c_str(), 0755);
    std::ofstream e(verif + "/evidence/" + id + ".json");
    e << "{\n \"property\": \"" << id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << baseSeed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    e << "  \"evaluations\": " << done << ",\n  \"distinct_nontrivial\": " << nontrivial << ",\n";
    e << "  \"rule\": \"" << jsonEsc(string(prop->rule) + " One evaluation is one complete simulated run from one seed. Non-trivial and distinct: the run executed workload operations, evaluated oracles at least once, had at least one fault or schedule deviation injected, and its trace hash (all thread switches, datagram contents and delivery order, times) differs from every other counted run.") << "\",\n";
    e << "  \"samples\": [";
    int ns = 0;
    for (size_t i = 0; i < plans.size() && ns < 4; i += std::max<size_t>(1, plans.size() / 4)) {
        auto& r = res[i];
        if (!r.ran) continue;
        std::ostringstream fs;
        for (int k = 1; k < F_NKINDS; k++)
            if (r.fired[k]) fs << (fs.tellp() > 0 ? ", " : "") << "\"" << kFaultName[k] << "\": " << r.fired[k];
        char hx[40];
        snprintf(hx, sizeof hx, "%016llx", (unsigned long long)r.traceHash);
        e << (ns++ ? "," : "") << "\n   {\"scenario\": \"" << plans[i].scenario << "\", \"run_seed\": " << plans[i].seed << ", \"trace_hash\": \"" << hx << "\", \"simulated_s\": " << (double)r.simTime / 1e9 << ", \"operations\": " << r.ops << ", \"oracle_evaluations\": " << r.checks << ", \"thread_switches\": " << r.switches << ", \"faults\": {" << fs.str() << "}, \"outcome\": \"" << (r.status == 1 ? "held" : r.status == 2 ? jsonEsc(r.cls) : "simulator error") << "\"}";
    }
    e << "\n  ],\n";
    e << "  \"runs_per_hour\": " << (u64)((double)done / std::max(searchWall, 0.01) * 3600) << ",\n  \"simulated_seconds\": " << simSec << ",\n";
    e << "  \"distinct_trace_hashes\": " << th.size() << ",\n  \"distinct_interleavings\": " << sh.size() << ",\n  \"interleaving_measure\": \"hash of the complete sequence of thread switches of a run\",\n";
    e << "  \"thread_switches\": " << switches << ",\n  \"basic_blocks\": " << bbs << ",\n  \"distinct_basic_blocks_covered\": " << covN << ",\n  \"oracle_evaluations\": " << checks << ",\n  \"workload_operations\": " << ops << ",\n";
    e << "  \"faults_injected\": {";
    bool first = true;
    for (int k = 1; k < F_NKINDS; k++) {
        e << (first ? "" : ", ") << "\"" << kFaultName[k] << "\": " << fired[k];
        first = false;
    }
    for (int k = 0; k < N_SCRIPTED; k++)
        if (scr[k]) e << ", \"" << kScriptedName[k] << "\": " << scr[k];
    e << "},\n  \"probes\": {";
    first = true;
    for (auto& q : probes) {
        e << (first ? "" : ", ") << "\"" << jsonEsc(q.first) << "\": " << q.second;
        first = false;
    }
    e << "},\n  \"runs_per_scenario\": {";
    first = true;
    for (auto& q : perScen) {
        e << (first ? "" : ", ") << "\"" << q.first << "\": {\"runs\": " << q.second.first << ", \"distinct_nontrivial\": " << q.second.second << "}";
        first = false;
    }
    e << "},\n  \"planned_runs\": " << plans.size() << ",\n  \"determinism_reruns\": " << detRuns << ",\n  \"determinism_mismatches\": " << detBad << ",\n  \"simulator_errors\": " << simErrors << ",\n";
    e << "  \"build\": \"" << flavour << "\",\n  \"real_code\": \"all of /repo/src (every translation unit except the _win and _macos ones), libssl and libcrypto\",\n  \"simulated\": \"" << jsonEsc(prop->stubs) << "\"";
    if (!violJson.empty()) e << ",\n  \"violation\": " << violJson;
    u64 kh = 0;
    for (auto& k : known) kh += k.hits;
    e << ",\n  \"known_finding_runs\": " << kh << "\n },\n";
    e << " \"assumptions\": [\"threads are scheduled one at a time (sequentially consistent memory); switches happen at synchronisation operations, system calls and randomly chosen basic blocks\", \"OpenSSL's cryptography is correct\", \"a UDP socket behaves as the model in sim/net.cpp\"],\n";
    e << " \"wall_s\": " << wall << ",\n \"violations\": " << (exitCode == 1 ? 1 : 0) << "\n}\n";
    e.close();
    printf("%s %s: %llu of %zu runs, %llu distinct non-trivial, %.0f simulated s, %llu faults, %llu oracle evaluations, %zu blocks covered, %zu simulator errors, %.1f s\n", id.c_str(), tier.c_str(), (unsigned long long)done, plans.size(), (unsigned long long)nontrivial, simSec, (unsigned long long)faults, (unsigned long long)checks, covN, simErrors, wall);
    if (simErrors) printf("  first simulator error: %s\n", firstSimError.c_str());
    for (auto& q : probes) printf("  %s=%llu", q.first.c_str(), (unsigned long long)q.second);
    printf("\n");
    cleanup();
    return exitCode;
}
