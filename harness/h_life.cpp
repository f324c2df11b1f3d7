// Life of instances: init and uninit against a state model, failing system calls, shutdown at any moment, moves.
#include "rpc.h"
#include <sys/resource.h>
using namespace vh;

namespace {
std::set<std::string> entries() {
    auto v = shmEntries(prefix());
    return std::set<std::string>(v.begin(), v.end());
}
std::string join(const std::set<std::string>& s) {
    std::string r;
    for (auto& x : s) r += (r.empty() ? "" : " ") + x;
    return r;
}
struct Res {
    int th, fd;
    int64_t maps;
    // a thread that was joined can stay in /proc/self/task a moment longer: the count is the least of a few looks
    static Res now() {
        int t = threadCount();
        for (int i = 0; i < 3; i++) {
            sleepMs(1);
            t = std::min(t, threadCount());
        }
        return {t, fdCount(), mapCount(prefix())};
    }
};
// back to r (which was measured when things were quiet)
void expectRes(const Res& r, const std::string& what, const char* props = "C12,C23") {
    if (!waitUntil([&] { return threadCount() <= r.th; }, 3000)) viol("threads-remain", fmt("%s: %d threads, were %d", what.c_str(), threadCount(), r.th), props);
    if (!settles(fdCount, r.fd)) viol("descriptors-remain", fmt("%s: %d descriptors, were %d", what.c_str(), fdCount(), r.fd), props);
    if (!settles([] { return mapCount(prefix()); }, r.maps)) viol("mappings-remain", fmt("%s: %d mappings, were %d", what.c_str(), (int)mapCount(prefix()), (int)r.maps), props);
}
void expectNone(const std::set<std::string>& gone, const std::string& what, const char* props = "C12") {
    auto e = entries();
    std::set<std::string> left;
    for (auto& x : gone) if (e.count(x)) left.insert(x);
    if (!left.empty()) viol("shared-objects-remain", what + ": " + join(left), props);
}

// ---- init and uninit -------------------------------------------------------------------------------------------
struct Inst {
    std::unique_ptr<Veigar> v;
    bool init = false;
    std::string name;
    uint32_t cap = 0, size = 0, lockMs = 30;
    std::map<std::string, int> binds;
    std::set<std::string> own;   // its names in /dev/shm
};
struct Model {
    Rng r;
    std::vector<Inst> in;
    std::vector<std::string> names;
    int ver = 0;
    Res base;
    std::string trace;
    explicit Model(uint64_t s) : r(s) {}

    Inst* ownerOf(const std::string& n) {
        for (auto& i : in) if (i.init && i.name == n) return &i;
        return nullptr;
    }
    void log(const std::string& s) {
        trace += s + "; ";
        if (trace.size() > 700) trace = trace.substr(trace.size() - 600);
    }
    void bad(const char* key, const std::string& m, const char* props = "C12") { viol(key, m + " after " + trace, props); }

    void check(Inst& i) {
        if (i.v->isInit() != i.init) bad("isInit-wrong", fmt("isInit() is %d", (int)i.v->isInit()));
        if (i.init) {
            if (i.v->channelName() != i.name) bad("channelName-wrong", "channelName() is " + i.v->channelName() + " for " + i.name);
            if (i.v->msgQueueCapacity() != i.cap || i.v->expectedMsgMaxSize() != i.size)
                bad("parameters-wrong", fmt("capacity %u size %u, expected %u %u", i.v->msgQueueCapacity(), i.v->expectedMsgMaxSize(), i.cap, i.size));
            auto e = entries();
            for (auto& x : i.own) if (!e.count(x)) bad("foreign-objects-removed", x + " of the initialised " + i.name + " is gone");
        }
        if (i.v->timeoutOfRWLock() != i.lockMs) bad("timeoutOfRWLock-wrong", fmt("%u expected %u", i.v->timeoutOfRWLock(), i.lockMs));
        auto bn = i.v->bindNames();
        std::set<std::string> b(bn.begin(), bn.end()), e;
        for (auto& x : i.binds) e.insert(x.first);
        if (b != e || bn.size() != b.size()) bad("bindings-wrong", "bound: " + join(b) + " expected: " + join(e), "C12,C11");
        eval();
    }
    void checkAll() {
        bool any = false;
        for (auto& i : in) { check(i); any = any || i.init; }
        if (!any) {
            auto e = entries();
            if (!e.empty()) bad("shared-objects-remain", join(e));
            expectRes(base, trace);
            stat("all-down states");
        }
    }
    void bind(Inst& i, const std::string& n) {
        int my = ++ver;
        bool had = i.binds.count(n) > 0;
        bool ok = i.v->bind(n, [my](uint64_t x) -> uint64_t { return x * 1000 + my; });
        if (ok == had) bad("bind-wrong", "bind returned " + std::to_string(ok), "C12,C11");
        if (!had) i.binds[n] = my;
    }
    void call(Inst& from, const std::string& target) {
        Inst* o = ownerOf(target);
        uint64_t x = r.below(1000000);
        std::string fn = o && !o->binds.empty() && r.chance(4, 5) ? std::next(o->binds.begin(), r.below(o->binds.size()))->first : "nothing";
        // a lock timeout of the default 30 ms may expire on a loaded machine
        from.v->setTimeoutOfRWLock(20000);
        if (o) o->v->setTimeoutOfRWLock(20000);
        CallResult res = from.v->syncCall(target, 20000, fn, x);
        from.v->setTimeoutOfRWLock(from.lockMs);
        if (o) o->v->setTimeoutOfRWLock(o->lockMs);
        uint64_t y = 0;
        bool should = from.init && o && o->binds.count(fn);
        if (res.isSuccess()) {
            if (!should) bad("impossible-call-succeeded", from.name + " -> " + target + " " + fn, "C12,C02,C09");
            else if (!res.convertObject(y) || y != x * 1000 + o->binds[fn]) bad("wrong-result", fmt("%s -> %s", from.name.c_str(), target.c_str()), "C12,C01,C11");
        }
        else if (should) bad("valid-call-failed", from.name + " -> " + target + ": " + show(res), "C12,C13,C18,C01");
        else if (res.errorMessage.empty()) bad("error-without-message", from.name + " -> " + target, "C12,C09");
        stat(should ? "calls" : "impossible calls");
    }
    // what: usable (must succeed), unusable (must fail), either
    enum Use { GOOD, BAD, EITHER };
    void init(Inst& i, const std::string& n, uint32_t cap, uint32_t size, Use use, const std::string& label) {
        log(fmt("init(%s,%u,%u:%s)", n.substr(0, 30).c_str(), cap, size, label.c_str()));
        auto before = entries();
        Res rb = i.init ? Res{0, 0, 0} : Res::now();
        bool ok = i.v->init(n, cap, size);
        if (i.init) {
            if (ok != (n == i.name)) bad("init-when-initialised", fmt("init returned %d", (int)ok));
            auto after = entries();
            if (after != before) bad("refused-init-side-effect", "before: " + join(before) + " after: " + join(after));
            return;
        }
        if (ok && use == BAD) bad("unusable-init-succeeded", label);
        if (!ok && use == GOOD) bad("usable-init-failed", fmt("%s, capacity %u size %u", n.c_str(), cap, size), "C12,C13,C18");
        if (ok) {
            i.init = true;
            i.name = n;
            i.cap = cap;
            i.size = size;
            for (auto& x : entries()) if (!before.count(x)) i.own.insert(x);
            if (use == EITHER && !violated()) { if (i.binds.empty()) bind(i, "b0"); call(i, n); }
            stat("inits");
        }
        else {
            auto after = entries();
            for (auto& x : after) if (!before.count(x)) bad("failed-init-leaves-objects", x);
            expectRes(rb, "failed init " + label);
            stat("failed inits");
        }
    }
    void uninit(Inst& i) {
        log("uninit(" + (i.init ? i.name : std::string("-")) + ")");
        auto before = entries();
        i.v->uninit();
        auto own = i.own;
        if (!i.init) {
            if (entries() != before) bad("uninit-side-effect", "uninit of an instance that is not initialised");
            return;
        }
        expectNone(own, trace);
        for (auto& x : before) if (!own.count(x) && !entries().count(x)) bad("foreign-objects-removed", x);
        i.init = false;
        i.own.clear();
        i.binds.clear();   // uninit drops the bindings
        stat("uninits");
    }
};
}  // namespace

SCENARIO(init_model) {
    setHangLimit(90000);
    Model m(args.seed);
    {   // one cycle so that everything that stays loaded is loaded
        Veigar v;
        up(v, chan("warm"));
        v.bind("f", [](int x) { return x; });
        v.syncCall(chan("warm"), 20000, "f", 1);
        v.uninit();
    }
    sleepMs(20);
    m.base = Res::now();
    // names that could be mixed up with each other's objects
    std::string x = chan("x");
    m.names = {x, x + "_call", x + "_resp", x + "_call_shm", x + "x", x + " y%s\xc3\xa9", x + std::string(150, 'n'), "." + x};
    int n = 60 * args.scale;
    for (int round = 0; round < n && !violated(); round++) {
        m.in.clear();
        m.in.resize(1 + m.r.below(4));
        for (auto& i : m.in) i.v.reset(new Veigar);
        m.trace.clear();
        uint64_t h = 0;
        for (int step = 0; step < 24 && !violated(); step++) {
            Inst& i = m.r.pick(m.in);
            int op = (int)m.r.below(100);
            uint64_t situation = i.init * 2 + (i.binds.size() > 0);
            for (auto& j : m.in) situation = situation * 2 + j.init;
            h = situation;
            if (op < 34) {
                std::string nm = m.r.pick(m.names);
                if (m.ownerOf(nm) && m.ownerOf(nm) != &i) continue;   // a name is used once
                static const uint32_t caps[] = {1, 2, 3, 7, 50, 200, 1000}, sizes[] = {1, 2, 7, 8, 9, 100, 4096, 10240};
                uint32_t c = m.r.pick(caps), s = m.r.pick(sizes);
                // calls need about 100 bytes in the queue
                if ((uint64_t)c * s < 400) c = 400;
                m.init(i, nm, c, s, Model::GOOD, "good");
                h = h * 100 + (nm == i.name);
            }
            else if (op < 50) {
                int k = (int)m.r.below(14);
                std::string nm = chan("bad");
                uint32_t c = 10, s = 100;
                Model::Use use = Model::BAD;
                switch (k) {
                    case 0: nm = ""; break;
                    case 1: c = 0; break;
                    case 2: s = 0; break;
                    case 3: c = s = 0; break;
                    case 4: c = s = 0xffffffffu; break;
                    case 5: c = s = 0x7fffffffu; break;
                    case 6: c = 0x80000000u; break;
                    case 7: s = 0x80000000u; break;
                    case 8: c = s = 1u << 20; break;
                    case 9: c = 1u << 21; s = 1u << 21; break;   // the product is a multiple of 2^32
                    case 10: nm = chan("a/b"); break;
                    case 11: nm = chan(std::string(300, 'l')); break;
                    case 12: nm = chan(std::string(200 + m.r.below(60), 'l')); use = Model::EITHER; break;
                    case 13: nm = chan("e") + std::string(1, (char)(1 + m.r.below(255))); use = Model::EITHER; if (nm.back() == '/') use = Model::BAD; break;
                }
                if (m.ownerOf(nm)) continue;
                m.init(i, nm, c, s, use, fmt("case%d", k));
                h = h * 100 + 10 + k;
                if (use == Model::EITHER && i.init && i.name == nm) m.uninit(i);
            }
            else if (op < 68) { m.uninit(i); h = h * 100 + 40; }
            else if (op < 78) { m.bind(i, "b" + std::to_string(m.r.below(3))); h = h * 100 + 41; }
            else if (op < 80 && !i.binds.empty()) {
                std::string b = i.binds.begin()->first;
                i.v->unbind(b);
                i.binds.erase(b);
                h = h * 100 + 42;
            }
            else if (op < 84) {
                uint32_t ms = (uint32_t)m.r.below(1000);
                i.v->setTimeoutOfRWLock(ms);
                if (ms) i.lockMs = ms;
                h = h * 100 + 43;
            }
            else if (op < 96) { m.call(i, m.r.pick(m.names)); h = h * 100 + 44; }
            else if (!i.init) {
                m.log("new");
                i = Inst();
                i.v.reset(new Veigar);
                h = h * 100 + 45;
            }
            distinct(mix64(h) ^ m.in.size());
            m.checkAll();
            beat("init_model");
        }
        for (auto& i : m.in) m.uninit(i);
        m.checkAll();
        m.in.clear();
        expectRes(m.base, "after " + m.trace);
    }
    sample(m.trace.substr(0, 250));
}

// Every system call that init makes fails once.
SCENARIO(init_faults) {
    setHangLimit(90000);
    Rng r(args.seed);
    static const char* opn[] = {"shm_open", "ftruncate", "posix_fallocate", "mmap", "sem_open", "pthread_create", "fstat"};
    static const int errs[] = {ENOMEM, EMFILE, EACCES, ENOSPC, EAGAIN, EINVAL, ENFILE};
    auto works = [&](Veigar& v, const std::string& n, const char* what) {
        CallResult res = v.syncCall(n, 20000, "keep", (uint64_t)5);
        uint64_t y = 0;
        if (!res.isSuccess() || !res.convertObject(y) || y != 55) viol("instance-unusable", std::string(what) + ": " + show(res), "C12");
    };
    {
        Veigar v;
        up(v, chan("warm"));
        v.uninit();
    }
    sleepMs(20);
    Res base = Res::now();
    for (int rep = 0; rep < 2 * args.scale && !violated(); rep++) {
        for (int op = 0; op < F_FSTAT; op++) {
            if (op == F_PTHREAD_CREATE) {
#ifndef VH_PLAIN
                continue;
#endif
            }
            bool fired = true;
            for (int k = 0; fired && k < 60 && !violated(); k++) {
                Veigar v;
                v.setTimeoutOfRWLock(20000);
                std::string n = chan(fmt("f%d", (int)r.below(3)));
                if (!v.bind("keep", [](uint64_t x) { return x * 11; })) viol("bind-failed", "", "C11");
                int err = r.pick(errs);
                std::string what = fmt("%s number %d fails with %d", opn[op], k, err);
                faultArm(op, k, err);
                bool ok = v.init(n, 20 + (uint32_t)r.below(200), 100 + (uint32_t)r.below(5000));
                fired = faultFired();
                faultArm(-1, 0, 0);
                eval();
                if (!fired) { if (!ok) viol("usable-init-failed", what, "C12"); }
                else { stat("failed calls"); distinct(fmt("%d %d %d", op, k, err)); }
                if (ok != v.isInit()) viol("isInit-wrong", what, "C12");
                if (!ok) {
                    auto e = entries();
                    if (!e.empty()) viol("failed-init-leaves-objects", what + ": " + join(e), "C12");
                    expectRes(base, what);
                    if (v.bindNames() != std::vector<std::string>{"keep"}) viol("bindings-wrong", what, "C12,C11");
                    CallResult res = v.syncCall(n, 50 + 20000, "keep", (uint64_t)5);
                    if (res.isSuccess()) viol("impossible-call-succeeded", what, "C12,C02");
                    if (r.chance(1, 3)) v.uninit();   // does nothing
                    if (!v.init(n, 20, 1000)) viol("usable-init-failed", "again after " + what, "C12");
                }
                works(v, n, what.c_str());
                v.uninit();
                auto e = entries();
                if (!e.empty()) viol("shared-objects-remain", what + ": " + join(e), "C12");
                expectRes(base, "uninit, " + what);
                beat("init_faults");
            }
        }
        // a target's queues cannot be opened for once
        for (int op : {F_SHM_OPEN, F_MMAP, F_SEM_OPEN}) {
            bool fired = true;
            for (int k = 0; fired && k < 20 && !violated(); k++) {
                Veigar a, b;
                b.bind("keep", [](uint64_t x) { return x * 11; });
                if (!up(a, chan("fa")) || !up(b, chan("fb"))) { viol("usable-init-failed", "two instances", "C12"); break; }
                int err = r.pick(errs);
                std::string what = fmt("%s number %d of a call fails with %d", opn[op], k, err);
                faultArm(op, k, err);
                CallResult res = a.syncCall(chan("fb"), 1500, "keep", (uint64_t)5);
                fired = faultFired();
                faultArm(-1, 0, 0);
                eval();
                if (fired) { stat("failed calls"); distinct(fmt("call %d %d %d", op, k, err)); }
                uint64_t y = 0;
                if (res.isSuccess() && (!res.convertObject(y) || y != 55)) viol("wrong-result", what, "C01,C12");
                if (!fired && !res.isSuccess() && res.errCode != ErrorCode::TIMEOUT) viol("valid-call-failed", what + show(res), "C12");
                if (!res.isSuccess() && res.errorMessage.empty()) viol("error-without-message", what, "C12,C09");
                works(a, chan("fb"), what.c_str());
                works(b, chan("fb"), what.c_str());
                if (r.chance(1, 2)) { a.uninit(); b.uninit(); } else { b.uninit(); a.uninit(); }
                auto e = entries();
                if (!e.empty()) viol("shared-objects-remain", what + ": " + join(e), "C12");
                expectRes(base, what);
                beat("init_faults");
            }
        }
        // descriptors really run out
        for (int room = 0; room < 14 && !violated(); room++) {
            Veigar v;
            v.setTimeoutOfRWLock(20000);
            v.bind("keep", [](uint64_t x) { return x * 11; });
            rlimit old, lim;
            getrlimit(RLIMIT_NOFILE, &old);
            int top = open("/dev/null", O_RDONLY);
            close(top);
            lim = old;
            lim.rlim_cur = top + room;
            setrlimit(RLIMIT_NOFILE, &lim);
            bool ok = v.init(chan("nofile"), 20, 1000);
            if (ok) works(v, chan("nofile"), "few descriptors");
            setrlimit(RLIMIT_NOFILE, &old);
            eval();
            distinct(fmt("nofile %d %d", room, (int)ok));
            if (!ok) {
                expectRes(base, fmt("init with %d descriptors", room));
                auto e = entries();
                if (!e.empty()) viol("failed-init-leaves-objects", "no descriptors: " + join(e), "C12");
                if (!v.init(chan("nofile"), 20, 1000)) viol("usable-init-failed", "after descriptors ran out", "C12");
                works(v, chan("nofile"), "after descriptors ran out");
            }
            v.uninit();
            expectRes(base, fmt("uninit after %d descriptors", room));
            beat("init_faults");
        }
    }
}

// ---- shutdown at any moment -------------------------------------------------------------------------------------
namespace {
struct Cb {
    std::atomic<int> n{0};
    std::atomic<int> code{-1};
    std::atomic<int64_t> atUs{0};
};
struct ACall {
    uint64_t tok = 0;
    bool selfTarget = false, isF = false;
    int tid = 0;
    std::shared_ptr<Cb> cb;                              // style callback
    std::shared_ptr<veigar::AsyncCallResult> fut;        // style promise
    int64_t issuedUs = 0;                                // the call had returned
    int epoch = 0;
    std::string what;
};
}  // namespace

SCENARIO(shutdown) {
    setHangLimit(60000);
    Rng r(args.seed);
    bool lsan = false;
    {
        Veigar v;
        up(v, chan("warm"));
        v.uninit();
    }
    sleepMs(20);
    Res base = Res::now();
    int rounds = 4 * args.scale;
    for (int round = 0; round < rounds && !violated(); round++) {
        ExecLog* log = localLog();
        std::unique_ptr<Veigar> A(new Veigar);
        Veigar B, D;
        Callee ca, cb, cd;
        auto prep = [&](Callee& c, Veigar* v, int id) { c.v = v; c.chanId = id; c.log = log; };
        prep(ca, A.get(), 1);
        prep(cb, &B, 2);
        prep(cd, &D, 3);
        std::string an = chan("A"), bn = chan("B"), dn = chan("D");
        std::atomic<int> aRunning{0};
        std::atomic<int64_t> aStarted{0};
        std::atomic<int> selfNests{0};
        std::atomic<bool> release{true};
        auto bindA = [&] {
            // bindings made before init are kept
            ca.bindAll();
            A->bind("hold", [&](uint64_t tok) -> uint64_t {
                aRunning++;
                aStarted++;
                if (tok < kMaxTok) log->n[tok].fetch_add(1);
                waitUntil([&] { return release.load(); }, 20000);
                aRunning--;
                return expectNum(tok, 0, 1, 103);
            });
            A->bind("slowA", [&](uint64_t tok, int ms) -> uint64_t {
                aRunning++;
                aStarted++;
                sleepMs(ms);
                aRunning--;
                return tok;
            });
            // three of these at once would wait for their own thread
            A->bind("nestSelf", [&](uint64_t tok, uint64_t tok2) -> uint64_t {
                aRunning++;
                aStarted++;
                if (selfNests.fetch_add(1) < 2) ca.v->syncCall(an, 20000, "f", tok2, (uint64_t)7);
                selfNests--;
                aRunning--;
                return tok;
            });
        };
        log->block = 0;
        if (!up(B, bn, 60, 2000) || !up(D, dn, 1 + r.below(2), 300) || !cb.bindAll() || !cd.bindAll()) fatal("peers");
        bindA();
        auto initA = [&] { return up(*A, an, 5 + (uint32_t)r.below(100), 300 + (uint32_t)r.below(3000)); };
        if (!initA()) { viol("usable-init-failed", "first", "C12,C14"); break; }
        int level = (int)r.below(4);
        perturb(level, r.next());
        std::atomic<bool> quit{false};
        std::atomic<int> epoch{0};      // even: A is up (or coming up); odd: shutting down or down
        bool throughDown = r.chance(1, 2);   // the threads go on calling through A while it is down and comes up
        std::atomic<bool> paused{false};
        std::atomic<int> parked{0};
        int nOwn = 1 + (int)r.below(3), nPeer = 1 + (int)r.below(2);
        std::mutex mx;
        std::vector<ACall> calls;
        std::vector<std::thread> ts;
        uint64_t s0 = r.next();
        for (int t = 0; t < nOwn; t++) ts.emplace_back([&, t] {
            Rng q(s0 + t);
            while (!quit) {
                if (paused && !throughDown) {
                    parked++;
                    while (paused && !quit) sleepUs(300);
                    parked--;
                    continue;
                }
                ACall c;
                c.tok = log->next.fetch_add(1);
                if (c.tok >= kMaxTok - 64) break;
                c.epoch = epoch.load();
                int k = (int)q.below(12);
                uint32_t to = (uint32_t)(q.chance(1, 3) ? 40000 : 25 + q.below(200)) + 20000;
                std::string target = k < 4 ? bn : k < 6 ? an : k < 8 ? dn : k < 9 ? chan("none") : bn;
                c.selfTarget = target == an;
                c.tid = target == an ? 1 : target == bn ? 2 : 3;
                std::string fn = k >= 9 ? "block" : k == 7 ? "block" : (k == 5 ? "slowA" : "f");
                c.isF = fn == "f" && k != 8;
                c.what = fn + " to " + target.substr(prefix().size());
                int style = (int)q.below(3);
                if (style == 0 && fn == "block" && q.chance(1, 2)) style = 1;
                try {
                    auto doIt = [&](auto... a) {
                        if (style == 0) {
                            int64_t t0 = canaryMs();
                            CallResult res = A->syncCall(target, to, fn, a...);
                            if (!res.isSuccess() && res.errorMessage.empty()) viol("error-without-message", "sync " + c.what, "C14,C09");
                            if (res.isSuccess() && c.isF) {
                                uint64_t y = 0;
                                if (!res.convertObject(y) || y != expectNum(c.tok, 9, c.tid, 0)) viol("wrong-result", "sync " + c.what, "C01,C14");
                            }
                            (void)t0;
                            stat(res.isSuccess() ? "sync ok" : "sync failed");
                            eval();
                        }
                        else if (style == 1) {
                            c.fut = A->asyncCall(target, to, fn, a...);
                            if (!c.fut || !c.fut->second.valid()) viol("no-future", c.what, "C03,C14");
                        }
                        else {
                            auto cb = c.cb = std::make_shared<Cb>();
                            uint64_t tok = c.tok;
                            bool isF = c.isF;
                            int tid = c.tid;
                            bool again = q.chance(1, 5);
                            Veigar* pa = A.get();
                            std::string tgt = target;
                            A->asyncCall([=](const CallResult& res) {
                                if (cb->n.fetch_add(1) != 0) viol("completed-twice", fmt("token %" PRIu64, tok), "C03,C14,C22");
                                cb->code = (int)res.errCode;
                                cb->atUs = nowUs();
                                if (res.errCode == ErrorCode::SUCCESS && res.errorMessage.empty() && isF) {
                                    CallResult k2 = toResult(res);
                                    uint64_t y = 0;
                                    if (!k2.convertObject(y) || y != expectNum(tok, 9, tid, 0)) viol("wrong-result", fmt("callback, token %" PRIu64, tok), "C01,C14");
                                }
                                if (again) pa->asyncCall([](const CallResult&) { stat("chained completions"); }, tgt, 21000, "f", tok, (uint64_t)9);
                            }, target, to, fn, a...);
                        }
                    };
                    if (fn == "f") doIt(c.tok, (uint64_t)9);
                    else if (fn == "slowA") doIt(c.tok, (int)q.below(8));
                    else doIt(c.tok);
                } catch (std::exception& e) {
                    viol("exception-escapes", c.what + ": " + e.what(), "C14,C09,C03");
                } catch (...) {
                    viol("exception-escapes", c.what, "C14,C09,C03");
                }
                c.issuedUs = nowUs();
                if (q.chance(1, 10) && c.fut) A->releaseCall(c.fut->first), c.fut.reset();
                if (c.fut || c.cb) { std::lock_guard<std::mutex> lg(mx); calls.push_back(c); }
                if (q.chance(1, 8)) { std::string bnm = "t" + std::to_string(t); A->bind(bnm, [](int x) { return x; }); A->bindNames(); A->unbind(bnm); }
                if (q.chance(1, 8)) { A->isInit(); A->channelName(); A->msgQueueCapacity(); A->timeoutOfRWLock(); A->setTimeoutOfRWLock(20000); }
                if (q.chance(1, 2)) sleepUs(q.below(800));
                {
                    std::lock_guard<std::mutex> lg(mx);
                    if (calls.size() > 3000) sleepMs(2);
                }
                beat();
            }
        });
        // Peers calling A. Calls that A's shutdown swallows end with their timeout.
        std::atomic<int64_t> peerOk{0};
        for (int t = 0; t < nPeer; t++) ts.emplace_back([&, t] {
            Rng q(s0 + 100 + t);
            while (!quit) {
                uint64_t tok = log->next.fetch_add(1);
                if (tok >= kMaxTok - 64) break;
                int k = (int)q.below(10);
                CallResult res;
                // the lock timeout of the peers is far above this
                if (k < 5) res = B.syncCall(an, 150, "f", tok, (uint64_t)9);
                else if (k < 7) res = B.syncCall(an, 150, "slowA", tok, (int)q.below(10));
                else if (k < 8) res = B.syncCall(an, 150, "nest", tok, bn, 2, (uint64_t)log->next.fetch_add(1));
                else if (k < 9) { B.asyncCall([](const CallResult&) {}, an, 150, "hold", tok); continue; }
                else {
                    if (q.chance(1, 2)) B.asyncCall([](const CallResult&) {}, an, 150, "nestSelf", tok, (uint64_t)log->next.fetch_add(1));
                    else B.asyncCall([](const CallResult&) {}, an, 150, "nest", tok, dn, 3, (uint64_t)log->next.fetch_add(1));
                    continue;
                }
                uint64_t y = 0;
                if (res.isSuccess() && k < 5) {
                    if (!res.convertObject(y) || y != expectNum(tok, 9, 1, 0)) viol("wrong-result", "peer", "C01,C14");
                    peerOk++;
                }
                sleepUs(q.below(500));
                beat();
            }
        });
        int cycles = 2 + (int)r.below(4);
        for (int cyc = 0; cyc < cycles && !violated(); cyc++) {
            log->block = r.chance(1, 2);
            release = !r.chance(1, 3);
            sleepUs(r.below(r.chance(1, 4) ? 60000 : 8000));
            bool held = !release;
            std::thread rel;
            int64_t relMs = (int64_t)r.below(80);
            if (held) rel = std::thread([&, relMs] { sleepMs(relMs); release = true; });
            epoch++;
            paused = true;
            if (!throughDown && r.chance(1, 3)) waitUntil([&] { return parked.load() == nOwn; }, 300);
            int64_t c0 = canaryMs(), t0 = nowUs();
            try {
                A->uninit();
            } catch (...) {
                viol("exception-escapes", "uninit", "C14");
            }
            int64_t dur = canaryMs() - c0, endUs = nowUs();
            eval();
            if (A->isInit()) viol("isInit-wrong", "after uninit", "C12,C14");
            if (aRunning.load() != 0) viol("handler-runs-after-uninit", fmt("%d handlers", aRunning.load()), "C14");
            if (ca.running.load() != 0) viol("handler-runs-after-uninit", fmt("%d handlers", ca.running.load()), "C14");
            int64_t st = aStarted.load();
            if (dur > 8000) tviol("uninit-slow", fmt("uninit took %d ms", (int)dur), "C14");
            statMax("uninit ms", dur);
            if (rel.joinable()) rel.join();
            release = true;
            // calls started before are complete
            std::vector<ACall> mine;
            { std::lock_guard<std::mutex> lg(mx); mine.swap(calls); }
            std::vector<ACall> later;
            int pend = 0;
            for (auto& c : mine) {
                bool before = c.issuedUs < t0;
                auto fin = [&] { return c.cb ? c.cb->n.load() > 0 : c.fut->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready; };
                if (before && !fin()) viol("pending-after-uninit", c.what + fmt(", issued %d us before uninit", (int)(t0 - c.issuedUs)), "C14,C03");
                if (before && c.cb && c.cb->atUs > endUs) viol("completed-after-uninit", c.what, "C14,C03");
                if (!before) {
                    // made while A went down: complete all the same
                    if (!waitUntil(fin, throughDown ? 45000 : 5000)) tviol("call-during-uninit-never-completes", c.what, "C14,C03");
                }
                if (c.fut && fin()) {
                    try {
                        CallResult res = c.fut->second.get();
                        if (!res.isSuccess() && res.errorMessage.empty()) viol("error-without-message", "future " + c.what, "C14,C09");
                        if (res.isSuccess() && c.isF) {
                            uint64_t y = 0;
                            if (!res.convertObject(y) || y != expectNum(c.tok, 9, c.tid, 0)) viol("wrong-result", "future " + c.what, "C01,C14");
                        }
                        pend += !res.isSuccess();
                    } catch (std::exception& e) {
                        viol("future-throws", c.what + ": " + e.what(), "C14,C03");
                    }
                }
                eval();
            }
            stat("calls ended by shutdown", pend);
            stat("shutdowns");
            distinct(fmt("%d %d %d %d %d %d", (int)held, (int)log->block.load(), level, (int)throughDown, std::min(pend, 8), (int)std::min<int64_t>(dur / 10, 6)));
            // all of A is gone
            for (auto& e : entries())
                if (e.find(an) != std::string::npos) viol("shared-objects-remain", e, "C12,C14");
            sleepUs(r.below(3000));
            if (aStarted.load() != st) viol("handler-starts-after-uninit", "", "C14");
            if (cyc + 1 == cycles) break;
            // and again
            log->block = 0;
            bindA();
            if (!initA()) { viol("usable-init-failed", "again", "C12,C14"); break; }
            epoch++;
            // it works as a new one: B reaches it
            int64_t p0 = peerOk.load();
            bool ok = waitUntil([&] { return peerOk.load() > p0; }, 15000);
            if (!ok) tviol("restarted-instance-not-reached", "no peer call succeeded", "C14,C13");
            // and it calls and is called
            uint64_t tok = log->next.fetch_add(1);
            CallResult r1 = A->syncCall(bn, 40000, "f", tok, (uint64_t)9);
            uint64_t y = 0;
            if (!r1.isSuccess() || !r1.convertObject(y) || y != expectNum(tok, 9, 2, 0)) viol("restarted-instance-cannot-call", show(r1), "C14");
            paused = false;
        }
        log->block = 0;
        release = true;
        quit = true;
        for (auto& t : ts) t.join();
        perturb(0, 0);
        // calls made through the instance that is down
        for (auto& c : calls) {
            auto fin = [&] { return c.cb ? c.cb->n.load() > 0 : c.fut->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready; };
            if (!waitUntil(fin, 5000)) tviol("call-when-down-never-completes", c.what, "C14,C03");
        }
        A->uninit();   // after a violation it may be up
        calls.clear();
        A.reset();
        B.uninit();
        D.uninit();
        auto e = entries();
        if (!e.empty()) viol("shared-objects-remain", join(e), "C12,C14");
        expectRes(base, "after shutdown round", "C12,C14,C23");
        munmap((void*)log, sizeof(ExecLog));
    }
    (void)lsan;
}

// ---- moves -------------------------------------------------------------------------------------------------------
namespace {
std::atomic<int> g_live{0};
struct Tracked {   // bound object; counts its copies
    int id;
    std::unique_ptr<int> heap;
    explicit Tracked(int i) : id(i), heap(new int(i)) { g_live++; }
    Tracked(const Tracked& o) : id(o.id), heap(new int(*o.heap)) { g_live++; }
    ~Tracked() { g_live--; }
    uint64_t operator()(uint64_t x) const { return x * 1000 + *heap; }
};
struct MInst {
    std::unique_ptr<Veigar> v;
    bool init = false;
    std::string name;
    std::map<std::string, int> binds;
    uint32_t lockMs = 30;
    bool movedFrom = false;   // its content is not specified until it is assigned to
};
Veigar makeBound(int id, std::map<std::string, int>& b, uint32_t& ms) {
    Veigar v;
    v.bind("m" + std::to_string(id % 3), Tracked(id));
    b["m" + std::to_string(id % 3)] = id;
    v.setTimeoutOfRWLock(ms = 1000 + id % 500);
    return v;
}
}  // namespace

// Threads call while the instance is being initialised, which fails at some point: what they started completes, once.
SCENARIO(init_calls) {
    setHangLimit(90000);
    Rng r(args.seed);
    Veigar peer;
    peer.bind("keep", [](uint64_t x) { return x * 11; });
    if (!up(peer, chan("icp"))) { viol("usable-init-failed", "", "C12"); return; }
    std::string target = chan("icp"), n = chan("ic");
    static const int ops[] = {F_SHM_OPEN, F_FTRUNCATE, F_FALLOCATE, F_MMAP, F_SEM_OPEN, F_PTHREAD_CREATE};
    for (int round = 0; round < 60 * args.scale && !violated(); round++) {
        beat("init_calls");
        Veigar v;
        v.setTimeoutOfRWLock(20000);
        v.bind("keep", [](uint64_t x) { return x * 11; });
        std::atomic<bool> stop{false};
        std::atomic<int> made{0}, good{0};
        std::vector<ACall> calls[2];
        auto body = [&](int k, uint64_t seed) {
            Rng q(seed);
            while (!stop && calls[k].size() < 4000) {
                ACall c;
                c.tok = q.next() >> 8;
                c.selfTarget = q.chance(1, 2);
                const std::string& t = c.selfTarget ? n : target;
                if (q.chance(1, 2)) {
                    c.cb = std::make_shared<Cb>();
                    auto cb = c.cb;
                    uint64_t tok = c.tok;
                    v.asyncCall([cb, tok, &good](const CallResult& res) {
                        cb->n++;
                        uint64_t y = 0;
                        if (res.isSuccess()) {
                            good++;
                            if (!toResult(res).convertObject(y) || y != tok * 11) viol("wrong-result", "call during init", "C01,C03");
                        }
                        else if (res.errorMessage.empty()) viol("error-without-message", "call during init", "C03,C09");
                    }, t, 60000, "keep", tok);
                }
                else c.fut = v.asyncCall(t, 60000, "keep", c.tok);
                if (!c.cb && (!c.fut || !c.fut->second.valid())) viol("no-future", "call during init", "C03");
                else calls[k].push_back(std::move(c));
                made++;
                if (q.chance(1, 8)) std::this_thread::yield();
                if (q.chance(1, 200)) sleepUs((int)q.below(300));
            }
        };
        std::thread th[2] = {std::thread(body, 0, r.next()), std::thread(body, 1, r.next())};
        waitUntil([&] { return made > 5; }, 20000);
        perturb(r.chance(1, 2) ? 2 : 0, r.next());
#ifdef VH_PLAIN
        int op = r.pick(ops);
#else
        int op = ops[r.below(5)];
#endif
        // the second queue's, mostly
        int k = op == F_PTHREAD_CREATE ? (int)r.below(18) : op == F_SEM_OPEN ? (int)r.below(5) : (int)r.below(3);
        bool fail = !r.chance(1, 6);
        if (fail) faultArm(op, k, EMFILE);
        bool ok = v.init(n, 20 + (uint32_t)r.below(100), 400);
        faultArm(-1, 0, 0);
        perturb(0, 0);
        if (r.chance(1, 2)) sleepUs((int)r.below(2000));
        bool again = !ok && r.chance(1, 3);
        if (again) ok = v.init(n, 50, 400);
        if (again && !ok) viol("usable-init-failed", "after a failed one, while calls are made", "C12");
        if (ok && r.chance(1, 2)) sleepMs(3);
        if (r.chance(1, 2) && ok) v.uninit();
        stop = true;
        for (auto& t : th) t.join();
        if (v.isInit()) v.uninit();
        int lost = 0, twice = 0, pend = 0;
        int64_t end = nowMs() + 5000;
        for (auto& cs : calls) for (auto& c : cs) {
            eval();
            if (c.cb) {
                waitUntil([&] { return c.cb->n > 0; }, (int)std::max<int64_t>(0, end - nowMs()));
                if (c.cb->n == 0) lost++;
                if (c.cb->n > 1) twice++;
            }
            else if (c.fut->second.wait_for(std::chrono::milliseconds(std::max<int64_t>(0, end - nowMs()))) != std::future_status::ready) pend++;
            else {
                try {
                    CallResult res = c.fut->second.get();
                    uint64_t y = 0;
                    if (res.isSuccess()) { good++; if (!res.convertObject(y) || y != c.tok * 11) viol("wrong-result", "call during init", "C01,C03"); }
                    else if (res.errorMessage.empty()) viol("error-without-message", "call during init", "C03,C09");
                } catch (std::exception& e) { viol("future-without-value", e.what(), "C03"); }
            }
        }
        std::string what = fmt("%d calls of two threads while init %s (%s, number %d%s)", made.load(), fail ? "fails" : "succeeds", op == F_SHM_OPEN ? "shm_open" : op == F_PTHREAD_CREATE ? "pthread_create" : fmt("operation %d", op).c_str(), k, again ? ", then succeeds" : "");
        if (lost || pend) viol("call-during-init-never-completes", fmt("%d callbacks, %d futures: ", lost, pend) + what, "C03,C14,C12");
        if (twice) viol("completed-twice", what, "C03");
        stat("calls during init", made);
        stat("of them successful", good);
        distinct(fmt("%d %d %d %d %d", op, k, (int)fail, (int)again, good > 0));
        if (round == 0) sample(what);
    }
    peer.uninit();
}

SCENARIO(moves) {
    setHangLimit(60000);
    Rng r(args.seed);
    {
        Veigar v;
        up(v, chan("warm"));
        v.uninit();
    }
    sleepMs(20);
    Res base = Res::now();
    int ver = 0;
    int n = 60 * args.scale;
    for (int round = 0; round < n && !violated(); round++) {
        std::vector<MInst> in(2 + r.below(3));
        std::string trace;
        Veigar peer;
        if (!up(peer, chan("peer"))) { viol("usable-init-failed", "peer", "C12"); return; }
        peer.bind("p", [](uint64_t x) { return x + 1; });
        for (auto& i : in) i.v.reset(new Veigar);
        auto bad = [&](const char* key, const std::string& m) { viol(key, m + " after " + trace, "C24"); };
        auto check = [&](MInst& i) {
            eval();
            if (!i.v) return;
            if (i.v->isInit() != i.init) bad("moved:isInit", "");
            if (i.movedFrom) return;
            auto bn = i.v->bindNames();
            std::set<std::string> b(bn.begin(), bn.end()), e;
            for (auto& x : i.binds) e.insert(x.first);
            if (b != e) bad("moved:bindings", join(b) + " expected " + join(e));
            if (i.v->timeoutOfRWLock() != i.lockMs) bad("moved:settings", fmt("%u expected %u", i.v->timeoutOfRWLock(), i.lockMs));
            if (i.init && i.v->channelName() != i.name) bad("moved:channelName", i.v->channelName());
        };
        auto use = [&](MInst& i) {   // initialised: call, be called
            uint64_t x = r.below(100000), y = 0;
            for (auto& b : i.binds) {
                CallResult res = r.chance(1, 2) ? peer.syncCall(i.name, 20000, b.first, x) : i.v->syncCall(i.name, 20000, b.first, x);
                if (!res.isSuccess() || !res.convertObject(y) || y != x * 1000 + b.second) bad("moved:call", b.first + ": " + show(res));
            }
            CallResult no = peer.syncCall(i.name, 20000, "absent", x);
            if (no.errCode != ErrorCode::SUCCESS || no.isSuccess()) bad("moved:absent", show(no));
            CallResult res = i.v->syncCall(chan("peer"), 20000, "p", x);
            if (!res.isSuccess() || !res.convertObject(y) || y != x + 1) bad("moved:calls-peer", show(res));
            auto done = std::make_shared<std::atomic<int>>(0);
            i.v->asyncCall([done](const CallResult& c) { if (c.isSuccess()) (*done)++; }, chan("peer"), 20000, "p", x);
            if (!waitUntil([&] { return done->load() == 1; }, 20000)) bad("moved:callback", "");
            stat("uses");
        };
        auto bindOne = [&](MInst& i) {
            std::string nm = "m" + std::to_string(r.below(3));
            int id = ++ver;
            bool had = i.binds.count(nm) > 0;
            if (i.v->bind(nm, Tracked(id)) == had) bad("moved:bind", nm);
            if (!had) i.binds[nm] = id;
        };
        peer.setTimeoutOfRWLock(20000);
        for (int step = 0; step < 20 && !violated(); step++) {
            MInst& i = r.pick(in);
            MInst& j = r.pick(in);
            int op = (int)r.below(100);
            uint64_t h = i.init * 4 + i.movedFrom * 2 + !i.binds.empty();
            h = h * 8 + j.init * 4 + j.movedFrom * 2 + !j.binds.empty();
            int did = 0;
            if (!i.v) {
                if (op < 60 && j.v && !j.init && &i != &j) {   // move-construct
                    trace += "construct; ";
                    i.v.reset(new Veigar(std::move(*j.v)));
                    i.binds = j.binds; i.lockMs = j.lockMs; i.init = false; i.movedFrom = j.movedFrom;
                    j.binds.clear(); j.movedFrom = true;
                    did = 1;
                }
                else if (op < 80) {
                    trace += "from function; ";
                    std::map<std::string, int> b;
                    uint32_t ms = 30;
                    i = MInst();
                    i.v.reset(new Veigar(makeBound(++ver, b, ms)));
                    i.binds = b; i.lockMs = ms;
                    did = 2;
                }
                else { i = MInst(); i.v.reset(new Veigar); did = 3; }
            }
            else if (op < 25) {
                if (!i.init && j.v && !j.init) {
                    if (&i == &j) {
                        trace += "self-assign; ";
                        *i.v = std::move(*j.v);
                        did = 4;
                    }
                    else {
                        trace += "assign; ";
                        *i.v = std::move(*j.v);
                        i.binds = j.binds; i.lockMs = j.lockMs; i.movedFrom = j.movedFrom;
                        j.binds.clear(); j.movedFrom = true;
                        did = 5;
                    }
                }
            }
            else if (op < 32) {
                if (!i.init && j.v && !j.init && &i != &j) {
                    trace += "swap; ";
                    std::swap(*i.v, *j.v);
                    std::swap(i.binds, j.binds); std::swap(i.lockMs, j.lockMs); std::swap(i.movedFrom, j.movedFrom);
                    did = 6;
                }
            }
            else if (op < 40) {
                if (!i.init && j.v && !j.init && &i != &j) {   // through a vector that grows
                    trace += "vector; ";
                    std::vector<Veigar> v;
                    v.push_back(std::move(*i.v));
                    v.push_back(std::move(*j.v));
                    for (int k = 0; k < 3; k++) v.emplace_back();
                    *i.v = std::move(v[0]);
                    v.erase(v.begin());
                    *j.v = std::move(v[0]);
                    did = 7;
                }
            }
            else if (op < 52) { if (!i.movedFrom) { bindOne(i); did = 8; trace += "bind; "; } }
            else if (op < 56) {
                if (!i.movedFrom && !i.binds.empty()) {
                    auto nm = i.binds.begin()->first;
                    i.v->unbind(nm);
                    i.binds.erase(nm);
                    did = 9;
                }
            }
            else if (op < 60) { if (!i.movedFrom) { i.lockMs = 20000 + (uint32_t)r.below(50); i.v->setTimeoutOfRWLock(i.lockMs); did = 10; } }
            else if (op < 78) {
                if (!i.init && !i.movedFrom) {
                    i.v->setTimeoutOfRWLock(i.lockMs = 20000);
                    i.name = chan("m" + std::to_string(&i - &in[0]));
                    trace += "init; ";
                    if (!i.v->init(i.name, 20, 1000)) bad("moved:init", "init failed");
                    else { i.init = true; use(i); }
                    did = 11;
                }
            }
            else if (op < 92) {
                if (i.init) {
                    if (r.chance(1, 2)) use(i);
                    trace += "uninit; ";
                    i.v->uninit();
                    i.init = false;
                    i.binds.clear();
                    did = 12;
                }
                else if (i.movedFrom && r.chance(1, 2)) i.v->uninit();   // nothing to do
            }
            else if (!i.init) {
                trace += "destroy; ";
                i = MInst();
                did = 13;
            }
            for (auto& x : in) check(x);
            distinct(mix64(h * 100 + did));
            if (did) stat(fmt("op %d", did));
            beat("moves");
        }
        // destroyed in any order
        while (!in.empty()) {
            size_t k = r.below(in.size());
            if (in[k].init) { use(in[k]); in[k].v->uninit(); }
            in.erase(in.begin() + k);
        }
        if (!violated() && !waitUntil([] { return g_live.load() == 0; }, 3000)) bad("moved:bound-objects-leaked", fmt("%d live", g_live.load()));
        peer.uninit();
        expectRes(base, "after " + trace, "C24");
    }
}
