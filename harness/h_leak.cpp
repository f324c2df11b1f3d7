// C23: resources in use after many calls of one kind do not depend on how many there were.
#include "rpc.h"
#include "message_queue.h"
#include <future>
using namespace vh;
using veigar::MessageQueue;

struct Bomb {      // packing it fails
    template <class P> void msgpack_pack(P& p) const { p.pack(1); throw std::runtime_error("cannot be packed"); }
    void msgpack_unpack(veigar_msgpack::object const&) {}
    template <class O> void msgpack_object(O*, veigar_msgpack::zone&) const { throw std::runtime_error("cannot be an object"); }
};

namespace {
struct Use {
    int64_t heap, fds, threads, maps, shm;
    static Use now() {
        Use u{0, fdCount(), threadCount(), mapCount(prefix()), (int64_t)shmEntries(prefix()).size()};
        u.heap = heapBytes();
        return u;
    }
    bool sameRest(const Use& o) const { return fds == o.fds && threads == o.threads && maps == o.maps && shm == o.shm; }
    std::string show() const { return fmt("%" PRId64 " bytes, %d descriptors, %d threads, %d mappings, %d shared objects", heap, (int)fds, (int)threads, (int)maps, (int)shm); }
};
// what is in use when things have come to rest
Use rest() {
    Use best = Use::now();
    int same = 0;
    for (int i = 0; i < 60 && same < 4; i++) {
        sleepMs(5);
        Use u = Use::now();
        if (u.heap < best.heap) { best = u; same = 0; }
        else if (u.heap == best.heap) { best = u; same++; }
    }
    return best;
}
// runs the batch until what it leaves stops growing; a leak is growth in every one of six further batches
template <class F> void measure(const std::string& what, int n, F batch, int64_t perCall = 6) {
    beat("measure");
    std::vector<Use> us;
    for (int i = 0; i < 3; i++) { batch(n); if (violated()) return; }
    us.push_back(rest());
    bool calm = false;
    for (int i = 0; i < 12; i++) {
        batch(n);
        if (violated()) return;
        us.push_back(rest());
        beat("measure");
        const Use& q = us.back();
        for (size_t j = 0; j + 2 < us.size() && !calm; j++)
            calm = q.heap - us[j].heap < (int64_t)(us.size() - 1 - j) * n * perCall && q.fds <= us[j].fds && q.maps <= us[j].maps && q.threads <= us[j].threads && q.shm <= us[j].shm;
        if (calm) break;
    }
    eval(n * (int64_t)(us.size() + 2));
    distinct(what);
    if (calm) { statMax("batches until stable", (int64_t)us.size()); return; }
    std::string g;
    for (size_t i = 1; i < us.size(); i++) g += fmt("%+" PRId64 " ", us[i].heap - us[i - 1].heap);
    viol("resources-grow:" + what, fmt("batches of %d calls; heap growth per batch: %s; first: %s; last: %s", n, g.c_str(), us[0].show().c_str(), us.back().show().c_str()), "C23");
}

enum Style { SYNC, PROMISE, EARLY, DROPPED, CALLBACK, STYLES };
const char* const kStyle[] = {"sync", "promise", "promise released at once", "promise released unread", "callback"};

struct Batch {
    std::vector<std::shared_ptr<veigar::AsyncCallResult>> ps;
    std::atomic<int> cbs{0};
    int want = 0;
};

// one call of a style; every call that can complete is waited for
template <class... A> void call(Batch& b, Veigar& v, Style st, const std::string& target, uint32_t ms, const std::string& fn, A... av) {
    switch (st) {
        case SYNC: { CallResult r = v.syncCall(target, ms, fn, av...); (void)r; break; }
        case CALLBACK: {
            b.want++;
            std::atomic<int>* n = &b.cbs;
            std::string keep(100, 'k');
            v.asyncCall([n, keep](const CallResult& r) { CallResult c = toResult(r); n->fetch_add(1); }, target, ms, fn, av...);
            break;
        }
        case EARLY: { auto p = v.asyncCall(target, ms, fn, av...); v.releaseCall(p->first); break; }
        default: b.ps.push_back(v.asyncCall(target, ms, fn, av...));
    }
}
void finish(Batch& b, Veigar& v, Style st, bool answered, const std::string& what) {
    if (st == PROMISE)
        for (auto& p : b.ps) {
            if (answered && p->second.wait_for(std::chrono::seconds(40)) != std::future_status::ready) { tviol("call-not-completed", what, "C03"); break; }
            if (answered) { CallResult r = p->second.get(); (void)r; }
            v.releaseCall(p->first);
        }
    if (st == DROPPED) {
        if (answered) for (auto& p : b.ps) if (p->second.wait_for(std::chrono::seconds(40)) != std::future_status::ready) { tviol("call-not-completed", what, "C03"); break; }
        for (auto& p : b.ps) v.releaseCall(p->first);
    }
    if (b.want && !waitUntil([&] { return b.cbs == b.want; }, 40000)) tviol("callbacks-missing", fmt("%d of %d", b.cbs.load(), b.want), "C03,C04");
}
}  // namespace

// rest: part number and number of parts
SCENARIO(batches) {
    Rng r(args.seed);
    setHangLimit(120000);
    size_t part = args.rest.size() > 1 ? atoi(args.rest[0].c_str()) : 0, parts = args.rest.size() > 1 ? atoi(args.rest[1].c_str()) : 1;
    auto log = localLog();
    Veigar a, b, never;
    static Veigar* pb;
    pb = &b;
    static std::atomic<int> running{0};
    struct Run { Run() { running++; } ~Run() { running--; } };
    b.bind("echo", [](std::string s) { Run g; return s; });
    b.bind("void", [](int) { Run g; });
    b.bind("throws", [](int) -> int { Run g; throw std::runtime_error("thrown by the function, with a text that is not short"); });
    b.bind("throwsInt", [](int) -> int { Run g; throw 1; });
    b.bind("sleep", [](int ms) { Run g; sleepMs(ms); return ms; });
    b.bind("huge", [](int n) { Run g; return std::string((size_t)n, 'h'); });
    b.bind("maps", [](std::map<std::string, std::vector<int>> m) { Run g; return m; });
    b.bind("bombResult", [](int) { Run g; return Bomb(); });
    static std::string ta;
    b.bind("back", [](int x) -> int { Run g; CallResult q = pb->syncCall(ta, 20000, "plus", x); int y = 0; q.convertObject(y); return y; });
    a.bind("plus", [](int x) { return x + 1; });
    ta = chan("a");
    std::string tb = chan("b"), tq = chan("q");
    if (!up(a, ta, 50, 2000) || !up(b, tb, 50, 2000)) { viol("init-failed", "", "C12"); return; }
    // a queue that nobody reads
    MessageQueue q(2, 200);
    if (!q.create(tq + VEIGAR_CALL_QUEUE_NAME_SUFFIX)) { fatal("queue"); }
    std::string filler(350, 'f');
    if (!q.processRWLock(1000) || !q.pushBack(filler.data(), (uint32_t)filler.size())) fatal("filling the queue");
    q.processRWUnlock();

    size_t idx = 0;
    auto mine = [&] { return idx++ % parts == part; };
    auto kind = [&](const std::string& name, int n, bool answered, std::function<void(Batch&, Style, int)> one, std::vector<int> styles = {SYNC, PROMISE, EARLY, DROPPED, CALLBACK}) {
        for (int st : styles) {
            if (!mine() || violated()) continue;
            // calls that are answered late or never cannot be waited for
            measure(name + " " + kStyle[st], n * args.scale, [&](int k) {
                Batch bt;
                for (int i = 0; i < k; i++) {
                    one(bt, (Style)st, i);
                    if (st == EARLY && i % 16 == 15) waitUntil([&] { return running == 0; }, 20000);
                    if (i % 64 == 0) beat("calls");
                }
                finish(bt, a, (Style)st, answered, name);
                if (name == "full queue" && st == EARLY) sleepMs(60);   // their time is not over
                waitUntil([&] { return running == 0; }, 20000);
                // the answer to one more call comes after all others
                if (!a.syncCall(tb, 20000, "void", 1).isSuccess()) viol("call-failed", name, "C01");
            });
        }
    };
    std::vector<int> noSync = {PROMISE, EARLY, DROPPED, CALLBACK};
    kind("success", 200, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "echo", std::string((size_t)i, 'e')); });
    kind("success without result", 200, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "void", i); });
    kind("large", 60, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "echo", std::string((size_t)(i * 300), 'e')); });
    kind("containers", 100, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "maps", std::map<std::string, std::vector<int>>{{"a", {1, 2}}, {"key", std::vector<int>((size_t)i, 5)}}); });
    kind("unknown function", 200, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "no such function, with a long name", i); });
    kind("throwing function", 200, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "throws", i); });
    kind("throwing an int", 200, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "throwsInt", i); });
    kind("unusable result", 100, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "bombResult", i); });
    kind("wrong number of arguments", 200, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "echo", i, i, i); });
    kind("wrong argument", 200, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "maps", std::vector<std::string>{"x", "a text that is not short at all"}); });
    kind("absent target", 200, true, [&](Batch& t, Style s, int i) { call(t, a, s, chan("absent" + std::to_string(i)), 20000, "echo", std::string("x")); });
    kind("too large", 100, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "echo", std::string(150000, 'x')); });
    kind("itself", 100, true, [&](Batch& t, Style s, int i) { call(t, a, s, ta, 20000, "plus", i); });
    kind("caller not initialised", 200, true, [&](Batch& t, Style s, int i) { call(t, never, s, tb, 20000, "echo", std::string("x")); });
    kind("nested", 60, true, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 20000, "back", i); }, {SYNC, CALLBACK});
    kind("unusable argument", 100, true, [&](Batch& t, Style s, int i) { try { call(t, a, s, tb, 20000, "echo", Bomb()); } catch (std::exception&) { if (s == CALLBACK) t.want--; } });
    kind("throwing callback", 100, true, [&](Batch& t, Style s, int i) {
        t.want++;
        std::atomic<int>* n = &t.cbs;
        a.asyncCall([n](const CallResult&) { n->fetch_add(1); throw std::runtime_error("from a callback"); }, tb, 20000, "void", i);
    }, {CALLBACK});
    kind("callback that calls", 60, true, [&](Batch& t, Style s, int i) {
        t.want += 2;
        std::atomic<int>* n = &t.cbs;
        Veigar* v = &a;
        a.asyncCall([n, v, tb](const CallResult&) {
            n->fetch_add(1);
            v->asyncCall([n](const CallResult&) { n->fetch_add(1); }, tb, 20000, "echo", std::string("z"));
        }, tb, 20000, "void", i);
    }, {CALLBACK});
    kind("released twice", 100, true, [&](Batch& t, Style s, int i) {
        auto p = a.asyncCall(tb, 20000, "void", i);
        if (i % 2) p->second.wait();
        a.releaseCall(p->first);
        a.releaseCall(p->first);
        a.releaseCall("no such call " + std::to_string(i));
    }, {EARLY});
    kind("bindings", 100, true, [&](Batch& t, Style s, int i) {
        std::string big(200, 'b');
        b.bind("temp" + std::to_string(i), [big](int x) { return x + (int)big.size(); });
        b.bind("temp" + std::to_string(i), [big](int x) { return x; });       // refused
        call(t, a, SYNC, tb, 20000, "temp" + std::to_string(i), i);
        b.bindNames();
        b.unbind("temp" + std::to_string(i));
        b.unbind("temp" + std::to_string(i));
    }, {SYNC});
    // answered after the caller has given up; the queue lock is never waited for that long here
    kind("answered late", 24, true, [&](Batch& t, Style s, int i) {
        a.setTimeoutOfRWLock(20);
        call(t, a, s, tb, 30, "sleep", 45);
        waitUntil([&] { return running == 0; }, 20000);
        a.setTimeoutOfRWLock(20000);
    }, {SYNC, EARLY});
    kind("response does not fit", 12, false, [&](Batch& t, Style s, int i) { call(t, a, s, tb, 60, "huge", 150000); }, {SYNC, EARLY, PROMISE, DROPPED});
    // no room in the target's queue
    kind("full queue", 20, true, [&](Batch& t, Style s, int i) { call(t, a, s, tq, 40, "echo", std::string(i % 2 ? 250 : 120, 'q')); }, {SYNC, PROMISE, EARLY, DROPPED, CALLBACK});
    // the target's lock is held by somebody else
    {
        MessageQueue h(2, 200);
        if (!h.open(tq + VEIGAR_CALL_QUEUE_NAME_SUFFIX)) fatal("open");
        if (!h.processRWLock(10000)) fatal("lock");
        a.setTimeoutOfRWLock(1);
        kind("lock not obtained", 60, true, [&](Batch& t, Style s, int i) {
            a.setTimeoutOfRWLock(1);
            call(t, a, s, tq, 2000, "echo", std::string("locked"));
            if (i == 59) sleepMs(20);
            if (s == EARLY) sleepMs(2);
        });
        a.setTimeoutOfRWLock(20000);
        h.processRWUnlock();
        h.close();
    }
    a.uninit();
    b.uninit();
    q.close();
    (void)log;
}

// instances come and go
SCENARIO(churn) {
    Rng r(args.seed);
    setHangLimit(120000);
    Veigar a;
    a.bind("plus", [](int x) { return x + 1; });
    std::string ta = chan("a");
    if (!up(a, ta, 20, 2000)) { viol("init-failed", "", "C12"); return; }
    int serial = 0;
    std::vector<std::pair<std::string, std::function<void()>>> kinds;
    auto newName = [&] { return chan(fmt("p%d", serial++)); };
    kinds.push_back({"peer with a new name", [&] {
        Veigar p;
        p.bind("plus", [](int x) { return x + 2; });
        std::string n = newName();
        if (!up(p, n, 10, 1000)) { viol("init-failed", n, "C12"); return; }
        if (!p.syncCall(ta, 20000, "plus", 1).isSuccess()) viol("call-failed", "", "C01");
        if (!a.syncCall(n, 20000, "plus", 1).isSuccess()) viol("call-failed", "", "C01");
        p.uninit();
    }});
    kinds.push_back({"peer with the same name", [&] {
        Veigar p;
        p.bind("plus", [](int x) { return x + 2; });
        if (!up(p, chan("same"), 10, 1000)) { viol("init-failed", "", "C12"); return; }
        if (!p.syncCall(ta, 20000, "plus", 1).isSuccess()) viol("call-failed", "", "C01");
        if (!a.syncCall(chan("same"), 20000, "plus", 1).isSuccess()) viol("call-failed", "", "C01,C13");
        p.uninit();
    }});
    kinds.push_back({"peer stopped with pending calls", [&] {
        Veigar p;
        std::atomic<bool> hold{true};
        p.bind("hold", [&](int x) { waitUntil([&] { return !hold.load(); }, 20000); return x; });
        std::string n = newName();
        if (!up(p, n, 1, 300)) { viol("init-failed", n, "C12"); return; }
        std::vector<std::shared_ptr<veigar::AsyncCallResult>> ps;
        for (int i = 0; i < 12; i++) ps.push_back(a.asyncCall(n, 3000, "hold", i));
        std::atomic<int> cbs{0};
        for (int i = 0; i < 10; i++) p.asyncCall([&](const CallResult&) { cbs++; }, n, 3000, "hold", i);
        std::thread t([&] { sleepMs(5); hold = false; });
        p.uninit();
        t.join();
        if (cbs != 10) viol("callbacks-missing", fmt("%d of 10", cbs.load()), "C14");
        for (auto& c : ps) a.releaseCall(c->first);
    }});
    kinds.push_back({"caller stopped while its target is full", [&] {
        MessageQueue q(1, 300);
        std::string n = newName();
        if (!q.create(n + VEIGAR_CALL_QUEUE_NAME_SUFFIX)) fatal("queue");
        Veigar p;
        if (!up(p, newName(), 10, 1000)) { viol("init-failed", n, "C12"); return; }
        std::vector<std::shared_ptr<veigar::AsyncCallResult>> ps;
        for (int i = 0; i < 8; i++) ps.push_back(p.asyncCall(n, 20000, "hold", std::string(120, 'x')));
        sleepMs((int64_t)r.below(8));
        p.uninit();
        for (auto& c : ps) c->second.wait();
        q.close();
    }});
    kinds.push_back({"restart of the same instance", [&] {
        static Veigar p;
        if (!up(p, chan("again"), 10, 1000)) { viol("init-failed", "", "C12,C13"); return; }
        p.bind("plus", [](int x) { return x + 2; });
        if (!a.syncCall(chan("again"), 20000, "plus", 1).isSuccess()) viol("call-failed", "", "C01,C13");
        if (!p.syncCall(chan("again"), 20000, "plus", 1).isSuccess()) viol("call-failed", "", "C01,C13");
        p.uninit();
    }});
    kinds.push_back({"refused init", [&] {
        Veigar p;
        if (p.init("", 10, 1000)) viol("unusable-init-succeeded", "", "C12");
        if (p.init(chan("a/b"), 10, 1000)) viol("unusable-init-succeeded", "", "C12");
        if (p.init(chan(std::string(300, 'l')), 10, 1000)) viol("unusable-init-succeeded", "", "C12");
        if (a.init(chan("other"), 10, 1000)) viol("second-init-succeeded", "", "C12");
        p.bind("f", [](int x) { return x; });
    }});
    kinds.push_back({"failed init", [&] {
        Veigar p;
        int op = (int)r.below(F_COUNT);
        faultArm(op, (int)r.below(6), op == F_PTHREAD_CREATE ? EAGAIN : ENOSPC);
        bool ok = p.init(newName(), 10, 1000);
        faultArm(-1, 0, 0);
        if (ok) p.uninit();
    }});
    kinds.push_back({"moved", [&] {
        Veigar p, q;
        p.bind("f", [](int x) { return x; });
        q = std::move(p);
        Veigar s(std::move(q));
        up(s, newName(), 4, 500);
        s.uninit();
        q.bind("g", [](int x) { return x; });
    }});
    for (auto& k : kinds) {
        if (violated()) break;
        measure(k.first, 8 * args.scale, [&](int n) { for (int i = 0; i < n && !violated(); i++) { beat("churn"); k.second(); } }, 20);
    }
    a.uninit();
}
