// C17: everything the API allows, at once, on shared instances. The sanitizers judge; results are checked lightly.
#include "rpc.h"
#include <array>
#include <deque>
#include <future>
#include <list>
#include <optional>
using namespace vh;

struct Rec {
    uint64_t id;
    std::string name;
    std::vector<double> d;
    std::map<std::string, std::vector<int>> m;
    MSGPACK_DEFINE(id, name, d, m);
    bool operator==(const Rec& o) const { return id == o.id && name == o.name && d == o.d && m == o.m; }
};

namespace {
// which operations are under way on which instance, to see what really overlapped
enum Op { SYNC, ASYNC, CALLBACK, BIND, UNBIND, NAMES, RELEASE, RELEASE2, LOCKMS, QUERY, INIT, UNINIT, CYCLE, RESULT, HANDLER, CB, MOVE, OPS };
const char* const kOps[] = {"sync", "async", "callback", "bind", "unbind", "names", "release", "release twice", "lock timeout", "query", "init", "uninit", "cycle", "result", "handler", "in callback", "move"};
constexpr int kInst = 4;
std::atomic<int> g_busy[kInst][OPS];
std::atomic<bool> g_seen[OPS][OPS];
struct Doing {
    int i, op;
    Doing(int i, int op) : i(i), op(op) {
        for (int o = 0; o < OPS; o++)
            if (g_busy[i][o].load(std::memory_order_relaxed) && !g_seen[op][o].exchange(true, std::memory_order_relaxed))
                distinct(std::string(kOps[std::min(op, o)]) + " while " + kOps[std::max(op, o)]);
        g_busy[i][op].fetch_add(1, std::memory_order_relaxed);
    }
    ~Doing() { g_busy[i][op].fetch_sub(1, std::memory_order_relaxed); }
};

struct Pending {
    std::string id;
    std::future<CallResult> f;
    int from;
    uint64_t want;      // 0: anything
};

struct World {
    Args& a;
    std::vector<std::unique_ptr<Veigar>> v;
    std::vector<std::string> name;
    std::atomic<bool> stop{false};
    std::atomic<int64_t> callbacksWanted{0}, callbacks{0};
    std::mutex m;                                   // pool of calls that any thread may finish
    std::deque<std::shared_ptr<Pending>> pool;
    explicit World(Args& a) : a(a) {}
};

uint64_t work(uint64_t x) { return mix64(x ^ 0x1234567); }
Rec makeRec(uint64_t x) {
    Rec r{x, std::string(x % 300, 'r'), {}, {}};
    for (uint64_t i = 0; i < x % 17; i++) r.d.push_back((double)i + 0.5);
    for (uint64_t i = 0; i < x % 5; i++) r.m["k" + std::to_string(i)] = std::vector<int>((size_t)i + 1, (int)i);
    return r;
}

void bindFixed(World& w, int i, bool again) {
    Veigar* v = w.v[i].get();
    World* pw = &w;
    v->bind("work", [i](uint64_t x) -> uint64_t { Doing d(i, HANDLER); return work(x); });
    v->bind("rec", [i](Rec r) -> Rec { Doing d(i, HANDLER); if (!(r == makeRec(r.id))) viol("argument-wrong", "rec", "C01,C08"); r.id++; return makeRec(r.id); });
    v->bind("bytes", [i](std::string s) -> std::string { Doing d(i, HANDLER); std::reverse(s.begin(), s.end()); return s; });
    v->bind("nothing", [i]() { Doing d(i, HANDLER); });
    v->bind("throws", [i](int k) -> int {
        Doing d(i, HANDLER);
        if (k == 0) throw std::runtime_error("thrown by a function");
        if (k == 1) throw 5;
        return k;
    });
    v->bind("sleep", [i](int us) -> int { Doing d(i, HANDLER); sleepUs(us); return us; });
    v->bind("many", [i](int n) -> std::vector<std::string> { Doing d(i, HANDLER); return std::vector<std::string>((size_t)n, "element of the result"); });
    // functions that use their own instance
    v->bind("self", [i, v, pw](int k, uint64_t x) -> uint64_t {
        Doing d(i, HANDLER);
        switch (k) {
            case 0: v->bind("extra", [](int y) { return y + 1; }); break;
            case 1: v->unbind("extra"); break;
            case 2: v->unbind("self"); v->bind("self", [](int, uint64_t y) -> uint64_t { return work(y); }); break;
            case 3: v->bindNames(); break;
            case 4: v->setTimeoutOfRWLock(10 + (uint32_t)(x % 80)); break;
            case 5: v->releaseCall("no such call"); v->channelName(); break;
            case 6: v->syncCall(pw->name[(i + 1) % kInst], 150, "work", x); break;
            default: {
                pw->callbacksWanted.fetch_add(1, std::memory_order_relaxed);
                v->asyncCall([pw](const CallResult&) { pw->callbacks.fetch_add(1, std::memory_order_relaxed); }, pw->name[(i + 1) % kInst], 150, "work", x);
            }
        }
        return work(x);
    });
    if (again) v->bind("extra", [](int y) { return y + 1; });
}

void finish(World& w, Pending& p, Rng& g) {
    Doing d(p.from, RESULT);
    if (g.chance(1, 4)) { std::this_thread::yield(); }
    if (p.f.wait_for(std::chrono::milliseconds(g.below(200))) == std::future_status::ready) {
        try {
            CallResult r = p.f.get();
            uint64_t x = 0;
            if (p.want && r.isSuccess() && (!r.convertObject(x) || x != p.want)) viol("result-wrong", show(r), "C01");
            if (!r.isSuccess() && r.errorMessage.empty()) viol("failure-without-message", show(r), "C02");
            stat(std::string("async ") + ecName(r.errCode));
        } catch (std::future_error&) {
        }
    }
    else stat("async given up");
}

void oneOp(World& w, Rng& g, std::deque<std::shared_ptr<Pending>>& mine) {
    int i = (int)g.below(kInst), t = (int)g.below(kInst + 1);
    Veigar& v = *w.v[i];
    std::string target = t < kInst ? w.name[t] : chan("absent");
    uint32_t ms = g.chance(1, 3) ? (uint32_t)g.range(101, 140) : (uint32_t)g.range(500, 3000);
    uint64_t x = g.next();
    World* pw = &w;
    switch (g.below(20)) {
        case 0: case 1: case 2: {
            Doing d(i, SYNC);
            CallResult r;
            int kind = (int)g.below(9);
            bool ok = true;
            switch (kind) {
                case 0: case 1: { r = v.syncCall(target, ms, "work", x); uint64_t y; if (r.isSuccess()) ok = r.convertObject(y) && y == work(x); break; }
                case 2: { uint64_t k = x % 1000; r = v.syncCall(target, ms, "rec", makeRec(k)); Rec q; if (r.isSuccess()) ok = r.convertObject(q) && q == makeRec(k + 1); break; }
                case 3: { std::string s((size_t)g.below(40000), (char)x); r = v.syncCall(target, ms, "bytes", s); std::string q; if (r.isSuccess()) ok = r.convertObject(q) && q == s; break; }
                case 4: r = v.syncCall(target, ms, "throws", (int)g.below(3)); break;
                case 5: r = v.syncCall(target, ms, "self", (int)g.below(8), x); break;
                case 6: r = v.syncCall(target, ms, g.chance(1, 2) ? "extra" : "unknown", 7); break;
                case 7: { int n = (int)g.below(1500); r = v.syncCall(target, ms, "many", n); std::vector<std::string> q; if (r.isSuccess()) ok = r.convertObject(q) && (int)q.size() == n; break; }
                default: r = v.syncCall(target, ms, "work", std::string("not a number"), 3.5, std::vector<int>{1, 2}); ok = !r.isSuccess(); break;
            }
            if (!ok) viol("result-wrong", fmt("kind %d: ", kind) + show(r), "C01,C08");
            if (!r.isSuccess() && r.errorMessage.empty()) viol("failure-without-message", show(r), "C02");
            stat(std::string("sync ") + ecName(r.errCode));
            break;
        }
        case 3: case 4: case 5: {
            Doing d(i, ASYNC);
            auto c = g.chance(1, 4) ? v.asyncCall(target, ms, "sleep", (int)g.below(3000)) : v.asyncCall(target, ms, "work", x);
            auto p = std::make_shared<Pending>();
            p->id = c->first;
            p->f = std::move(c->second);
            p->from = i;
            p->want = 0;
            if (g.chance(1, 2)) mine.push_back(p);
            else { std::lock_guard<std::mutex> lg(w.m); w.pool.push_back(p); }
            if (g.chance(1, 6)) v.releaseCall(p->id);   // not interested
            break;
        }
        case 6: case 7: case 8: {
            Doing d(i, CALLBACK);
            w.callbacksWanted.fetch_add(1, std::memory_order_relaxed);
            int what = (int)g.below(10);
            auto keep = std::make_shared<std::vector<uint64_t>>(20, x);   // captured state
            v.asyncCall([pw, i, what, keep, x, target](const CallResult& r) {
                Doing d(i, CB);
                if (keep->size() != 20 || (*keep)[19] != x) viol("capture-damaged", "", "C06");
                Veigar& v = *pw->v[i];
                CallResult copy = toResult(r);
                switch (what) {
                    case 0: v.bind("extra", [](int y) { return y + 1; }); break;
                    case 1: v.unbind("extra"); break;
                    case 2: v.bindNames(); break;
                    case 3: v.releaseCall("nothing"); break;
                    case 4:
                        pw->callbacksWanted.fetch_add(1, std::memory_order_relaxed);
                        v.asyncCall([pw, keep](const CallResult&) { pw->callbacks.fetch_add(1, std::memory_order_relaxed); }, target, 300, "work", x);
                        break;
                    case 5: {
                        auto c = v.asyncCall(target, 300, "work", x);
                        v.releaseCall(c->first);
                        break;
                    }
                    case 6: pw->callbacks.fetch_add(1, std::memory_order_relaxed); throw std::runtime_error("from a callback");
                    default: break;
                }
                pw->callbacks.fetch_add(1, std::memory_order_relaxed);
                stat(std::string("callback ") + ecName(r.errCode));
            }, target, ms, g.chance(1, 3) ? "rec" : "work", x);
            break;
        }
        case 9: { Doing d(i, BIND); v.bind("extra", [](int y) { return y + 1; }); v.bind("t" + std::to_string(g.below(8)), [x](std::string s) { return s + std::to_string(x); }); break; }
        case 10: { Doing d(i, UNBIND); v.unbind("t" + std::to_string(g.below(8))); if (g.chance(1, 3)) v.unbind("extra"); break; }
        case 11: { Doing d(i, NAMES); auto n = v.bindNames(); for (auto& s : n) if (s.empty()) viol("empty-name", "", "C11"); break; }
        case 12: case 13: {
            std::shared_ptr<Pending> p;
            if (!mine.empty() && g.chance(1, 2)) { p = mine.front(); mine.pop_front(); }
            else {
                std::lock_guard<std::mutex> lg(w.m);
                if (!w.pool.empty()) { p = w.pool.front(); w.pool.pop_front(); }
            }
            if (!p) break;
            if (g.chance(1, 3)) {
                // released while another thread gets the result, and twice
                std::thread th([&, s = g.next()] { Rng h(s); finish(w, *p, h); });
                { Doing d(p->from, RELEASE2); w.v[p->from]->releaseCall(p->id); w.v[p->from]->releaseCall(p->id); }
                th.join();
                break;
            }
            finish(w, *p, g);
            Doing d(p->from, RELEASE);
            w.v[p->from]->releaseCall(p->id);
            break;
        }
        case 14: { Doing d(i, LOCKMS); v.setTimeoutOfRWLock((uint32_t)g.range(1, 90)); break; }
        case 15: { Doing d(i, QUERY); stat("queries"); if (v.timeoutOfRWLock() == 0) viol("zero-lock-timeout", "", "C24"); v.channelName(); v.isInit(); v.msgQueueCapacity(); v.expectedMsgMaxSize(); break; }
        case 16: {
            // an instance of this thread
            Doing d(i, CYCLE);
            Veigar p;
            std::string n = chan("p" + std::to_string(g.next() % 100000000));
            p.bind("work", [](uint64_t y) -> uint64_t { return work(y); });
            if (!p.init(n, 1 + (uint32_t)g.below(50), 4096)) { viol("init-failed", n, "C12"); break; }
            p.setTimeoutOfRWLock(90);
            p.syncCall(w.name[i], ms, "work", x);
            v.syncCall(n, ms, "work", x);
            auto c = v.asyncCall(n, ms, "work", x);
            w.callbacksWanted.fetch_add(1, std::memory_order_relaxed);
            p.asyncCall([pw](const CallResult&) { pw->callbacks.fetch_add(1, std::memory_order_relaxed); }, w.name[i], ms, "work", x);
            p.uninit();
            v.releaseCall(c->first);
            stat("peers");
            break;
        }
        case 17: {
            Doing d(i, MOVE);
            Veigar p, q;
            p.bind("a", [x](int) { return x; });
            p.setTimeoutOfRWLock(77);
            q = std::move(p);
            Veigar s(std::move(q));
            if (s.bindNames().size() != 1 || s.timeoutOfRWLock() != 77) viol("move-lost", "", "C24");
            break;
        }
        default: { Doing d(i, NAMES); v.bindNames(); v.channelName(); break; }
    }
    eval();
    beat("mix");
}
}  // namespace

// rest[0] = "calm": no instance is stopped or started while others use it
SCENARIO(mix) {
    startThreads();
    setHangLimit(90000);
    Rng r(args.seed);
    bool calm = !args.rest.empty() && args.rest[0] == "calm";
    for (int round = 0; round < args.scale && !violated(); round++) {
        World w(args);
        perturb(r.chance(2, 3) ? 1 + (int)r.below(3) : 0, r.next());
        for (int i = 0; i < kInst; i++) {
            w.v.emplace_back(new Veigar);
            w.name.push_back(chan("i" + std::to_string(i)));
            bindFixed(w, i, false);
            w.v[i]->setTimeoutOfRWLock(90);
            static const uint32_t caps[] = {5, 20, 200};
            if (!w.v[i]->init(w.name[i], r.pick(caps), 10240)) { viol("init-failed", w.name[i], "C12"); return; }
        }
        int n = 3 + (int)r.below(5);
        std::vector<std::thread> ts;
        for (int t = 0; t < n; t++)
            ts.emplace_back([&, t, s = r.next()] {
                Rng g(s);
                std::deque<std::shared_ptr<Pending>> mine;
                for (int k = 0; k < 60 && !violated(); k++) oneOp(w, g, mine);
                for (auto& p : mine) w.v[p->from]->releaseCall(p->id);
            });
        // the last instance is stopped and started while all of this goes on
        if (!calm) {
            Rng g(r.next());
            int last = kInst - 1;
            for (int k = 0; k < 6; k++) {
                sleepUs((int64_t)g.below(60000));
                { Doing d(last, UNINIT); w.v[last]->uninit(); }
                sleepUs((int64_t)g.below(3000));
                if (g.chance(1, 2)) bindFixed(w, last, true);
                bool ok;
                { Doing d(last, INIT); ok = w.v[last]->init(w.name[last], 1 + (uint32_t)g.below(100), 10240); }
                if (!ok) { viol("restart-failed", "", "C12,C13"); break; }
                if (g.chance(1, 2)) bindFixed(w, last, true);
                stat("restarts");
            }
        }
        for (auto& t : ts) t.join();
        for (auto& p : w.pool) if (r.chance(1, 2)) w.v[p->from]->releaseCall(p->id);
        for (auto& v : w.v) { beat("uninit"); v->uninit(); }
        w.pool.clear();
        if (w.callbacks != w.callbacksWanted) viol("callbacks-missing", fmt("%d of %d", (int)w.callbacks, (int)w.callbacksWanted), "C04,C14");
        perturb(0, 0);
        stat("rounds");
    }
}
