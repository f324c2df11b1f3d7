// C11: binding, unbinding, listing and calling functions at the same time.
#include <algorithm>
#include <deque>
#include "rpc.h"
using namespace vh;

static std::atomic<int64_t> clk{0};
static int64_t tick() { return clk.fetch_add(1); }

// What a bound function carries; used by a running handler it must stay alive.
struct Payload {
    static std::atomic<int64_t> alive;
    uint32_t magic = 0xfeedbeef;
    int version;
    std::unique_ptr<std::string> s;
    explicit Payload(int v) : version(v), s(new std::string(64, 'p')) { alive++; }
    ~Payload() { magic = 0xdead; s.reset(); alive--; }
    bool ok() const { return magic == 0xfeedbeef && s && s->size() == 64 && (*s)[63] == 'p'; }
};
std::atomic<int64_t> Payload::alive{0};

enum Op { BIND, UNBIND, CALL, LIST };
struct Ev {
    Op op;
    int64_t a, b;       // begin, end
    int ver = 0;        // BIND: the version; CALL: the version that answered, 0 not found; LIST: 1 listed
    bool ok = false;    // BIND
};
static std::string showEv(const Ev& e) {
    static const char* n[] = {"bind", "unbind", "call", "list"};
    return fmt("[%" PRId64 ",%" PRId64 "] %s %d%s", e.a, e.b, n[e.op], e.ver, e.op == BIND ? e.ok ? " ok" : " refused" : "");
}

// is there an order of the operations on one name, agreeing with their intervals, in which all outcomes are right?
struct Lin {
    const std::vector<Ev>& h;
    std::set<std::pair<std::vector<uint64_t>, int>> seen;
    int64_t steps = 0;
    Lin(const std::vector<Ev>& h) : h(h) {}
    bool step(const Ev& e, int& st) {
        switch (e.op) {
            case BIND: if (e.ok) { if (st) return false; st = e.ver; return true; } return st != 0;
            case UNBIND: st = 0; return true;
            case CALL: return st == e.ver;
            default: return (st != 0) == (e.ver != 0);
        }
    }
    // iterative depth first search; 1 yes, 0 no, -1 not decided
    int run() {
        size_t n = h.size();
        std::vector<uint64_t> done((n + 63) / 64, 0);
        struct Frame { int st; std::vector<uint64_t> done; size_t left, next; };
        std::vector<Frame> stack;
        stack.push_back({0, done, n, 0});
        while (!stack.empty()) {
            Frame& f = stack.back();
            if (f.left == 0) return 1;
            if (++steps > 3000000) return -1;
            if (f.next == 0 && !seen.insert({f.done, f.st}).second) { stack.pop_back(); continue; }
            // the earliest end among those not done bounds what may come next
            int64_t least = INT64_MAX;
            for (size_t i = 0; i < n; i++) {
                if (h[i].a > least) break;      // sorted by begin
                if (!(f.done[i / 64] >> (i % 64) & 1)) least = std::min(least, h[i].b);
            }
            bool pushed = false;
            for (size_t i = f.next; i < n; i++) {
                if (h[i].a > least) break;
                if (f.done[i / 64] >> (i % 64) & 1) continue;
                int st = f.st;
                if (!step(h[i], st)) continue;
                f.next = i + 1;
                Frame g{st, f.done, f.left - 1, 0};
                g.done[i / 64] |= 1ull << (i % 64);
                stack.push_back(std::move(g));
                pushed = true;
                break;
            }
            if (!pushed) stack.pop_back();
        }
        return 0;
    }
};

static bool notFound(const CallResult& c, const std::string& name) {
    std::string m = c.errorMessage;
    for (auto& ch : m) ch = (char)tolower(ch);
    std::string n = name;
    for (auto& ch : n) ch = (char)tolower(ch);
    return !c.isSuccess() && m.find("could not find") != std::string::npos && m.find(n) != std::string::npos;
}
// 0 not found, else the version; -1 something else
static int callVersion(Veigar& v, Rng& r, const std::string& target, const std::string& name, bool mayBlock = true) {
    CallResult c;
    if (r.chance(1, 2)) c = v.syncCall(target, 60000, name, (int)(mayBlock ? r.below(3) : 0));
    else {
        auto x = v.asyncCall(target, 60000, name, (int)(mayBlock ? r.below(3) : 0));
        if (x->second.wait_for(std::chrono::seconds(60)) != std::future_status::ready) { tviol("no-completion", "call of " + name, "C11,C03"); return -1; }
        c = x->second.get();
        v.releaseCall(x->first);
    }
    int ver = 0;
    if (c.isSuccess() && c.convertObject(ver) && ver > 0) return ver;
    if (notFound(c, name)) return 0;
    viol("neither-result-nor-not-found", name + ": " + show(c), "C11,C09");
    return -1;
}

struct World {
    Veigar srv, cli;
    std::string target;
    std::atomic<int> nextVer{1};
    bool bindVersion(const std::string& name, int ver) {
        auto p = std::make_shared<Payload>(ver);
        std::string shadow = name;
        return srv.bind(name, [p, shadow](int how) -> int {
            if (!p->ok()) viol("function-destroyed-while-running", shadow, "C11,C17");
            if (how == 1) sleepUs(300);
            if (how == 2) std::this_thread::yield();
            if (!p->ok()) viol("function-destroyed-while-running", shadow, "C11,C17");
            return p->version;
        });
    }
};

// one thread changes, others call and list: every answer must fit the state at some moment of the request
SCENARIO(bind_single) {
    Rng r0(args.seed);
    for (int round = 0; round < args.scale && !violated(); round++) {
        World w;
        w.target = chan(fmt("bs%d", round));
        std::vector<std::string> names;
        for (int i = 0; i < 12; i++) names.push_back(i < 8 ? fmt("fn%d", i) : i == 8 ? "f" : i == 9 ? std::string(500, 'x') : i == 10 ? "%s%n" : "\xc3\xa9 \n");
        // names that are nearly the same as others
        static const char* near[] = {"fn0 ", " fn0", "FN0", "Fn1", "fn", "fn00", "fn0\n", "fn10", "nf0", "0nf", " ", "  ", "\t", "fn0.", "fn0/", "fn-0", "fN2", "fn2\x01", "fn2 fn3", "veigar", "list", "0", "-1", "null"};
        for (int i = 0; i < 4; i++) { std::string x = near[r0.below(sizeof near / sizeof *near)]; if (std::find(names.begin(), names.end(), x) == names.end()) names.push_back(x); }
        { std::string x(500, 'x'); x.back() = 'y'; names.push_back(x); }
        bool early = r0.chance(1, 2);
        typedef std::vector<int> State;
        struct Mod { int64_t a, b; State after; };
        std::vector<Mod> mods;
        State st(names.size(), 0);
        mods.push_back({-2, -1, st});
        auto apply = [&](Rng& r) {
            int i = (int)r.below(names.size());
            if (r.chance(1, 30)) {
                if (w.bindVersion("", 1)) viol("empty-name-bound", "", "C11");
                return;
            }
            State next = st;
            Mod m;
            if (r.chance(st[i] ? 1 : 3, 4)) {
                int ver = w.nextVer++;
                bool want = st[i] == 0;
                if (want) next[i] = ver;
                m.a = tick();
                bool ok = w.bindVersion(names[i], ver);
                m.b = tick();
                if (ok != want) viol(want ? "bind-refused" : "bound-twice", names[i].substr(0, 20), "C11");
            }
            else {
                next[i] = 0;
                m.a = tick();
                w.srv.unbind(names[i]);
                m.b = tick();
            }
            m.after = next;
            st = next;
            mods.push_back(m);
            eval();
        };
        if (early) for (int i = 0; i < 20; i++) apply(r0);
        if (!up(w.srv, w.target, 60, 4000) || !up(w.cli, longChan(r0, fmt("bc%d", round)), 60, 4000)) { viol("init-failed", "", "C12"); return; }
        struct Obs { int64_t a, b; int name, ver; std::vector<std::string> list; };
        std::vector<std::vector<Obs>> obs(6);
        std::atomic<bool> stop{false};
        uint64_t sd = r0.next();
        perturb((int)r0.below(3), sd);
        std::vector<std::thread> ts;
        for (int t = 0; t < 6; t++) ts.emplace_back([&, t] {
            Rng r(sd + t * 101);
            while (!stop && !violated()) {
                Obs o;
                o.name = -1;
                if (t >= 4) {
                    o.a = tick();
                    o.list = w.srv.bindNames();
                    o.b = tick();
                    sleepUs(r.below(200));
                }
                else {
                    o.name = (int)r.below(names.size());
                    o.a = tick();
                    o.ver = callVersion(t & 1 ? w.srv : w.cli, r, w.target, names[o.name]);
                    o.b = tick();
                    if (o.ver < 0) return;
                }
                obs[t].push_back(o);
            }
        });
        for (int i = 0; i < 400 && !violated(); i++) {
            beat("bind_single");
            apply(r0);
            if (r0.chance(1, 2)) sleepUs(r0.below(300));
            // what this thread itself sees afterwards is certain
            if (i % 10 == 0) {
                int k = (int)r0.below(names.size());
                int v = callVersion(r0.chance(1, 2) ? w.srv : w.cli, r0, w.target, names[k]);
                if (v >= 0 && v != st[k]) viol(st[k] ? "bound-function-not-found" : "unbound-function-found", fmt("version %d answered, %d is bound", v, st[k]), "C11");
                auto l = w.srv.bindNames();
                std::set<std::string> have(l.begin(), l.end()), want;
                for (size_t j = 0; j < names.size(); j++) if (st[j]) want.insert(names[j]);
                if (have != want || l.size() != have.size()) viol("list-wrong", fmt("%zu names listed, %zu bound", l.size(), want.size()), "C11");
                eval(2);
            }
        }
        stop = true;
        for (auto& t : ts) t.join();
        perturb(0, 0);
        // the states that may have been seen between a and b
        auto window = [&](int64_t a, int64_t b, size_t& lo, size_t& hi) {
            lo = 0;
            for (size_t i = 0; i < mods.size(); i++) if (mods[i].b < a) lo = i;
            hi = lo;
            for (size_t i = lo; i < mods.size() && mods[i].a < b; i++) hi = i;
        };
        for (auto& v : obs) for (auto& o : v) {
            size_t lo, hi;
            window(o.a, o.b, lo, hi);
            bool fits = false;
            std::set<std::string> have(o.list.begin(), o.list.end());
            for (size_t i = lo; i <= hi && !fits; i++) {
                if (o.name >= 0) fits = mods[i].after[o.name] == o.ver;
                else {
                    std::set<std::string> want;
                    for (size_t j = 0; j < names.size(); j++) if (mods[i].after[j]) want.insert(names[j]);
                    fits = want == have && have.size() == o.list.size();
                }
            }
            eval();
            stat(o.name >= 0 ? (o.ver ? "calls_served" : "calls_not_found") : "lists");
            if (hi > lo) stat("overlapping_observations");
            if (!fits) {
                if (o.name >= 0) viol(o.ver ? "stale-function-answered" : "function-not-found", fmt("call of name %d answered by %d; states in its time: %zu, first %d last %d", o.name, o.ver, hi - lo + 1, mods[lo].after[o.name], mods[hi].after[o.name]), "C11");
                else viol("list-was-never-true", fmt("%zu names, %zu states in its time", o.list.size(), hi - lo + 1), "C11");
                break;
            }
            if (o.name >= 0) distinct(fmt("%d %d %zu", o.ver ? 1 : 0, early, std::min<size_t>(hi - lo, 5)) + std::to_string(hi % 97) + std::to_string(o.name));
            else distinct(fmt("l%zu %zu", have.size(), std::min<size_t>(hi - lo, 5)));
        }
        w.cli.uninit();
        w.srv.uninit();
        // what is listed now is what a new start serves
        auto l = w.srv.bindNames();
        if (!up(w.srv, w.target, 60, 4000) || !up(w.cli, longChan(r0, fmt("bd%d", round)), 60, 4000)) { viol("init-failed", "again", "C12,C14"); return; }
        for (size_t j = 0; j < names.size(); j++) {
            int v = callVersion(w.cli, r0, w.target, names[j]);
            bool listed = std::find(l.begin(), l.end(), names[j]) != l.end();
            if ((v > 0) != listed) viol("list-and-calls-disagree", fmt("after a new start: listed %d, answered %d", listed, v), "C11,C14");
        }
        w.cli.uninit();
        w.srv.uninit();
        if (r0.chance(1, 6)) sample(fmt("%zu changes, %zu calls of one thread", mods.size(), obs[0].size()));
    }
    if (!violated() && !settles([] { return Payload::alive.load(); }, 0)) viol("functions-not-freed", fmt("%" PRId64 " of %d", Payload::alive.load(), 400 * args.scale), "C23,C11");
}

// everybody changes, also from inside handlers and callbacks
SCENARIO(bind_many) {
    Rng r0(args.seed);
    for (int round = 0; round < 6 * args.scale && !violated(); round++) {
        beat("bind_many");
        World w;
        w.target = chan(fmt("bm%d", round));
        const int K = 3;
        std::mutex m;
        std::vector<std::vector<Ev>> hist(K);
        auto nm = [](int k) { return fmt("name%d", k); };
        auto rec = [&](int k, const Ev& e) { std::lock_guard<std::mutex> lg(m); hist[k].push_back(e); };
        auto change = [&](Rng& r) {
            int k = (int)r.below(K);
            Ev e;
            if (r.chance(1, 2)) {
                e.op = BIND;
                e.ver = w.nextVer++;
                e.a = tick();
                e.ok = w.bindVersion(nm(k), e.ver);
                e.b = tick();
                rec(k, e);
            }
            else if (r.chance(2, 3)) {
                e.op = UNBIND;
                e.a = tick();
                w.srv.unbind(nm(k));
                e.b = tick();
                rec(k, e);
            }
            else {
                int64_t a = tick();
                auto l = w.srv.bindNames();
                int64_t b = tick();
                for (int i = 0; i < K; i++) {
                    Ev x;
                    x.op = LIST;
                    x.a = a;
                    x.b = b;
                    x.ver = (int)std::count(l.begin(), l.end(), nm(i));
                    if (x.ver > 1) viol("name-listed-twice", nm(i), "C11");
                    rec(i, x);
                }
            }
            eval();
        };
        // a handler that changes bindings, among them its own
        w.srv.bind("change", [&](uint64_t sd) -> int { Rng r(sd); change(r); return 1; });
        std::atomic<int> selfRuns{0};
        std::function<bool()> bindSelf = [&] {
            auto p = std::make_shared<Payload>(7);
            return w.srv.bind("self", [&w, p, &selfRuns](int how) -> int {
                w.srv.unbind("self");
                sleepUs(200 * how);
                if (!p->ok()) viol("function-destroyed-while-running", "self", "C11,C17");
                selfRuns++;
                return p->version;
            });
        };
        bindSelf();
        if (!up(w.srv, w.target, 60, 4000) || !up(w.cli, longChan(r0, fmt("bo%d", round)), 60, 4000)) { viol("init-failed", "", "C12"); return; }
        uint64_t sd = r0.next();
        perturb((int)r0.below(4), sd);
        parallel(7, [&](int t) {
            Rng r(sd + t * 17);
            for (int i = 0; i < 14 && !violated(); i++) {
                beat("bind_many");
                if (t < 2) change(r);
                else if (t == 2) {
                    CallResult c = w.cli.syncCall(w.target, 60000, "change", r.next());
                    if (!c.isSuccess()) viol("change-in-handler-failed", show(c), "C11,C14");
                }
                else if (t == 3) {
                    // from a callback
                    auto p = std::make_shared<std::promise<int>>();
                    auto f = p->get_future();
                    uint64_t s2 = r.next();
                    w.srv.asyncCall([&, p, s2](const CallResult&) { Rng q(s2); change(q); p->set_value(1); }, w.target, 60000, "nothing");
                    if (f.wait_for(std::chrono::seconds(60)) != std::future_status::ready) { tviol("no-completion", "callback", "C11,C03"); return; }
                }
                else {
                    int k = (int)r.below(K);
                    Ev e;
                    e.op = CALL;
                    e.a = tick();
                    e.ver = callVersion(t == 4 ? w.srv : w.cli, r, w.target, nm(k));
                    e.b = tick();
                    if (e.ver >= 0) rec(k, e);
                    eval();
                }
                if (r.chance(1, 3)) sleepUs(r.below(400));
            }
            if (t == 6) {
                CallResult c = w.cli.syncCall(w.target, 60000, "self", (int)r.below(3));
                int x = 0;
                if (!c.isSuccess() || !c.convertObject(x) || x != 7) viol("self-unbinding-handler", show(c), "C11");
                c = w.cli.syncCall(w.target, 60000, "self", 0);
                if (!notFound(c, "self")) viol("unbound-function-found", "self: " + show(c), "C11");
                if (!bindSelf()) viol("bind-refused", "self", "C11");
                c = w.cli.syncCall(w.target, 60000, "self", 0);
                if (!c.isSuccess() || selfRuns != 2) viol("bound-function-not-found", "self: " + show(c), "C11");
                eval(3);
            }
        });
        perturb(0, 0);
        for (int k = 0; k < K && !violated(); k++) {
            auto& h = hist[k];
            std::sort(h.begin(), h.end(), [](const Ev& a, const Ev& b) { return a.a < b.a; });
            Lin l(h);
            int rc = l.run();
            std::string all;
            for (auto& e : h) all += showEv(e) + "; ";
            if (rc == 0) viol("no-order-explains-the-outcomes", nm(k) + ": " + all, "C11");
            else if (rc < 0) { inconc("history too long to decide"); stat("undecided"); }
            else stat("histories");
            std::string shape;
            for (auto& e : h) shape += fmt("%d%d", e.op, e.op == BIND ? (int)e.ok : e.ver ? 1 : 0);
            distinct(shape);
            stat("operations", h.size());
            statMax("steps", l.steps);
            if (r0.chance(1, 40)) sample(all.substr(0, 300));
        }
        w.cli.uninit();
        w.srv.uninit();
    }
    if (!violated() && !settles([] { return Payload::alive.load(); }, 0)) viol("functions-not-freed", fmt("%" PRId64, Payload::alive.load()), "C23,C11");
}
