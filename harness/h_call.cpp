// C01, C02, C03: storms of calls of every style and outcome between instances in threads and processes.
#include "rpc.h"
#include "wire.h"
using namespace vh;

namespace {
enum Kind { NUM, STR, VEC, VOID, SLOW, THROW, THROWINT, NEST, NOFUNC, NOCHAN, ARGS, KINDS };
const char* kindName[] = {"num", "str", "vec", "void", "slow", "throw", "throwint", "nest", "nofunc", "nochan", "args"};

struct Target { std::string name; int id; };

struct Call {
    uint64_t tok = 0, tok2 = 0, a = 0;
    int kind = 0, style = 0;    // style 0 sync 1 promise 2 callback
    int fn = 0, ms = 0;
    Target t, t2;
    std::string s;
    std::vector<uint8_t> v;
    std::atomic<int> completions{0};
    std::string desc() const {
        return fmt("call %s style %d token %" PRIu64 " to %s%s", kindName[kind], style, tok, t.name.c_str(), kind == NUM ? (" fn " + numFuncs()[fn].substr(0, 12)).c_str() : "");
    }
};

// The outcome of a call against what the callee must have produced for exactly this call.
void judge(Call& c, CallResult& r, ExecLog* log, bool strict) {
    bool ok = r.isSuccess();
    std::string d = c.desc() + ": " + show(r);
    if (c.kind <= SLOW || c.kind == NEST) {
        if (ok) {
            bool good = true;
            if (c.kind == NUM || c.kind == SLOW || c.kind == NEST) {
                uint64_t x = 0;
                good = r.convertObject(x);
                uint64_t e = c.kind == NUM ? expectNum(c.tok, c.a, c.t.id, c.fn) : c.kind == SLOW ? expectNum(c.tok, c.ms, c.t.id, 100) : expectNum(c.tok, expectNum(c.tok2, 7, c.t2.id, 0), c.t.id, 102);
                good = good && x == e;
            }
            else if (c.kind == STR) { std::string x; good = r.convertObject(x) && x == expectStr(c.tok, c.s, c.t.id); }
            else if (c.kind == VEC) { std::vector<uint8_t> x; good = r.convertObject(x) && x == expectVec(c.tok, c.v, c.t.id); }
            else good = r.obj.get().is_nil();
            if (!good) viol("wrong-result", d, "C01,C08,C18,C17");
            if (log->n[c.tok].load() != 1) viol("executions-of-successful-call", fmt("executed %d times: ", log->n[c.tok].load()) + d, "C02,C01");
            stat("successes");
        }
        else if (strict) {
            viol(std::string("valid-call-failed:") + ecName(r.errCode), d, "C01,C02,C03,C04,C09,C16,C18,C22,C11,C14");
        }
    }
    else {
        if (ok) viol("impossible-call-succeeded", d, "C01,C02,C09");
        else if (r.errorMessage.empty()) viol("error-without-message", d, "C09,C03");
        if (c.kind == THROW && r.errCode == ErrorCode::SUCCESS) {
            if (r.errorMessage.find("boom-" + std::to_string(c.tok) + "-") == std::string::npos) viol("error-of-another-call", d, "C01,C09");
            if (log->n[c.tok].load() != 1) viol("executions-of-throwing-call", fmt("executed %d times: ", log->n[c.tok].load()) + d, "C02,C09");
        }
        else if ((c.kind == THROW || c.kind == THROWINT) && strict && r.errCode != ErrorCode::SUCCESS) viol("throwing-call-not-answered", d, "C09,C01,C02,C03,C16");
        if (c.kind == NOFUNC && strict) {
            if (r.errCode != ErrorCode::SUCCESS) viol("unknown-function-not-answered", d, "C09,C03");
            else if (r.errorMessage.find("nofunc" + std::to_string(c.tok)) == std::string::npos) viol("error-of-another-call", d, "C01,C09,C11");
        }
        if (c.kind == NOCHAN && r.errCode == ErrorCode::SUCCESS) viol("unknown-channel-delivered", d, "C02,C03");
        if ((c.kind == ARGS || c.kind == NOFUNC || c.kind == NOCHAN) && log->n[c.tok].load() != 0) viol("undeliverable-call-executed", d, "C02,C09");
        stat("errors");
    }
    if (log->n[c.tok].load() > 1) viol("executed-more-than-once", fmt("%d times: ", log->n[c.tok].load()) + d, "C02");
}

struct Held { std::unique_ptr<Call> c; CallResult r; };

// Plays n calls through v; every completion is judged. Returns the calls in order.
struct Player {
    Veigar* v;
    ExecLog* log;
    std::vector<Target> targets;
    std::string nowhere;
    Rng r;
    bool strict = true;
    bool nest = true;
    int maxPayload = 3000;
    uint32_t timeout = 20000;
    std::vector<std::shared_ptr<Call>> all;
    std::vector<std::pair<std::shared_ptr<Call>, CallResult>> kept;   // results read again much later
    uint64_t order = 0;
    std::atomic<int64_t> open{0};

    Player(Veigar* v, ExecLog* l, std::vector<Target> t, std::string no, uint64_t seed) : v(v), log(l), targets(t), nowhere(no), r(seed) {}

    std::shared_ptr<Call> make() {
        auto c = std::make_shared<Call>();
        c->tok = log->next.fetch_add(1);
        if (c->tok >= kMaxTok) fatal("out of tokens");
        c->a = r.next() >> (r.below(64));
        c->style = (int)r.below(3);
        c->t = r.pick(targets);
        int k = (int)r.below(100);
        c->kind = k < 45 ? NUM : k < 58 ? STR : k < 68 ? VEC : k < 72 ? VOID : k < 76 ? SLOW : k < 82 ? THROW : k < 84 ? THROWINT : k < 88 ? NEST : k < 92 ? NOFUNC : k < 96 ? NOCHAN : ARGS;
        if (c->kind == NEST && !nest) c->kind = NUM;
        c->fn = (int)r.below(numFuncs().size());
        c->ms = (int)r.below(6);
        if (c->kind == STR) c->s = std::string(r.chance(1, 10) ? maxPayload : r.below(40), (char)('a' + r.below(26))) + std::to_string(r.next());
        if (c->kind == VEC) { c->v.resize(r.chance(1, 10) ? maxPayload : r.below(60)); for (auto& b : c->v) b = (uint8_t)r.next(); }
        if (c->kind == NEST) { c->style = 0; c->t2 = r.pick(targets); c->tok2 = log->next.fetch_add(1); }
        return c;
    }
    void done(std::shared_ptr<Call> c, CallResult& res) {
        if (c->completions.fetch_add(1) != 0) { viol("completed-twice", c->desc() + ": " + show(res), "C03,C22,C01"); return; }
        judge(*c, res, log, strict);
    }
    template <class... A> void issue(std::shared_ptr<Call> c, const std::string& target, const std::string& fn, A... a) {
        if (c->style == 0) {
            CallResult res = v->syncCall(target, timeout, fn, a...);
            done(c, res);
            if (r.chance(1, 8)) kept.emplace_back(c, std::move(res));
        }
        else if (c->style == 1) {
            auto acr = v->asyncCall(target, timeout, fn, a...);
            if (!acr || !acr->second.valid()) { viol("no-future", c->desc(), "C03"); return; }
            pend.emplace_back(c, acr);
        }
        else {
            open++;
            v->asyncCall([this, c](const CallResult& res) {
                CallResult k = toResult(res);
                done(c, k);
                if (c->tok % 61 == 0) { chain(); }
                open--;
                if (c->tok % 7 == 0) throw std::runtime_error("callback throws");
                if (c->tok % 97 == 0) throw 5;
            }, target, timeout, fn, a...);
        }
    }
    // a callback that calls
    void chain() {
        auto c = std::make_shared<Call>();
        c->tok = log->next.fetch_add(1);
        if (c->tok >= kMaxTok) return;
        c->kind = NUM; c->style = 2; c->fn = 0; c->a = 5; c->t = targets[c->tok % targets.size()];
        open++;
        v->asyncCall([this, c](const CallResult& res) { CallResult k = toResult(res); done(c, k); open--; }, c->t.name, timeout, numFuncs()[0], c->tok, c->a);
    }
    std::vector<std::pair<std::shared_ptr<Call>, std::shared_ptr<veigar::AsyncCallResult>>> pend;

    void collect(size_t keep) {
        while (pend.size() > keep) {
            size_t i = r.below(pend.size());
            auto p = pend[i];
            pend.erase(pend.begin() + i);
            if (!waitUntil([&] { return p.second->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }, timeout + 20000)) {
                tviol("future-never-ready", p.first->desc(), "C03,C16,C01,C02,C09,C22");
                continue;
            }
            try {
                CallResult res = p.second->second.get();
                done(p.first, res);
                if (r.chance(1, 8)) kept.emplace_back(p.first, std::move(res));
            } catch (std::exception& e) {
                viol("future-throws", p.first->desc() + ": " + e.what(), "C03,C09");
            }
            int k = 1 + (int)r.below(2);
            for (int j = 0; j < k; j++) v->releaseCall(p.second->first);
        }
    }
    void run(int n, int window) {
        for (int i = 0; i < n && !violated(); i++) {
            auto c = make();
            all.push_back(c);
            switch (c->kind) {
                case NUM: issue(c, c->t.name, numFuncs()[c->fn], c->tok, c->a); break;
                case STR: issue(c, c->t.name, "str", c->tok, c->s); break;
                case VEC: issue(c, c->t.name, "vec", c->tok, c->v); break;
                case VOID: issue(c, c->t.name, "void", c->tok); break;
                case SLOW: issue(c, c->t.name, "slow", c->tok, c->ms); break;
                case THROW: issue(c, c->t.name, "throw", c->tok); break;
                case THROWINT: issue(c, c->t.name, "throwInt", c->tok); break;
                case NEST: issue(c, c->t.name, "nest", c->tok, c->t2.name, c->t2.id, c->tok2); break;
                case NOFUNC: issue(c, c->t.name, "nofunc" + std::to_string(c->tok), c->tok, c->a); break;
                case NOCHAN: issue(c, nowhere, "f", c->tok, c->a); break;
                case ARGS:
                    if (c->a & 1) issue(c, c->t.name, "f", c->tok, std::string("x"));
                    else if (c->a & 2) issue(c, c->t.name, "f", c->tok);
                    else issue(c, c->t.name, "f", c->tok, c->a, c->a);
                    break;
            }
            order = mix64(order ^ c->kind);
            if (r.chance(1, 3)) collect(window);
            beat();
        }
        collect(0);
        if (!waitUntil([&] { return open == 0; }, timeout + 20000)) {
            for (auto& c : all) if (c->completions == 0) { tviol("callback-never-invoked", c->desc(), "C03,C16,C01,C02,C09,C22"); break; }
        }
        for (auto& k : kept) judge(*k.first, k.second, log, strict);
    }
};

void finalExec(ExecLog* log, const char* how) {
    uint32_t n = log->next;
    int64_t once = 0, never = 0;
    for (uint32_t i = 0; i < n && i < kMaxTok; i++) {
        int k = log->n[i];
        if (k > 1) viol("executed-more-than-once", fmt("token %u %d times (%s)", i, k, how), "C02");
        (k ? once : never)++;
    }
    stat("executed", once);
    stat("not_executed", never);
}

void downAll(std::vector<std::unique_ptr<Veigar>>& vs) { for (auto& v : vs) v->uninit(); }
}  // namespace

SCENARIO(storm) {
    Rng r(args.seed);
    int lvl = args.rest.empty() ? -1 : atoi(args.rest[0].c_str());
    for (int round = 0; round < 6 * args.scale && !violated(); round++) {
        ExecLog* log = localLog();
        int n = (int)r.range(1, 4);
        std::vector<std::unique_ptr<Veigar>> vs;
        std::vector<std::unique_ptr<Callee>> cs;
        std::vector<Target> ts;
        std::string what, fill;
        for (int i = 0; i < n; i++) {
            vs.emplace_back(new Veigar);
            cs.emplace_back(new Callee);
            cs[i]->v = vs[i].get();
            cs[i]->chanId = i;
            cs[i]->log = log;
            if (i == 0) fill = filler(r);
            if (!cs[i]->bindAll()) viol("bind-failed", "", "C11");
            // names that are prefixes of each other
            std::string name = chan(fill + fmt("s%d", round) + (i == 0 ? "" : i == 1 ? "x" : i == 2 ? "x_call" : "xx"));
            uint32_t cap = r.chance(1, 4) ? (uint32_t)r.range(3, 12) : 200, sz = r.chance(1, 4) ? (uint32_t)r.range(1500, 4000) : 10240;
            if (!up(*vs[i], name, cap, sz)) viol("init-failed", name, "C12,C13,C14");
            ts.push_back({name, i});
            what += fmt("%ux%u ", cap, sz);
        }
        if (violated()) { downAll(vs); return; }
        perturb(lvl >= 0 ? lvl : (int)r.below(4), r.next());
        int threads = (int)r.range(2, 8);
        std::vector<std::unique_ptr<Player>> ps;
        for (int i = 0; i < threads; i++) {
            ps.emplace_back(new Player(vs[i % n].get(), log, ts, chan("nowhere"), r.next()));
            // a handler that waits for a handler of its own instance needs free dispatcher threads
            ps[i]->nest = i == 0;
            ps[i]->maxPayload = (int)r.range(10, 3000);
        }
        int per = (int)r.range(30, 120), win = (int)r.range(0, 30);
        parallel(threads, [&](int i) { ps[i]->run(per, win); });
        perturb(0, 0);
        downAll(vs);
        for (auto& p : ps) {
            for (auto& k : p->kept) judge(*k.first, k.second, log, true);   // results outlive the instance
            for (auto& c : p->all) if (!violated() && c->completions != 1) viol("completions-not-one", fmt("%d completions: ", c->completions.load()) + c->desc(), "C03");
            distinct(p->order ^ ((uint64_t)n << 8) ^ threads);
        }
        finalExec(log, "threads");
        eval(threads * per);
        for (auto& c : cs) statMax("handlers_at_once", c->maxRunning);
        sample(fmt("%d instances (%s) %d threads x %d calls", n, what.c_str(), threads, per));
        munmap((void*)log, sizeof *log);
        beat("storm");
    }
}

SCENARIO(storm_child) {
    int index = atoi(args.rest[0].c_str()), n = atoi(args.rest[1].c_str()), per = atoi(args.rest[2].c_str()), threads = atoi(args.rest[3].c_str());
    std::string base = args.rest[4];
    ExecLog* log = sharedFile<ExecLog>("log", false);
    Rng r(args.seed);
    Veigar v;
    Callee c;
    c.v = &v;
    c.chanId = index;
    c.log = log;
    c.bindAll();
    if (!up(v, base + std::to_string(index), r.chance(1, 3) ? (uint32_t)r.range(3, 30) : 200)) { viol("init-failed", "child", "C12,C13,C14"); log->stop = 1; }
    log->ready++;
    std::vector<Target> ts;
    for (int i = 0; i < n; i++) ts.push_back({base + std::to_string(i), i});
    if (waitUntil([&] { return log->go.load() || log->stop.load(); }, 60000) && !log->stop) {
        perturb((int)r.below(3), r.next());
        std::vector<std::unique_ptr<Player>> ps;
        for (int i = 0; i < threads; i++) {
            ps.emplace_back(new Player(&v, log, ts, chan("nowhere"), r.next()));
            ps[i]->nest = index == 0 && i == 0;
            ps[i]->maxPayload = 2500;
        }
        parallel(threads, [&](int i) { ps[i]->run(per, 10); });
        perturb(0, 0);
        eval(threads * per);
        for (auto& p : ps) distinct(p->order);
    }
    log->done++;
    waitUntil([&] { return log->done >= n; }, 90000);
    v.uninit();
    stat("processes");
}
SCENARIO(storm_procs) {
    Rng r(args.seed);
    for (int round = 0; round < 3 * args.scale && !violated(); round++) {
        ExecLog* log = sharedFile<ExecLog>("log", true);
        int n = (int)r.range(2, 4), per = (int)r.range(60, 150);
        std::vector<pid_t> pids;
        std::string base = chan(fmt("sp%d_", round));
        for (int i = 0; i < n; i++)
            pids.push_back(spawn("storm_child", r.next() >> 8, 1, {std::to_string(i), std::to_string(n), std::to_string(per), std::to_string(r.range(1, 4)), base}));
        if (!waitUntil([&] { return log->ready >= n || log->stop; }, 60000)) inconc("children did not start");
        log->go = 1;
        for (auto p : pids) expectExit(reap(p, 150000), "storm_child");
        finalExec(log, "processes");
        eval();
        munmap((void*)log, sizeof *log);
        beat("storm_procs");
    }
}

// Calls that stay pending while many thousands of others pass, from one and from many instances.
SCENARIO(old_pending) {
    Rng r(args.seed);
    ExecLog* log = localLog();
    Veigar a, b;
    Callee ca, cb;
    ca.v = &a; ca.chanId = 0; ca.log = log;
    cb.v = &b; cb.chanId = 1; cb.log = log;
    ca.bindAll();
    cb.bindAll();
    if (!up(a, chan("oa")) || !up(b, chan("ob"))) { viol("init-failed", "", "C12"); return; }
    log->block = 1;
    std::vector<std::pair<uint64_t, std::shared_ptr<veigar::AsyncCallResult>>> held;
    std::vector<uint64_t> cbTok;
    std::atomic<int> cbDone{0};
    for (int i = 0; i < 2; i++) { uint64_t t = log->next++; held.emplace_back(t, a.asyncCall(b.channelName(), 60000, "block", t)); }
    int total = 70000 * args.scale;
    std::atomic<int> left{total};
    std::atomic<int64_t> good{0};
    setHangLimit(120000);
    parallel(8, [&](int) {
        std::vector<std::pair<uint64_t, std::shared_ptr<veigar::AsyncCallResult>>> w;
        auto take = [&] {
            auto p = w.front();
            w.erase(w.begin());
            if (p.second->second.wait_for(std::chrono::seconds(40)) != std::future_status::ready) { tviol("future-never-ready", fmt("token %" PRIu64, p.first), "C03,C16,C01,C22"); return; }
            CallResult res = p.second->second.get();
            uint64_t x = 0;
            if (!res.isSuccess()) viol("valid-call-failed", show(res), "C01,C02,C03,C16,C22");
            else if (!res.convertObject(x) || x != expectNum(p.first, p.first, 0, 0)) viol("wrong-result", fmt("token %" PRIu64 " after many calls", p.first), "C01,C22");
            else good++;
            a.releaseCall(p.second->first);
        };
        while (left.fetch_sub(1) > 0 && !violated()) {
            uint64_t t = log->next++;
            w.emplace_back(t, a.asyncCall(a.channelName(), 40000, "f", t, t));   // calls to itself
            if (w.size() > 40) take();
            beat();
        }
        while (!w.empty() && !violated()) take();
    });
    log->block = 0;
    for (auto& h : held) {
        if (h.second->second.wait_for(std::chrono::seconds(30)) != std::future_status::ready) { tviol("future-never-ready", "the old call", "C03,C16,C01,C22"); continue; }
        CallResult res = h.second->second.get();
        uint64_t x = 0;
        if (!res.isSuccess() || !res.convertObject(x) || x != expectNum(h.first, 0, 1, 101)) viol("wrong-result", "call pending during many others: " + show(res), "C01,C22");
        a.releaseCall(h.second->first);
    }
    a.uninit();
    b.uninit();
    finalExec(log, "old_pending");
    eval(good);
    distinct(fmt("old pending %" PRId64, good.load()));
    stat("calls_while_pending", good);
    sample(fmt("2 calls pending while %" PRId64 " others complete", good.load()));
}

// C02: calls reported as not delivered never run. The target is full, locked, stopped, unknown; the caller is down.
SCENARIO(undelivered) {
    Rng r(args.seed);
    for (int round = 0; round < 3 * args.scale && !violated(); round++) {
        beat("undelivered");
        ExecLog* log = localLog();
        Veigar a, b;
        Callee cb;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cb.bindAll();
        uint32_t cap = (uint32_t)r.range(1, 4), sz = (uint32_t)r.range(300, 600);
        up(a, chan(fmt("ua%d", round)));
        up(b, chan(fmt("ub%d", round)), cap, sz);
        std::string tb = b.channelName();
        log->block = 1;
        struct R { uint64_t tok; std::atomic<int> n{0}; std::atomic<int> ec{-1}; std::string msg; };
        std::vector<std::shared_ptr<R>> rs;
        std::mutex m;
        auto call = [&](Veigar& v, const std::string& target, uint32_t to, const std::string& fn, int style, size_t payload) {
            auto q = std::make_shared<R>();
            q->tok = log->next++;
            { std::lock_guard<std::mutex> lg(m); rs.push_back(q); }
            auto fin = [q](const CallResult& res) { q->msg = show(res); q->ec = (int)res.errCode; q->n++; };
            std::string pad(payload, 'p');
            if (style == 2) {
                if (fn == "block") v.asyncCall(fin, target, to, fn, q->tok);
                else v.asyncCall(fin, target, to, fn, q->tok, pad);
            }
            else {
                auto acr = fn == "block" ? v.asyncCall(target, to, fn, q->tok) : v.asyncCall(target, to, fn, q->tok, pad);
                std::thread([acr, fin, q] { try { CallResult res = acr->second.get(); fin(res); } catch (std::exception& e) { viol("future-throws", e.what(), "C03"); } }).detach();
            }
            return q;
        };
        // three blocked handlers, then a full queue, then calls that cannot get in
        int n = 3 + (int)cap + (int)r.range(4, 10);
        for (int i = 0; i < n; i++) {
            call(a, tb, (uint32_t)(i < 3 + (int)cap ? 30000 : r.range(60, 500)), i < 3 ? "block" : r.chance(1, 2) ? "str" : "block", 1 + (int)r.below(2), r.below(sz / 2));
            if (i < 3) waitUntil([&] { return cb.running >= i + 1; }, 20000);
        }
        // too large for the queue
        auto big = call(a, tb, 5000, "str", 1 + (int)r.below(2), (size_t)cap * sz + 1);
        // unknown channel
        auto un = call(a, chan("nobody"), 5000, "str", 1 + (int)r.below(2), 3);
        Veigar never;
        auto ni = call(never, tb, 5000, "str", 1 + (int)r.below(2), 3);
        sleepMs(r.range(300, 700));
        waitUntil([&] { return big->n && un->n && ni->n; }, 20000);
        for (auto& x : {big, un, ni}) if (!x->n) tviol("undeliverable-call-not-completed", "", "C03");
        // now it drains
        log->block = 0;
        waitUntil([&] { for (auto& q : rs) if (!q->n) return false; return true; }, 45000);
        for (auto& q : rs) if (!q->n) { tviol("call-not-completed", fmt("token %" PRIu64, q->tok), "C03,C15,C16"); break; }
        // the lock of the queue is held past the deadlines of some calls, longer or shorter than the caller waits for it
        veigar::MessageQueue lk(1, 1);
        uint32_t lockMs = r.chance(1, 2) ? 20000 : (uint32_t)r.range(40, 300);
        a.setTimeoutOfRWLock(lockMs);
        if (!violated() && lk.open(tb + "_call") && lk.processRWLock(20000)) {
            std::vector<std::shared_ptr<R>> late;
            int k = (int)r.range(3, 8);
            for (int i = 0; i < k; i++) late.push_back(call(a, tb, (uint32_t)r.range(40, 1200), "str", 1 + (int)r.below(2), r.below(sz / 4)));
            sleepMs(r.range(50, 900));
            lk.processRWUnlock();
            waitUntil([&] { for (auto& q : late) if (!q->n) return false; return true; }, 45000);
            for (auto& q : late) if (!q->n) { tviol("call-not-completed", fmt("token %" PRIu64 ", lock timeout %u", q->tok, lockMs), "C03,C16"); break; }
            sleepMs(20);
            stat("calls_meeting_a_held_lock", k);
        }
        lk.close();
        // the caller is shut down and calls through it go nowhere; the target is stopped
        a.uninit();
        auto down = call(a, tb, 5000, "str", 2, 3);
        sleepMs(50);
        b.uninit();
        up(a, chan(fmt("ua%d", round)));
        auto gone = call(a, tb, 3000, "str", 2, 3);
        waitUntil([&] { return gone->n && down->n; }, 20000);
        // a restarted target must not find any of them
        Callee cb2;
        cb2.v = &b; cb2.chanId = 1; cb2.log = log;
        cb2.bindAll();
        up(b, tb, cap, sz);
        sleepMs(150);
        a.uninit();
        b.uninit();
        int64_t to = 0, del = 0;
        for (auto& q : rs) {
            int k = log->n[q->tok];
            std::string d = fmt("token %" PRIu64 " executed %d times, reported %s", q->tok, k, q->msg.c_str());
            if (q->n > 1) viol("completed-twice", d, "C03");
            if (k > 1) viol("executed-more-than-once", d, "C02");
            if (q->ec == (int)ErrorCode::SUCCESS) { del++; if (k != 1) viol("delivered-call-executions", d, "C02"); }
            else if (q->ec == (int)ErrorCode::TIMEOUT || q->ec == (int)ErrorCode::FAILED) { to++; if (k != 0) viol("undelivered-call-executed", d, "C02"); }
            distinct(fmt("%d/%d/%s", (int)q->ec, k, q->msg.c_str()));
        }
        for (auto& x : {big, un, ni, down, gone}) if (x->n && x->ec == (int)ErrorCode::SUCCESS) viol("undeliverable-call-succeeded", x->msg, "C02");
        eval((int64_t)rs.size());
        stat("reported_undelivered", to);
        stat("delivered", del);
        sample(fmt("queue %ux%u: %" PRId64 " delivered, %" PRId64 " reported as not delivered", cap, sz, del, to));
    }
}

// C03: the caller shuts down at a random moment; every call completes once, none after the shutdown.
SCENARIO(completions) {
    Rng r(args.seed);
    for (int round = 0; round < 12 * args.scale && !violated(); round++) {
        beat("completions");
        ExecLog* log = localLog();
        auto ap = std::make_unique<Veigar>();
        Veigar b;
        Veigar& a = *ap;
        Callee cb;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cb.bindAll();
        up(a, longChan(r, fmt("ca%d", round)), r.chance(1, 2) ? 200 : (uint32_t)r.range(2, 6));
        up(b, longChan(r, fmt("cb%d", round)), r.chance(1, 2) ? 200 : (uint32_t)r.range(2, 6), 2000);
        std::string tb = b.channelName();
        log->block = r.chance(1, 2) ? 1 : 0;
        struct R { std::string what; std::atomic<int> n{0}, ec{-1}; std::atomic<bool> issued{false}; std::atomic<bool> late{false}; std::shared_ptr<veigar::AsyncCallResult> acr; bool beforeDown = false; };
        std::atomic<int> phase{0};   // 1 uninit running, 2 returned
        int threads = (int)r.range(1, 5);
        std::vector<std::vector<std::shared_ptr<R>>> rs(threads);
        uint64_t sd = r.next();
        bool untilDown = r.chance(1, 2);
        int per = (int)r.range(10, 60);
        perturb((int)r.below(4), r.next());
        std::atomic<int> fin{0};
        std::vector<std::thread> tv;
        for (int t = 0; t < threads; t++) tv.emplace_back([&, t] {
            Rng q(sd + t);
            for (int i = 0; i < (untilDown ? 4000 : per) && !violated(); i++) {
                if (untilDown && phase == 2 && i > per) break;
                auto x = std::make_shared<R>();
                uint64_t tok = log->next++;
                if (tok >= kMaxTok) break;
                bool cbk = q.chance(1, 2);
                int k = (int)q.below(8);
                auto done = [x, &phase](const CallResult& res) {
                    x->ec = (int)res.errCode;
                    if (phase == 2 && x->issued && x->beforeDown) x->late = true;
                    x->n++;
                    if (x.use_count() % 2) throw 1;
                };
                uint32_t to = (uint32_t)(q.chance(1, 2) ? 30000 : q.range(40, 200));
                rs[t].push_back(x);
                auto go = [&](const std::string& target, const std::string& fn, auto... av) {
                    x->what = fn + " " + (target == tb ? "peer" : target == chan("nx") ? "nowhere" : "self") + (cbk ? " callback" : " promise");
                    if (cbk) a.asyncCall(done, target, to, fn, av...);
                    else x->acr = a.asyncCall(target, to, fn, av...);
                };
                if (k == 0) go(tb, "block", tok);
                else if (k == 1) go(chan("nx"), "f", tok, tok);
                else if (k == 2) go(tb, "throw", tok);
                else if (k == 3) go(tb, "nofn", tok);
                else if (k == 4) go(tb, "str", tok, std::string(3000, 'x'));
                else if (k == 5) go(tb, "slow", tok, (int)q.below(20));
                else go(tb, "f", tok, tok);
                x->beforeDown = phase == 0;
                x->issued = true;
                if (q.chance(1, 6)) sleepUs(q.below(2000));
                if (untilDown && i > per) sleepUs(200);
            }
            fin++;
        });
        sleepUs(r.below(60000));
        if (!untilDown && r.chance(1, 2)) waitUntil([&] { return fin == threads; }, 60000);
        phase = 1;
        int64_t t0 = canaryMs();
        if (log->block) std::thread([&, log] { sleepMs(30); log->block = 0; }).detach();
        a.uninit();
        phase = 2;
        statMax("uninit_ms", canaryMs() - t0);
        for (auto& t : tv) t.join();
        perturb(0, 0);
        sleepMs(30);
        int64_t nCb = 0, nPr = 0;
        for (auto& v : rs) for (auto& x : v) {
            std::string d = x->what + fmt(" code %d", x->ec.load());
            if (x->acr) {
                nPr++;
                auto& f = x->acr->second;
                if (!f.valid()) { viol("no-future", d, "C03"); continue; }
                if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) { viol("future-not-ready-after-shutdown", d, "C03,C14"); continue; }
                try { CallResult res = f.get(); x->ec = (int)res.errCode; if (!res.isSuccess() && res.errorMessage.empty()) viol("error-without-message", d, "C03,C09"); }
                catch (std::exception& e) { viol("future-throws", d + ": " + e.what(), "C03,C14"); }
            }
            else {
                nCb++;
                if (x->n == 0) viol("callback-never-invoked", d + " (after shutdown)", "C03,C14");
                if (x->n > 1) viol("completed-twice", fmt("%d times ", x->n.load()) + d, "C03");
                if (x->late) viol("completion-after-shutdown", d, "C03,C14");
            }
            distinct(x->what + std::to_string(x->ec));
        }
        log->block = 0;
        b.uninit();
        ap.reset();   // nothing may use the instance any more
        eval(nCb + nPr);
        stat("callbacks", nCb);
        stat("promises", nPr);
        stat(untilDown ? "rounds_calls_during_shutdown" : "rounds_shutdown_pending");
        sample(fmt("%d threads, %" PRId64 " callbacks, %" PRId64 " promises, shutdown %s", threads, nCb, nPr, untilDown ? "while calling" : "with calls pending"));
    }
}
