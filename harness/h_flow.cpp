// C15, C16: full queues, bursts, lock contention, spurious signals; everything accepted is processed.
#include "rpc.h"
#include "wire.h"
using namespace vh;

namespace {
constexpr int64_t kSlack = 1500;
struct Out {
    std::atomic<int> n{0}, ec{-1};
    std::atomic<bool> ok{false};
    std::atomic<uint64_t> val{0};
    std::atomic<int64_t> at{0}, atC{0};
    int64_t t0 = 0, c0 = 0;
    uint64_t tok = 0, want = 0;
    uint32_t to = 0;
    std::string msg;
};
using OutP = std::shared_ptr<Out>;
template <class... A> OutP cast(Veigar& v, const std::string& t, uint32_t to, uint64_t tok, uint64_t want, const std::string& fn, A... a) {
    auto o = std::make_shared<Out>();
    o->tok = tok;
    o->want = want;
    o->to = to;
    o->t0 = nowUs() / 1000;
    o->c0 = canaryMs();
    v.asyncCall([o](const CallResult& r) {
        o->at = nowUs() / 1000;
        o->atC = canaryMs();
        o->msg = show(r);
        o->ec = (int)r.errCode;
        CallResult k = toResult(r);
        uint64_t x = 0;
        o->ok = k.isSuccess();
        if (k.isSuccess() && k.convertObject(x)) o->val = x;
        o->n++;
    }, t, to, fn, a...);
    return o;
}
bool allDone(const std::vector<OutP>& v, int64_t ms) {
    return waitUntil([&] { beat(); for (auto& o : v) if (!o->n) return false; return true; }, ms);
}
int64_t backlog(RawQueue& q) {
    if (!q.q->processRWLock(20000)) return -1;
    int64_t n = q.q->msgNumber();
    q.q->processRWUnlock();
    return n;
}
}  // namespace

SCENARIO(full_drain) {
    Rng r(args.seed);
    for (int round = 0; round < 3 * args.scale && !violated(); round++) {
        beat("full_drain");
        ExecLog* log = localLog();
        Veigar a, b, c, d;
        Callee cb, cc;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cc.v = &c; cc.chanId = 2; cc.log = log;
        cb.bindAll();
        cc.bindAll();
        uint32_t cap = (uint32_t)r.range(1, 6), sz = (uint32_t)r.range(300, 800);
        if (!up(a, chan(fmt("fa%d", round))) || !up(b, chan(fmt("fb%d", round)), cap, sz) || !up(c, chan(fmt("fc%d", round))) || !up(d, chan(fmt("fd%d", round)), 300, sz)) { viol("init-failed", "", "C12"); return; }
        RawQueue q;
        if (!q.open(b.channelName() + "_call")) { viol("open-failed", "", "C13,C15"); return; }
        perturb((int)r.below(3), r.next());
        std::string tb = b.channelName();
        std::vector<OutP> blocked, longs, shorts;
        auto blockAll = [&] {
            log->block = 1;
            int base = cb.running;
            for (int i = 0; i < 3; i++) { uint64_t t = log->next++; blocked.push_back(cast(a, tb, 60000, t, expectNum(t, 0, 1, 101), "block", t)); }
            if (!waitUntil([&] { return cb.running >= 3; }, 30000)) tviol("handlers-not-started", fmt("%d of 3 calls of a blocking function run (%d before)", cb.running.load(), base), "C16,C15");
        };
        blockAll();
        if (violated()) { log->block = 0; break; }
        int n = (int)cap + (int)(r.chance(1, 2) ? r.range(150, 400) : r.range(5, 30));
        Veigar* callers[] = {&a, &d, &b};
        for (int i = 0; i < n; i++) {
            Veigar& v = *callers[r.below(r.chance(1, 3) ? 3 : 2)];
            uint64_t t = log->next++;
            bool sh = r.chance(1, 3);
            static const uint32_t far[] = {40000, 65536, 65546, 131072, 0x7fffffffu, 0x80000000u, 0x80000010u, 0xffffffffu, 0xfffffff0u, 4294968u, 2147484u, 0x10000u * 300};
            uint32_t to = sh ? (uint32_t)r.range(100, 500) : far[r.below(sizeof far / sizeof *far)];
            OutP o;
            if (r.chance(1, 3)) o = cast(v, tb, to, t, 0, "vec", t, std::vector<uint8_t>(r.below((size_t)cap * sz - 250)));
            else o = cast(v, tb, to, t, expectNum(t, t, 1, 0), "f", t, t);
            (sh ? shorts : longs).push_back(o);
        }
        // the other target is not affected; the callers are waiting
        for (int i = 0; i < 6 && !violated(); i++) {
            Veigar& v = *callers[i % 3];
            uint64_t t = log->next++;
            int64_t t0 = nowMs(), c0 = canaryMs();
            CallResult res = v.syncCall(c.channelName(), 30000, "f", t, t);
            if (!res.isSuccess()) viol("other-target-held-up", show(res), "C15");
            else if (nowMs() - t0 > kSlack && canaryMs() - c0 > kSlack / 2) tviol("other-target-held-up", fmt("call to an idle channel took %" PRId64 " ms while calls to a full one wait", nowMs() - t0), "C15");
        }
        // those whose time is over
        int64_t until = r.range(0, 900);
        sleepMs(until);
        int early = 0, late = 0;
        for (auto& o : shorts) if (o->n) {
            int64_t e = o->at - o->t0, ec = o->atC - o->c0;
            std::string dsc = fmt("call with timeout %u ms to a full queue: after %" PRId64 " ms ", o->to, e) + o->msg;
            if (o->ok) viol("impossible-call-succeeded", dsc, "C15,C02");
            if (o->ec == (int)ErrorCode::TIMEOUT) {
                early++;
                if (e + 1 < o->to) viol("gives-up-early", dsc, "C15,C04");
                if (e > o->to + kSlack && ec > o->to + kSlack / 2) tviol("late-timeout", dsc, "C15,C04");
            }
            else viol("wrong-outcome-of-full-queue", dsc, "C15,C02");
        }
        for (auto& o : longs) if (o->n) { viol("waiting-call-ended", o->msg, "C15,C04"); break; }
        log->block = 0;
        std::vector<OutP> every = blocked;
        every.insert(every.end(), longs.begin(), longs.end());
        every.insert(every.end(), shorts.begin(), shorts.end());
        if (!allDone(every, 60000)) tviol("waiting-call-never-delivered", fmt("queue of %u: %" PRId64 " messages left", cap, backlog(q)), "C15,C16,C03");
        for (auto& o : every) {
            if (!o->n) continue;
            bool sh = o->to < 1000;
            if (!o->ok && !(sh && o->ec == (int)ErrorCode::TIMEOUT)) viol("waiting-call-failed", o->msg, "C15,C04");
            if (o->ok && o->want && o->val != o->want) viol("wrong-result", o->msg, "C15,C01");
            if (o->ok) stat("delivered_after_wait"); else { stat("timed_out"); late++; }
            eval();
        }
        blocked.clear();
        // full capacity again
        if (!violated()) {
            blockAll();
            std::vector<OutP> fill;
            for (uint32_t i = 0; i < cap; i++) { uint64_t t = log->next++; fill.push_back(cast(a, tb, 60000, t, expectNum(t, t, 1, 0), "f", t, t)); }
            if (!waitUntil([&] { return backlog(q) == (int64_t)cap; }, 15000)) tviol("capacity-lost", fmt("%" PRId64 " messages accepted instead of %u", backlog(q), cap), "C15,C05");
            uint64_t t = log->next++;
            OutP x = cast(d, tb, 150, t, 0, "f", t, t);
            waitUntil([&] { return x->n > 0; }, 20000);
            if (!x->n) tviol("late-timeout", "never", "C15,C04,C03");
            else if (x->ec != (int)ErrorCode::TIMEOUT) viol("wrong-outcome-of-full-queue", x->msg, "C15");
            log->block = 0;
            if (!allDone(fill, 60000)) tviol("waiting-call-never-delivered", "second fill", "C15,C16,C03");
            for (auto& o : fill) if (o->n && (!o->ok || o->val != o->want)) viol("accepted-call-failed", o->msg, "C15,C16");
            if (!allDone(blocked, 60000)) tviol("waiting-call-never-delivered", "second fill", "C15,C16,C03");
            if (backlog(q) != 0) viol("backlog-left", fmt("%" PRId64, backlog(q)), "C16,C15");
        }
        perturb(0, 0);
        distinct(fmt("%u %d %d %d %d", cap, n, early, late, (int)(until / 100)));
        sample(fmt("capacity %u, %d calls, %d timed out in time, the rest delivered after %" PRId64 " ms", cap, n, late, until));
        log->block = 0;
        a.uninit(); b.uninit(); c.uninit(); d.uninit();
    }
}

// Calls may take as long as they were given: in a handler, in a full queue, before a target that is to start, and on the way back.
SCENARIO(patience) {
    Rng r(args.seed);
    int wait = args.rest.empty() ? 6 : atoi(args.rest[0].c_str());      // seconds
    for (int round = 0; round < args.scale && !violated(); round++) {
        ExecLog* log = localLog();
        Veigar a, b, d, e;
        Callee cb, cd;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cd.v = &d; cd.chanId = 2; cd.log = log;
        cb.bindAll();
        cd.bindAll();
        uint32_t cap = (uint32_t)r.range(1, 3);
        if (!up(a, chan(fmt("pa%d", round))) || !up(b, chan(fmt("pb%d", round)), cap, 400) || !up(d, chan(fmt("pd%d", round)), 100, 400) || !up(e, chan(fmt("pe%d", round)))) { viol("init-failed", "", "C12"); return; }
        log->block = 1;
        std::vector<OutP> outs;
        std::vector<std::thread> ts;
        std::mutex m;
        auto timeout = [&] {
            static const uint32_t far[] = {0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffff0u, 4294968u, 2147484u};
            return r.chance(1, 2) ? far[r.below(6)] : (uint32_t)wait * 1000 + (uint32_t)r.range(15000, 40000);
        };
        auto sync = [&](Veigar& v, const std::string& t, bool blocks) {
            uint32_t to = timeout();
            uint64_t tok = log->next++;
            ts.emplace_back([&, t, to, tok, blocks] {
                int64_t t0 = nowMs();
                CallResult x = blocks ? v.syncCall(t, to, "block", tok) : v.syncCall(t, to, "f", tok, tok);
                uint64_t k = 0;
                std::lock_guard<std::mutex> lg(m);
                eval();
                int id = t == b.channelName() ? 1 : 2;
                if (!x.isSuccess() || !x.convertObject(k) || k != (blocks ? expectNum(tok, 0, id, 101) : expectNum(tok, tok, id, 0)))
                    viol("gave-up-early", fmt("synchronous call with timeout %u ms, served after %d s, ended after %" PRId64 " ms: ", to, wait, nowMs() - t0) + show(x), "C04,C15");
                else stat("served_after_seconds", wait);
            });
        };
        // handlers of both are stuck, b's queue is full
        for (int i = 0; i < 2; i++) { sync(a, d.channelName(), true); sync(e, d.channelName(), true); }
        for (int i = 0; i < 3; i++) sync(a, b.channelName(), true);
        for (int i = 0; i < 3; i++) { uint64_t t = log->next++; outs.push_back(cast(a, d.channelName(), timeout(), t, expectNum(t, 0, 2, 101), "block", t)); }
        if (!waitUntil([&] { return cb.running >= 3 && cd.running >= 3; }, 30000)) tviol("handlers-not-started", fmt("%d handlers run", cb.running + cd.running), "C16,C15");
        for (uint32_t i = 0; i < cap + 6; i++) { uint64_t t = log->next++; Veigar& v = i % 2 ? a : e; outs.push_back(cast(v, b.channelName(), timeout(), t, expectNum(t, t, 1, 0), "f", t, t)); }
        for (int i = 0; i < 2; i++) { sync(a, b.channelName(), false); sync(e, d.channelName(), false); }
        for (int64_t t0 = nowMs(); nowMs() - t0 < wait * 1000 && !violated();) { beat("patience"); sleepMs(50); }
        for (auto& o : outs) if (o->n) { viol("gave-up-early", fmt("call with timeout %u ms to a busy target ended after %" PRId64 " ms: ", o->to, o->at - o->t0) + o->msg, "C15,C04"); break; }
        log->block = 0;
        for (auto& t : ts) t.join();
        if (!violated() && !allDone(outs, 60000)) tviol("waiting-call-never-delivered", fmt("after %d s", wait), "C15,C16,C03");
        for (auto& o : outs) {
            eval();
            if (o->n && (!o->ok || o->val != o->want)) viol("waiting-call-failed", fmt("timeout %u ms, served after %d s: ", o->to, wait) + o->msg, "C15,C04");
        }
        distinct(fmt("%u %d", cap, wait));
        sample(fmt("%zu calls answered after %d s, capacity %u", outs.size() + ts.size(), wait, cap));
        a.uninit(); b.uninit(); d.uninit(); e.uninit();
    }
}

// Messages around the size of the whole queue.
SCENARIO(oversize) {
    Rng r(args.seed);
    for (int round = 0; round < 4 * args.scale && !violated(); round++) {
        beat("oversize");
        ExecLog* log = localLog();
        Veigar a, b;
        Callee cb;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cb.bindAll();
        uint32_t cap = (uint32_t)r.range(1, 5), sz = (uint32_t)r.range(300, 3000);
        if (!up(a, chan(fmt("oa%d", round)), 100, 30000) || !up(b, chan(fmt("ob%d", round)), cap, sz)) { viol("init-failed", "", "C12"); return; }
        RawQueue q;
        if (!q.open(b.channelName() + "_call")) { viol("open-failed", "", "C13,C15"); return; }
        // what an empty queue of this geometry takes
        int64_t fits = 0;
        { bool w; q.q->processRWLock(10000); for (int64_t s = 1; s < (int64_t)cap * sz + 3000; s++) if (q.q->checkSpaceSufficient(s, w)) fits = s; q.q->processRWUnlock(); }
        if (fits < (int64_t)cap * sz) viol("capacity-too-small", fmt("%u x %u takes only %" PRId64, cap, sz, fits), "C15,C05");
        bool stuck = r.chance(1, 3);
        int maxOk = -1, minFail = 1 << 30;
        for (int i = 0; i < 40 && !violated(); i++) {
            uint64_t t = log->next++;
            int len = i == 0 ? 3 * (int)fits : (int)fits + (int)r.range(-160, 60);
            if (i % 5 == 4) len = (int)r.below((size_t)fits);
            int64_t t0 = nowMs(), c0 = canaryMs();
            CallResult res = a.syncCall(b.channelName(), 20000, "str", t, std::string(len, 'z'));
            int64_t e = nowMs() - t0, ec = canaryMs() - c0;
            std::string d = fmt("argument of %d bytes for a queue of %" PRId64 ": after %" PRId64 " ms ", len, fits, e) + show(res);
            if (res.isSuccess()) {
                maxOk = std::max(maxOk, len);
                std::string x;
                if (!res.convertObject(x) || x != expectStr(t, std::string(len, 'z'), 1)) viol("wrong-result", d, "C15,C01");
                if (len >= fits) viol("impossible-call-succeeded", d, "C15");
            }
            else {
                minFail = std::min(minFail, len);
                if (len < fits - 150) viol("fitting-message-refused", d, "C15,C18");
                if (res.errCode != ErrorCode::FAILED) viol("oversized-message-not-refused", d, "C15,C02");
                if (e > kSlack && ec > kSlack / 2) tviol("oversized-message-refused-late", d, "C15");
                if (log->n[t]) viol("undelivered-call-executed", d, "C02,C15");
                stat("refused");
            }
            eval();
            distinct(fmt("%u %u %d", cap, sz / 100, (int)((len - fits) / 20)));
        }
        // call ids differ by a digit or two
        if (maxOk > minFail + 4) viol("oversize-limit-unsteady", fmt("%d refused, %d delivered", minFail, maxOk), "C15");
        if (stuck && !violated()) {
            // also while the queue is full
            log->block = 1;
            std::vector<OutP> w;
            for (uint32_t i = 0; i < 3 + cap; i++) { uint64_t t = log->next++; w.push_back(cast(a, b.channelName(), 60000, t, expectNum(t, 0, 1, 101), "block", t)); }
            waitUntil([&] { return cb.running >= 3; }, 20000);
            uint64_t t = log->next++;
            int64_t t0 = nowMs(), c0 = canaryMs();
            CallResult res = a.syncCall(b.channelName(), 20000, "str", t, std::string(2 * (size_t)fits, 'z'));
            if (res.errCode != ErrorCode::FAILED) viol("oversized-message-not-refused", show(res), "C15,C02");
            else if (nowMs() - t0 > kSlack && canaryMs() - c0 > kSlack / 2) tviol("oversized-message-refused-late", fmt("%" PRId64 " ms with a full queue", nowMs() - t0), "C15");
            // and one that needs the whole queue waits for it
            OutP big = cast(a, b.channelName(), 40000, log->next++, 0, "vec", (uint64_t)log->next++, std::vector<uint8_t>((size_t)fits - 170));
            sleepMs(100);
            if (big->n) viol("waiting-call-ended", big->msg, "C15");
            log->block = 0;
            w.push_back(big);
            if (!allDone(w, 60000)) tviol("waiting-call-never-delivered", "large message", "C15,C16");
            for (auto& o : w) if (o->n && !o->ok) viol("waiting-call-failed", o->msg, "C15");
            stat("large_waits");
        }
        sample(fmt("queue %u x %u takes %" PRId64 "; longest delivered argument %d, shortest refused %d", cap, sz, fits, maxOk, minFail));
        a.uninit();
        b.uninit();
    }
}

// The caller's response queue is full for a while.
SCENARIO(resp_full) {
    Rng r(args.seed);
    for (int round = 0; round < 3 * args.scale && !violated(); round++) {
        beat("resp_full");
        ExecLog* log = localLog();
        Veigar a, b, c;
        Callee cb;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cb.bindAll();
        uint32_t cap = (uint32_t)r.range(1, 4);
        if (!up(a, chan(fmt("pa%d", round)), cap, 600) || !up(b, chan(fmt("pb%d", round)), 100, 2000) || !up(c, chan(fmt("pc%d", round)))) { viol("init-failed", "", "C12"); return; }
        std::atomic<int> hold{1}, in{0};
        std::vector<OutP> w;
        int64_t t0 = nowMs();
        for (int i = 0; i < 3; i++) a.asyncCall([&](const CallResult&) { in++; waitUntil([&] { return hold == 0; }, 30000); in--; }, b.channelName(), 40000, "f", (uint64_t)log->next++, (uint64_t)1);
        waitUntil([&] { return in == 3; }, 20000);
        int n = (int)r.range(10, 40);
        for (int i = 0; i < n; i++) { uint64_t t = log->next++; w.push_back(cast(a, b.channelName(), 40000, t, expectNum(t, t, 1, 0), "f", t, t)); }
        for (int i = 0; i < 8 && !violated(); i++) {
            uint64_t t = log->next++;
            int64_t s = nowMs(), sc = canaryMs();
            CallResult res = c.syncCall(b.channelName(), 30000, "f", t, t);
            if (!res.isSuccess()) viol("other-caller-held-up", show(res), "C15,C16");
            else if (nowMs() - s > kSlack && canaryMs() - sc > kSlack / 2) tviol("other-caller-held-up", fmt("%" PRId64 " ms while the responses to another caller wait", nowMs() - s), "C15");
        }
        sleepMs(r.below(400));
        hold = 0;
        bool inTime = nowMs() - t0 < 1200;      // responses wait 1500 ms for space
        bool all = allDone(w, inTime ? 30000 : 3000);
        if (!all && inTime) tviol("response-lost", "response queue full for less than its waiting time", "C15,C16,C03");
        for (auto& o : w) if (o->n && (!o->ok || o->val != o->want)) viol("answered-call-failed", o->msg, "C15,C16,C01");
        eval(n);
        // at full capacity again
        for (int i = 0; i < 20 && !violated(); i++) {
            uint64_t t = log->next++;
            CallResult res = a.syncCall(b.channelName(), 30000, "f", t, t);
            if (!res.isSuccess()) viol("later-call-failed", show(res), "C15,C16");
        }
        waitUntil([&] { return in == 0; }, 20000);
        distinct(fmt("%u %d %d", cap, n, (int)inTime));
        stat(inTime ? "rounds_drained" : "rounds_too_slow");
        sample(fmt("response queue of %u, %d responses waiting", cap, n));
        a.uninit(); b.uninit(); c.uninit();
    }
}

// Instances with tiny queues that call each other without pause.
SCENARIO(tiny_mutual) {
    Rng r(args.seed);
    for (int round = 0; round < 2 * args.scale && !violated(); round++) {
        beat("tiny_mutual");
        ExecLog* log = localLog();
        constexpr int N = 3;
        Veigar v[N];
        Callee c[N];
        for (int i = 0; i < N; i++) {
            c[i].v = &v[i]; c[i].chanId = i; c[i].log = log;
            c[i].bindAll();
            if (!up(v[i], chan(fmt("tm%d_%d", round, i)), (uint32_t)r.range(1, 2), (uint32_t)r.range(300, 500))) { viol("init-failed", "", "C12"); return; }
        }
        perturb((int)r.below(3), r.next());
        uint64_t sd = r.next();
        parallel(9, [&](int t) {
            Rng q(sd + t);
            for (int i = 0; i < 40 && !violated(); i++) {
                int from = t % N, to = (int)q.below(N);
                uint64_t tok = log->next++;
                CallResult res = v[from].syncCall(v[to].channelName(), 60000, "f", tok, tok);
                uint64_t x = 0;
                if (!res.isSuccess()) viol("call-through-tiny-queues-failed", show(res), "C15,C16,C04");
                else if (!res.convertObject(x) || x != expectNum(tok, tok, to, 0)) viol("wrong-result", show(res), "C15,C01");
                eval();
                beat();
            }
        });
        perturb(0, 0);
        distinct(fmt("tiny %d %" PRIu64, round, sd));
        stat("tiny_rounds");
        for (auto& x : v) x.uninit();
    }
}

// One, two or three calls at almost the same moment, then silence until they are answered: nobody else's traffic wakes a thread
// that missed its signal. Every instance is called by one thread and calls one instance.
SCENARIO(lone) {
    Rng r(args.seed);
    bool allSync = !args.rest.empty();   // the last call is a synchronous one
    for (int round = 0; round < 2 * args.scale && !violated(); round++) {
        ExecLog* log = localLog();
        const int n = (int)r.range(2, 7);
        bool self = r.chance(1, 3);
        std::vector<std::unique_ptr<Veigar>> v;
        std::vector<std::unique_ptr<Callee>> c;
        for (int i = 0; i < n; i++) {
            v.emplace_back(new Veigar);
            c.emplace_back(new Callee);
            c[i]->v = v[i].get(); c[i]->chanId = i; c[i]->log = log;
            c[i]->bindAll();
            if (!up(*v[i], chan(fmt("lo%d_%d", round, i)), (uint32_t)r.range(3, 50), 500)) { viol("init-failed", "", "C12"); return; }
        }
        perturb((int)r.range(1, 3), r.next());
        uint64_t sd = r.next();
        std::atomic<int64_t> total{0};
        Deadline end(1500);
        parallel(n, [&](int t) {
            Rng z(sd + t);
            int to = self ? t : (t + 1) % n;
            while (!end.passed() && !violated()) {
                beat("lone");
                std::vector<OutP> w;
                int k = (int)z.range(1, 3);
                bool sync = allSync || z.chance(1, 4);
                std::string gaps;
                for (int i = 0; i < k; i++) {
                    if (i) {
                        int64_t us = z.chance(1, 3) ? 0 : (int64_t)z.below(z.chance(1, 2) ? 60 : 600), a = nowUs();
                        while (nowUs() - a < us) {}
                        gaps += fmt("%d,", us < 1 ? 0 : us < 60 ? 1 : 2);
                    }
                    uint64_t tok = log->next++;
                    if (tok > kMaxTok - 1000) return;
                    if (sync && i == k - 1) {
                        CallResult res = v[t]->syncCall(c[to]->v->channelName(), 30000, "f", tok, tok);
                        uint64_t y = 0;
                        if (res.errCode == ErrorCode::TIMEOUT) { tviol("lone-call-stuck", show(res) + " (synchronous)", "C04,C16"); return; }
                        if (!res.isSuccess() || !res.convertObject(y) || y != expectNum(tok, tok, to, 0)) { viol("lone-call-failed", show(res), "C16,C01"); return; }
                    }
                    else w.push_back(cast(*v[t], c[to]->v->channelName(), 60000, tok, expectNum(tok, tok, to, 0), "f", tok, tok));
                }
                if (!allDone(w, 30000)) { tviol("lone-call-stuck", fmt("%zu of %d calls (gaps %s) without answer after 30 s of silence", w.size(), k, gaps.c_str()) + (self ? ", to itself" : ""), "C16,C03"); return; }
                for (auto& o : w) if (!o->ok || o->val != o->want) { viol("lone-call-failed", o->msg, "C16,C01"); return; }
                total += k;
                distinct(fmt("%d %d %d %s", n, self, sync, gaps.c_str()));
                if (z.chance(1, 2)) sleepUs(z.below(300));
            }
        });
        perturb(0, 0);
        eval(total);
        stat("lone_calls", total);
        sample(fmt("%d instances%s: %" PRId64 " calls", n, self ? " calling themselves" : "", total.load()));
        for (auto& x : v) x->uninit();
    }
}

// C16: bursts followed by silence.
SCENARIO(burst) {
    Rng r(args.seed);
    ExecLog* log = localLog();
    for (int round = 0; round < 2 * args.scale && !violated(); round++) {
        beat("burst");
        Veigar a, b;
        Callee cb;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cb.bindAll();
        uint32_t cap = (uint32_t)r.range(1, 300);
        if (!up(a, chan(fmt("ba%d", round)), (uint32_t)r.range(2, 300), 700) || !up(b, chan(fmt("bb%d", round)), cap, 700)) { viol("init-failed", "", "C12"); return; }
        RawQueue q;
        if (!q.open(b.channelName() + "_call")) { viol("open-failed", "", "C13,C16"); return; }
        int stuckHandlers = (int)r.below(3), stuckCbs = (int)r.below(3);
        std::vector<OutP> w, held;
        log->block = 1;
        for (int i = 0; i < stuckHandlers; i++) { uint64_t t = log->next++; held.push_back(cast(a, b.channelName(), 60000, t, expectNum(t, 0, 1, 101), "block", t)); }
        std::atomic<int> in{0};
        std::atomic<bool> hold{true};
        for (int i = 0; i < stuckCbs; i++) a.asyncCall([&](const CallResult&) { in++; waitUntil([&] { return !hold; }, 50000); in--; }, b.channelName(), 60000, "f", (uint64_t)log->next++, (uint64_t)1);
        if (!waitUntil([&] { return in == stuckCbs && cb.running == stuckHandlers; }, 30000)) tviol("handlers-not-started", "", "C16");
        perturb((int)r.below(4), r.next());
        for (int k = 0; k < 6 && !violated(); k++) {
            std::mutex m;
            uint64_t sd = r.next();
            int per = (int)r.range(1, 40);
            parallel((int)r.range(1, 6), [&](int t) {
                Rng z(sd + t);
                for (int i = 0; i < per; i++) {
                    uint64_t tok = log->next++;
                    OutP o = z.chance(1, 4) ? cast(a, b.channelName(), 60000, tok, expectNum(tok, 1, 1, 100), "slow", tok, 1) : cast(a, b.channelName(), 60000, tok, expectNum(tok, tok, 1, 0), "f", tok, tok);
                    std::lock_guard<std::mutex> lg(m);
                    w.push_back(o);
                }
            });
            // silence
            if (!allDone(w, 30000)) {
                int miss = 0;
                for (auto& o : w) miss += !o->n;
                tviol("burst-stuck", fmt("%d calls without answer after 30 s of silence, backlog %" PRId64 ", %d handlers and %d callbacks of 3 stuck", miss, backlog(q), stuckHandlers, stuckCbs), "C16,C03");
                break;
            }
            for (auto& o : w) if (!o->ok || o->val != o->want) { viol("burst-call-failed", o->msg, "C16,C01"); break; }
            if (backlog(q) != 0) viol("backlog-left", fmt("%" PRId64, backlog(q)), "C16,C15");
            eval((int64_t)w.size());
            distinct(fmt("%u %zu %d %d", cap, w.size(), stuckHandlers, stuckCbs));
            w.clear();
            sleepMs(r.below(20));
        }
        perturb(0, 0);
        log->block = 0;
        hold = false;
        if (!allDone(held, 30000)) tviol("accepted-call-never-processed", "blocked handlers", "C16,C03");
        waitUntil([&] { return in == 0; }, 20000);
        stat("bursts", 6);
        sample(fmt("capacity %u, 6 bursts with %d handlers and %d callbacks stuck", cap, stuckHandlers, stuckCbs));
        a.uninit();
        b.uninit();
    }
}

// C16: fresh instances whose dispatchers meet messages larger than any before, in bursts, in both directions.
SCENARIO(growing) {
    Rng r(args.seed);
    ExecLog* log = localLog();
    for (int round = 0; round < 4 * args.scale && !violated(); round++) {
        beat("growing");
        Veigar a, b;
        Callee cb;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cb.bindAll();
        b.bind("len", [&cb](uint64_t tok, std::vector<uint8_t> d) -> std::string { Callee::In in(&cb, tok); return std::to_string(d.size()); });
        uint32_t sz = (uint32_t)r.range(1, 40000), cap = 4000000 / sz + 20;
        if (!up(a, chan(fmt("ga%d", round)), cap, sz) || !up(b, chan(fmt("gb%d", round)), cap, sz)) { viol("init-failed", fmt("%u x %u", cap, sz), "C12,C18"); return; }
        RawQueue q;
        if (!q.open(b.channelName() + "_call")) { viol("open-failed", "", "C13,C16"); return; }
        int pert = (int)r.below(4);
        perturb(pert, r.next());
        struct Big { std::atomic<int> n{0}; std::atomic<bool> ok{false}; std::string msg; uint64_t tok; std::vector<uint8_t> d; };
        std::vector<std::shared_ptr<Big>> all;
        std::mutex m;
        size_t at = (size_t)r.range(60000, 66000);
        std::atomic<size_t> size{at};
        bool both = r.chance(1, 2);   // large results as well, or only large arguments
        uint64_t sd = r.next();
        int threads = (int)r.range(1, 5), per = (int)r.range(2, 8), mode = (int)r.below(3);
        parallel(threads, [&](int t) {
            Rng z(sd + t);
            for (int i = 0; i < per; i++) {
                auto o = std::make_shared<Big>();
                o->tok = log->next++;
                size_t n = mode == 0 ? size.fetch_add((size_t)z.range(1, 6000)) : mode == 1 ? (size_t)z.range(1, 90000) : z.chance(1, 2) ? (size_t)z.below(50) : (size_t)(65450 + z.below(200));
                o->d.resize(n);
                for (size_t k = 0; k < n; k++) o->d[k] = (uint8_t)(mix64(o->tok + k) >> 8);
                { std::lock_guard<std::mutex> lg(m); all.push_back(o); }
                if (both) a.asyncCall([o](const CallResult& x) {
                    CallResult k = toResult(x);
                    std::vector<uint8_t> v;
                    o->msg = show(x);
                    o->ok = k.isSuccess() && k.convertObject(v) && v == expectVec(o->tok, o->d, 1);
                    o->n++;
                }, b.channelName(), 60000, "vec", o->tok, o->d);
                else a.asyncCall([o](const CallResult& x) {
                    CallResult k = toResult(x);
                    std::string v;
                    o->msg = show(x);
                    o->ok = k.isSuccess() && k.convertObject(v) && v == std::to_string(o->d.size());
                    o->n++;
                }, b.channelName(), 60000, "len", o->tok, o->d);
            }
        });
        bool done = waitUntil([&] { beat(); for (auto& o : all) if (!o->n) return false; return true; }, 30000);
        perturb(0, 0);
        if (!done) {
            int miss = 0;
            for (auto& o : all) miss += !o->n;
            tviol("accepted-message-not-processed", fmt("%d of %zu large calls (mode %d) without answer after 30 s of silence, backlog %" PRId64, miss, all.size(), mode, backlog(q)), "C16,C03");
        }
        for (auto& o : all) if (o->n && !o->ok) { viol("large-call-failed", fmt("%zu bytes: ", o->d.size()) + o->msg, "C16,C01,C18"); break; }
        if (!violated() && backlog(q) != 0) viol("backlog-left", fmt("%" PRId64, backlog(q)), "C16,C15");
        eval((int64_t)all.size());
        stat("growing_rounds");
        distinct(fmt("%d %d %d %d %d", threads, per, mode, (int)both, pert));
        sample(fmt("capacity %u x %u, %zu calls of up to %zu bytes", cap, sz, all.size(), size.load()));
        a.uninit();
        b.uninit();
    }
}

// C16: raw pushes with signals in every order, spurious signals, the lock held for longer than the dispatchers wait.
SCENARIO(signals) {
    Rng r(args.seed);
    ExecLog* log = localLog();
    for (int round = 0; round < 2 * args.scale && !violated(); round++) {
        beat("signals");
        Veigar b, a;
        Callee cb;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cb.bindAll();
        uint32_t cap = (uint32_t)r.range(5, 200);
        uint32_t lockMs = r.chance(1, 2) ? (uint32_t)r.range(1, 10) : 20000;
        // the lock timeout is b's own for its call queue and a's own for its response queue; answers go to raw queues
        if (!up(b, chan(fmt("sb%d", round)), cap, 500, lockMs) || !up(a, chan(fmt("sa%d", round)), cap, 500, lockMs)) { viol("init-failed", "", "C12"); return; }
        RawPeer p;
        RawQueue q, ra;
        if (!p.create(chan(fmt("sp%d", round)), 2000, 300) || !q.open(b.channelName() + "_call") || !ra.open(a.channelName() + "_resp")) { viol("open-failed", "", "C13,C25"); return; }
        std::atomic<bool> stop{false}, contend{false}, halt{false};
        // b's answers and a's calls need the raw peer's locks, which nobody holds for long
        std::thread holder([&, sd = r.next()] {
            Rng z(sd);
            while (!halt) {
                if (!contend) { sleepUs(300); continue; }
                RawQueue& x = z.chance(1, 2) ? q : ra;
                if (x.q->processRWLock(1000)) { sleepUs(z.below(25000)); x.q->processRWUnlock(); stat("lock_holds"); }
                sleepUs(z.below(3000));
            }
        });
        std::atomic<int64_t> answered{0}, calls{0};
        std::map<std::string, int> back;
        std::mutex bm;
        std::thread server([&] {
            std::string x;
            Rng z(7);
            while (!stop) {
                if (p.resp.pop(x, 2)) {
                    Node m;
                    if (checkNode(x, m) && m.a.size() == 4) { std::lock_guard<std::mutex> lg(bm); if (++back[m.a[1].s] > 1) viol("answered-twice", m.show(), "C02,C21,C16"); answered++; }
                }
                if (p.call.pop(x, 1)) {
                    Node m;
                    if (checkNode(x, m) && m.a.size() == 5) {
                        ra.push(enc(respNode(m.a[1].s, Node::nil(), m.a[4].a[0]), &z), false);
                        for (int k = z.chance(1, 6) ? 3 : 1; k > 0; k--) ra.q->notifyRead();
                    }
                }
            }
        });
        int64_t sent = 0;
        std::vector<OutP> w;
        std::vector<uint64_t> toks;
        int spurious = 0;
        for (int k = 0; k < 12 && !violated(); k++) {
            contend = lockMs < 100 && r.chance(2, 3);
            int n = (int)r.range(1, (int)std::min<uint32_t>(cap, 30));
            int mode = (int)r.below(4);
            if (r.chance(1, 3)) { int s = (int)r.range(1, 300); for (int i = 0; i < s; i++) q.q->notifyRead(); spurious += s; }
            auto msg = [&] { uint64_t t = log->next++; toks.push_back(t); sent++; return enc(callNode(fmt("s%" PRId64, sent), p.name, "f", {Node::uinteger(t), Node::uinteger(t)}), &r); };
            if (mode == 0) for (int i = 0; i < n; i++) q.push(msg());
            else if (mode == 1) { for (int i = 0; i < n; i++) q.push(msg(), false); for (int i = 0; i < n; i++) q.q->notifyRead(); }
            else if (mode == 2) { for (int i = 0; i < n; i++) q.push(msg(), false); sleepMs(r.below(30)); for (int i = 0; i < n; i++) { q.q->notifyRead(); if (r.chance(1, 4)) sleepUs(500); } }
            else {
                for (int i = 0; i < n; i++) q.push(msg(), false);
                for (int i = 0; i < n; i++) q.q->notifyRead();
                // calls of a real instance are in flight as well
                for (int i = 0; i < n; i++) { uint64_t t = log->next++; w.push_back(cast(a, p.name, 60000, t, t, "x", t)); }
            }
            if (r.chance(1, 2)) sleepMs(r.below(40));
            beat();
            distinct(fmt("%d %d %d %d", mode, n, (int)contend, spurious > 0));
        }
        contend = false;    // silence
        auto executed = [&] { for (auto t : toks) if (!log->n[t]) return false; return true; };
        // an answer needs the raw peer's lock within the lock timeout, so with a short one only the execution is certain
        if (!waitUntil([&] { return lockMs < 100 ? executed() : answered >= sent; }, 30000)) tviol("accepted-message-not-processed", fmt("%" PRId64 " of %" PRId64 " raw calls unanswered, backlog %" PRId64 ", lock timeout %u", sent - answered, sent, backlog(q), lockMs), "C16,C10");
        if (!allDone(w, 30000)) tviol("accepted-message-not-processed", fmt("response queue, backlog %" PRId64 ", lock timeout %u", backlog(ra), lockMs), "C16,C03,C22");
        // a real caller may fail to get the raw queue's lock in time; what was answered must be right
        for (auto& o : w) if (o->n && o->ok && o->val != o->want) viol("wrong-result", o->msg, "C16,C01");
        if (!violated() && backlog(q) != 0) viol("backlog-left", fmt("%" PRId64, backlog(q)), "C16");
        eval(sent + (int64_t)w.size());
        stat("raw_messages", sent);
        stat("spurious_signals", spurious);
        sample(fmt("%" PRId64 " raw messages, %d spurious signals, lock timeout %u ms", sent, spurious, lockMs));
        stop = true;
        halt = true;
        server.join();
        holder.join();
        a.uninit();
        b.uninit();
    }
}
