// Several processes: restarts of a channel, death of peers, peers with other queue parameters.
#include "rpc.h"
#include "wire.h"
using namespace vh;

namespace {
struct Sh {
    std::atomic<uint32_t> next;
    std::atomic<int> ready, up, stop, hold, held, busy;
    std::atomic<int> lock[2];                  // [0] others', [1] own
    std::atomic<uint16_t> ran[kMaxTok];        // generation (+1) that executed the token
};
uint64_t val(uint64_t gen, uint64_t tok) { return mix64(gen * 1000003 + tok) >> 8; }

std::vector<uint8_t> payload(uint64_t seed, uint32_t n) {
    std::vector<uint8_t> d(n);
    for (uint32_t i = 0; i < n; i++) d[i] = (uint8_t)(mix64(seed + i / 8) >> (8 * (i % 8)));
    return d;
}
// "ok", "bad: ..." or the error
std::string exchange(Veigar& v, const std::string& chan, uint64_t tok, uint64_t seed, uint32_t n, uint32_t want, uint32_t ms) {
    std::vector<uint8_t> d = payload(seed, n), y;
    CallResult r = v.syncCall(chan, ms, "rev", tok, d, want);
    if (!r.isSuccess()) return r.errorMessage.empty() ? "bad: no message" : show(r);
    if (!r.convertObject(y)) return "bad: not a byte string";
    uint64_t h = hashBytes(d.data(), d.size());
    return y == payload(h, want) ? "ok" : fmt("bad: %zu bytes instead of %u, or their content", y.size(), want);
}
struct Owner {
    Veigar* v;
    Sh* sh;
    int gen;
    void bindAll() {
        Owner* me = this;
        auto note = [me](uint64_t tok) {
            uint16_t was = tok < kMaxTok ? me->sh->ran[tok].exchange((uint16_t)(me->gen + 1)) : 0;
            if (was) viol("executed-more-than-once", fmt("token %" PRIu64 " by incarnation %d and %d", tok, was - 1, me->gen), "C02,C13,C19");
        };
        v->bind("gen", [=](uint64_t tok) -> uint64_t { note(tok); return ((uint64_t)me->gen << 48) | (val(me->gen, tok) >> 16); });
        v->bind("big", [=](uint64_t tok, std::vector<uint8_t> d) -> std::vector<uint8_t> {
            note(tok);
            std::vector<uint8_t> x(d.rbegin(), d.rend());
            x.push_back((uint8_t)me->gen);
            return x;
        });
        v->bind("rev", [=](uint64_t tok, std::vector<uint8_t> d, uint32_t want) -> std::vector<uint8_t> {
            note(tok);
            uint64_t h = hashBytes(d.data(), d.size());
            return payload(h, want);
        });
        v->bind("hold", [=](uint64_t tok) -> uint64_t {
            note(tok);
            me->sh->held++;
            if (me->sh->hold.load()) waitUntil([&] { return me->sh->hold.load() == 0; }, 30000);
            return 1;
        });
        v->bind("back", [=](uint64_t tok, std::string chan) -> uint64_t {   // calls its caller
            note(tok);
            CallResult r = me->v->syncCall(chan, 20000, "pf", tok);
            uint64_t y = 0;
            if (!r.isSuccess()) throw std::runtime_error("back: " + show(r));
            r.convertObject(y);
            return y;
        });
        v->bind("relay", [=](uint64_t tok, std::string chan, uint64_t seed, uint32_t n, uint32_t want, uint32_t ms) -> std::string {
            note(tok);
            return exchange(*me->v, chan, me->sh->next++, seed, n, want, ms);
        });
        v->bind("meet", [=](uint64_t tok) -> int {
            note(tok);
            me->sh->busy++;
            bool ok = waitUntil([&] { return me->sh->busy.load() >= VEIGAR_DISPATCHER_THREAD_NUMBER; }, 15000);
            return ok ? 1 : 0;
        });
    }
};
}  // namespace

// rest: channel, generation, capacity, size, crash point, where (init, serve, uninit, none), shared memory, peer
SCENARIO(owner) {
    Sh* sh = sharedFile<Sh>(args.rest[6], false);
    lockOwnPrefix = new std::string(args.rest[0]);
    lockDepthShared = sh->lock;
    Owner o;
    Veigar v;
    o.v = &v;
    o.sh = sh;
    o.gen = atoi(args.rest[1].c_str());
    o.bindAll();
    int64_t k = atoll(args.rest[4].c_str());
    std::string where = args.rest[5];
    if (where == "init") crashArm(k);
    if (!up(v, args.rest[0], (uint32_t)atoi(args.rest[2].c_str()), (uint32_t)atoi(args.rest[3].c_str()), 1000)) {
        crashArm(-1);
        viol("usable-init-failed", "channel " + args.rest[0] + " after its previous owner", "C12,C13,C18,C19");
        sh->ready = -1;
        return;
    }
    crashArm(-1);
    if (where == "serve") crashArm(k);
    sh->ready = 1;
    sh->up++;
    if (args.rest.size() > 7 && !args.rest[7].empty()) {
        std::string peer = args.rest[7];
        Rng r(args.seed);
        while (!sh->stop.load()) {   // calls others all the time
            uint64_t tok = sh->next++;
            int s = (int)r.below(3);
            std::string t = r.chance(1, 2) ? peer : peer + "2";
            if (s == 0) v.syncCall(t, 3000, "pf", tok);
            else if (s == 1) { auto f = v.asyncCall(t, 3000, "pf", tok); if (f) v.releaseCall(f->first); }
            else v.asyncCall([](const CallResult&) {}, t, 3000, "big", tok, std::vector<uint8_t>(r.below(500)));
            if (r.chance(1, 4)) sleepUs(r.below(400));
            beat("owner");
        }
    }
    while (!sh->stop.load()) { sleepUs(300); beat("owner"); }
    if (where == "uninit") crashArm(k);
    v.uninit();
    crashArm(-1);
    eval();
}

namespace {
// A call to the incarnation that is up. TIMEOUT can be an expired lock timeout: tried again for a while.
bool reach(Veigar& p, const std::string& x, Sh* sh, int gen, const char* who, const std::string& ctx, const char* props) {
    Deadline d(12000);
    std::string last;
    int tries = 0;
    do {
        uint64_t tok = sh->next++;
        CallResult r = p.syncCall(x, 20000, "gen", tok);
        uint64_t y = 0;
        if (r.isSuccess()) {
            if (!r.convertObject(y) || (int)(y >> 48) != gen) viol("answered-by-another-incarnation", fmt("%s: incarnation %d instead of %d ", who, (int)(y >> 48), gen) + ctx, props);
            else if (y != (((uint64_t)gen << 48) | (val(gen, tok) >> 16))) viol("wrong-result", std::string(who) + ctx, "C01,C13,C18,C19");
            if (sh->ran[tok].load() != gen + 1) viol("not-executed-by-incarnation", fmt("%s: %d ", who, sh->ran[tok].load()) + ctx, props);
            eval();
            return true;
        }
        last = show(r);
        if (r.errCode != ErrorCode::TIMEOUT) { viol("reborn-channel-unreachable", std::string(who) + ": " + last + " " + ctx, props); return false; }
        tries++;
        beat();
    } while (!d.passed());
    tviol("reborn-channel-times-out", fmt("%s: %d calls, ", who, tries) + last + " " + ctx, props);
    return false;
}
void meet(Veigar& p, const std::string& x, Sh* sh, const std::string& ctx, const char* props) {
    sh->busy = 0;
    std::vector<std::shared_ptr<veigar::AsyncCallResult>> f;
    for (int i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; i++) f.push_back(p.asyncCall(x, 20000, "meet", (uint64_t)sh->next++));
    for (auto& a : f) {
        if (a->second.wait_for(std::chrono::seconds(25)) != std::future_status::ready) { tviol("reborn-channel-not-at-full-strength", ctx, props); continue; }
        CallResult r = a->second.get();
        int y = 0;
        if (!r.isSuccess() || !r.convertObject(y)) { if (r.errCode == ErrorCode::TIMEOUT) tviol("meet-timed-out", show(r) + " " + ctx, props); else viol("meet-failed", show(r) + " " + ctx, props); }
        else if (y != 1) tviol("reborn-channel-not-at-full-strength", ctx, props);
    }
}
}  // namespace

SCENARIO(restart) {
    setHangLimit(90000);
    Rng r(args.seed);
    bool enumerate = !args.rest.empty() && args.rest[0] == "points";
    Sh* sh = sharedFile<Sh>("restart", true);
    std::string X = chan("X");
    int rounds = enumerate ? 1 : 2 * args.scale;
    int gen = 0;
    for (int round = 0; round < rounds && !violated(); round++) {
        Veigar p1, p2;
        auto bindP = [](Veigar& p) {
            p.bind("pf", [](uint64_t t) { return t + 1; });
        };
        bindP(p1);
        bindP(p2);
        if (!up(p1, chan("P1"), 50, 1000, 1000) || !up(p2, chan("P2"), 3 + r.below(20), 200 + r.below(3000), 1000)) fatal("callers");
        std::vector<uint64_t> downToks;                    // issued and ended while the channel was down
        std::vector<std::pair<uint64_t, int>> leftToks;    // in the queue of an incarnation when it was killed
        std::string hist;
        std::atomic<int> dead{gen - 1};   // all incarnations up to this one are certainly dead
        std::atomic<int> started{gen - 1};
        std::atomic<bool> quit{false};
        std::thread hammer;
        bool hammering = !enumerate && r.chance(1, 2);
        uint64_t hs = r.next();
        if (hammering) hammer = std::thread([&] {
            Rng q(hs);
            while (!quit) {
                int lo = dead.load();
                uint64_t tok = sh->next++;
                if (tok > kMaxTok - 1000) break;
                CallResult res = (q.chance(1, 2) ? p1 : p2).syncCall(X, 1100 + (uint32_t)q.below(100), "gen", tok);
                int hi = started.load();
                uint64_t y = 0;
                if (res.isSuccess()) {
                    if (!res.convertObject(y)) viol("wrong-result", "hammer", "C01,C13");
                    int g = (int)(y >> 48);
                    if (g <= lo || g > hi) viol("answered-by-another-incarnation", fmt("incarnation %d, alive were %d..%d", g, lo + 1, hi), "C13,C22");
                    stat("calls through restarts answered");
                }
                else stat("calls through restarts failed");
                sleepUs(q.below(2000));
            }
        });
        std::vector<std::pair<std::string, int64_t>> todo;   // how incarnations end
        if (enumerate) {
            int from = args.rest.size() > 1 ? atoi(args.rest[1].c_str()) : 0, step = args.rest.size() > 2 ? atoi(args.rest[2].c_str()) : 1;
            for (const char* w : {"init", "uninit"}) for (int k = from; k < (w[0] == 'i' ? 75 : 60); k += step) todo.push_back({w, k});
        }
        else for (int i = 0, n = 3 + (int)r.below(5); i < n; i++) {
            static const char* ends[] = {"quit", "quit", "kill", "killfull", "serve", "serve", "local", "init", "uninit", "killlock"};
            std::string e = r.pick(ends);
            todo.push_back({e, (int64_t)r.below(e == "serve" ? 1500 : 70)});
        }
        todo.push_back({"quit", 0});
        for (auto& td : todo) {
            if (violated()) break;
            const std::string& how = td.first;
            std::string ctx = fmt("(%s at %" PRId64 ", before: ", how.c_str(), td.second) + hist + ")";
            sh->ready = sh->stop = sh->hold = sh->held = sh->busy = 0;
            sh->lock[0] = sh->lock[1] = 0;
            static const uint32_t caps[] = {2, 3, 10, 50, 200, 400}, sizes[] = {200, 300, 1000, 5000, 10240};
            uint32_t cap = r.pick(caps), size = r.pick(sizes);
            if (how == "killfull") { cap = 20 + (uint32_t)r.below(100); size = 1000; }
            started = gen;
            if (how == "local") {
                Veigar v;
                Owner o{&v, sh, gen};
                o.bindAll();
                if (!up(v, X, cap, size, 1000)) { viol("usable-init-failed", X + ctx, "C12,C13"); break; }
                reach(p1, X, sh, gen, "P1", ctx, "C13");
                reach(p2, X, sh, gen, "P2", ctx, "C13");
                meet(p1, X, sh, ctx, "C13");
                v.uninit();
                dead = gen;
            }
            else {
                bool scripted = how == "init" || how == "serve" || how == "uninit";
                pid_t pid = spawn("owner", r.next() >> 8, 1, {X, std::to_string(gen), std::to_string(cap), std::to_string(size), std::to_string(td.second), scripted ? how : "none", "restart", ""});
                int st = -7777;
                auto gone = [&] {
                    if (st != -7777) return true;
                    int s = 0;
                    if (waitpid(pid, &s, WNOHANG) == pid) { st = WIFEXITED(s) ? WEXITSTATUS(s) : -WTERMSIG(s); return true; }
                    return false;
                };
                waitUntil([&] { beat(); return sh->ready.load() != 0 || gone(); }, 40000);
                if (sh->ready.load() == 0 && st == -7777) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); tviol("owner-does-not-start", ctx, "C13,C12"); break; }
                if (sh->ready.load() == 1 && !gone() && how != "serve") {
                    reach(p1, X, sh, gen, "P1", ctx, "C13");
                    reach(p2, X, sh, gen, "P2", ctx, "C13");
                    if (!enumerate || r.chance(1, 6)) {
                        uint64_t tok = sh->next++, y = 0;
                        CallResult res = p1.syncCall(X, 20000, "back", tok, chan("P1"));
                        if (res.errCode != ErrorCode::TIMEOUT && (!res.isSuccess() || !res.convertObject(y) || y != tok + 1)) {
                            bool lockTimeout = res.errorMessage.find("imeout") != std::string::npos || res.errorMessage.find("TIMEOUT") != std::string::npos;
                            if (lockTimeout) tviol("reborn-channel-cannot-call", show(res) + ctx, "C13"); else viol("reborn-channel-cannot-call", show(res) + ctx, "C13");
                        }
                        meet(p1, X, sh, ctx, "C13");
                    }
                    int n = (int)r.below(enumerate ? 2 : 6);
                    for (int i = 0; i < n; i++) {
                        uint64_t tok = sh->next++;
                        std::vector<uint8_t> d(r.below(cap * size / 4 + 1) % 400);
                        for (auto& b : d) b = (uint8_t)r.next();
                        CallResult res = (i & 1 ? p1 : p2).syncCall(X, 20000, "big", tok, d);
                        std::vector<uint8_t> y, e(d.rbegin(), d.rend());
                        e.push_back((uint8_t)gen);
                        bool fits = d.size() + 250 < (size_t)cap * size && ((i & 1) || d.size() + 250 < (size_t)p2.msgQueueCapacity() * p2.expectedMsgMaxSize());
                        if (res.isSuccess()) { if (!res.convertObject(y) || y != e) viol("wrong-result", "big" + ctx, "C01,C13,C18"); }
                        else if (fits && res.errCode != ErrorCode::TIMEOUT) viol("reborn-channel-unreachable", "big: " + show(res) + ctx, "C13,C18");
                        eval();
                    }
                }
                // how it ends
                if (how == "quit" || how == "uninit" || how == "init") {   // (init: the point lies beyond its end)
                    if (how == "uninit" && r.chance(1, 2)) for (int i = 0; i < 4; i++) p1.asyncCall([](const CallResult&) {}, X, 20000, "gen", (uint64_t)sh->next++);
                    sh->stop = 1;
                }
                else if (how == "kill") { sleepUs(r.below(2000)); kill(pid, SIGKILL); }
                else if (how == "killfull" || how == "killlock") {   // with handlers held and messages left in its queues
                    sh->hold = 1;
                    std::vector<uint64_t> toks;
                    for (int i = 0; i < 12; i++) {
                        uint64_t tok = sh->next++;
                        toks.push_back(tok);
                        auto f = p1.asyncCall(X, 1500, "hold", tok);
                        if (f) p1.releaseCall(f->first);
                    }
                    waitUntil([&] { return sh->held.load() >= 3 || gone(); }, 10000);
                    if (how == "killfull") {
                        RawQueue c;
                        bool all = c.open(X + "_call") && waitUntil([&] { return c.q->msgNumber() >= 9 || gone(); }, 10000);
                        // the hammer may have a call there too, then one of these may be on its way
                        if (all && !hammering) for (auto t : toks) leftToks.push_back({t, gen});
                        c.q->close();
                    }
                    if (how == "killlock") {
                        // X's owner is stopped somewhere, perhaps with a lock held, and others wait for it
                        kill(pid, SIGSTOP);
                        sleepUs(r.below(3000));
                    }
                    kill(pid, SIGKILL);
                }
                else if (how == "serve" && !gone()) {
                    Deadline d(8000);
                    while (!gone() && !d.passed()) {
                        uint64_t tok = sh->next++;
                        if (r.chance(1, 2)) { auto f = (r.chance(1, 2) ? p1 : p2).asyncCall(X, 2000, "gen", tok); if (f) p1.releaseCall(f->first), p2.releaseCall(f->first); }
                        else {
                            CallResult res = (r.chance(1, 2) ? p1 : p2).syncCall(X, 1100, "gen", tok);
                            uint64_t y = 0;
                            if (res.isSuccess() && (!res.convertObject(y) || (int)(y >> 48) != gen)) viol("answered-by-another-incarnation", ctx, "C13,C22");
                        }
                        beat();
                    }
                    if (!gone()) kill(pid, SIGKILL);
                }
                bool stopped = how == "quit" || how == "uninit";
                if (!waitUntil([&] { beat(); return gone(); }, 20000)) {
                    kill(pid, SIGKILL);
                    int s;
                    waitpid(pid, &s, 0);
                    st = -1000;
                }
                dead = gen;
                if (how == "quit") expectExit(st, "owner", "C13,C14");
                else if (st != 0 && st != -SIGKILL) expectExit(st, "owner", "C13,C14");
                int lk = (sh->lock[0].load() > 0) * 2 + (sh->lock[1].load() > 0);
                stat(fmt("ends:%s%s", how.c_str(), st == -SIGKILL ? lk & 1 ? ":killed-perhaps-locked" : ":killed" : ""));
                distinct(fmt("%s %d %" PRId64 " %u %u", how.c_str(), lk, enumerate ? td.second : td.second / 50, cap, size));
                bool orphan = sh->lock[0].load() > 0;   // a caller's lock may be lost with it
                // down
                if (how == "quit" || (how == "uninit" && st == 0)) {
                    for (auto& e : shmEntries(X)) viol("shared-objects-remain", e + " " + ctx, "C12,C13");
                }
                (void)stopped;
                int nd = enumerate ? 1 : 1 + (int)r.below(2);
                for (int i = 0; i < nd; i++) {
                    uint64_t tok = sh->next++;
                    int64_t c0 = canaryMs(), n0 = -1;
                    RawQueue orphan;
                    if (st == -SIGKILL && !hammering && sh->lock[1].load() == 0 && orphan.open(X + "_call")) n0 = orphan.q->msgNumber();
                    CallResult res = (i & 1 ? p2 : p1).syncCall(X, enumerate ? 1005 : 1001 + (uint32_t)r.below(300), "gen", tok);
                    if (res.isSuccess()) viol("call-to-dead-channel-succeeds", ctx, "C13,C19,C02");
                    else if (res.errorMessage.empty()) viol("error-without-message", "down " + ctx, "C13,C09");
                    if (canaryMs() - c0 > 5000) tviol("call-to-dead-channel-slow", fmt("%d ms ", (int)(canaryMs() - c0)) + ctx, "C13,C04,C19");
                    // reported as not delivered, or left in the dead queue (else it may still be waiting in the caller)
                    if (res.errCode == ErrorCode::FAILED || (n0 >= 0 && orphan.q->msgNumber() == n0 + 1)) downToks.push_back(tok);
                    eval();
                }
                if (orphan && st == -SIGKILL) {   // see the known finding of C19: start the callers anew
                    stat("callers restarted for a lost lock");
                    quit = true;
                    if (hammer.joinable()) hammer.join();
                    p1.uninit();
                    p2.uninit();
                    bindP(p1);
                    bindP(p2);
                    if (!up(p1, chan("P1"), 50, 1000, 1000) || !up(p2, chan("P2"), 3 + r.below(20), 200 + r.below(3000), 1000)) viol("usable-init-failed", "callers", "C12,C19");
                }
            }
            hist = (hist + " " + how + fmt("%" PRId64, td.second)).substr(hist.size() > 100 ? hist.size() - 100 : 0);
            gen++;
            if (gen > 60000) fatal("generations");
        }
        quit = true;
        if (hammer.joinable()) hammer.join();
        // nothing that was issued while the channel was down, or left in a queue, has run later
        for (auto t : downToks) if (int g = sh->ran[t].load()) viol("call-of-a-dead-time-executed", fmt("by incarnation %d", g - 1), "C13,C02");
        for (auto& t : leftToks) { int g = sh->ran[t.first].load(); if (g && g - 1 != t.second) viol("left-messages-executed", fmt("left by incarnation %d, ran in %d", t.second, g - 1), "C13,C02"); }
        stat("calls while down", (int64_t)downToks.size());
        stat("messages left in queues of killed owners", (int64_t)leftToks.size());
        p1.uninit();
        p2.uninit();
        auto e = shmEntries(prefix());
        if (!e.empty() && !violated()) viol("shared-objects-remain", e[0], "C12,C13");
        sample(hist);
        if (sh->next.load() > kMaxTok / 2) break;
    }
}

// ---- C19 -----------------------------------------------------------------------------------------------------------
SCENARIO(peer_death) {
    setHangLimit(90000);
    Rng r(args.seed);
    Sh* sh = sharedFile<Sh>("death", true);
    Sh* own = sh;
    std::string X = chan("X"), Q = chan("X2"), V = chan("V");
    Veigar x, q;
    Owner ox{&x, own, 1}, oq{&q, own, 1};
    auto start = [&](bool first) {
        ox.bindAll();
        oq.bindAll();
        for (Veigar* v : {&x, &q}) v->bind("pf", [](uint64_t t) { return t + 1; });
        bool a = up(x, X, 20 + r.below(50), 500 + r.below(2000), 500), b = up(q, Q, 20 + r.below(50), 500 + r.below(2000), 500);
        if (!a || !b) viol("usable-init-failed", first ? "first" : "after the death of a peer", "C12,C19");
        return a && b;
    };
    if (!start(true)) return;
    int rounds = 10 * args.scale;
    for (int round = 0; round < rounds && !violated(); round++) {
        if (own->next.load() > kMaxTok - 50000 || sh->next.load() > kMaxTok - 50000) break;
        sh->ready = sh->stop = sh->hold = sh->held = sh->busy = 0;
        sh->lock[0] = sh->lock[1] = 0;
        int mode = (int)r.below(10);   // 0: crash in init, 1-6: while serving and calling, 7: killed from outside, 8: killed when full, 9: leaves orderly
        std::string where = mode == 0 ? "init" : mode <= 6 ? "serve" : "none";
        int64_t k = (int64_t)(mode == 0 ? r.below(70) : 20 + r.below(r.chance(1, 2) ? 300 : 4000));
        bool calling = mode <= 6 || r.chance(1, 2);
        std::string ctx = fmt("(peer dies: mode %d at %" PRId64 ")", mode, k);
        pid_t pid = spawn("owner", r.next() >> 8, 1, {V, std::to_string(2 + round % 60000), std::to_string(3 + r.below(40)), std::to_string(300 + r.below(2000)), std::to_string(k), where, "death", calling ? X : ""});
        std::atomic<bool> gone{false}, quit{false};
        struct Out { std::string what; CallResult r; };
        std::mutex mx;
        std::vector<std::string> failed, timedout;
        std::atomic<int> ok{0};
        std::vector<std::thread> ts;
        uint64_t s0 = r.next();
        // calls between the survivors
        for (int t = 0; t < 2; t++) ts.emplace_back([&, t] {
            Rng g(s0 + t);
            while (!quit) {
                uint64_t tok = own->next++, y = 0;
                bool a = g.chance(1, 2);
                CallResult res = (a ? x : q).syncCall(a ? Q : X, 20000, "gen", tok);
                if (res.isSuccess()) {
                    if (!res.convertObject(y) || y != ((1ull << 48) | (val(1, tok) >> 16))) viol("wrong-result", "between survivors", "C01,C19");
                    ok++;
                }
                else { std::lock_guard<std::mutex> lg(mx); (res.errCode == ErrorCode::TIMEOUT ? timedout : failed).push_back(show(res)); }
                eval();
                sleepUs(g.below(300));
            }
        });
        // calls to the victim
        ts.emplace_back([&] {
            Rng g(s0 + 9);
            while (!quit) {
                bool wasGone = gone;
                uint64_t tok = sh->next++;
                int64_t c0 = canaryMs();
                int st = (int)g.below(3);
                if (st == 0) {
                    CallResult res = (g.chance(1, 2) ? x : q).syncCall(V, 600 + (uint32_t)g.below(100), "gen", tok);
                    if (res.isSuccess() && wasGone) viol("call-to-dead-channel-succeeds", ctx, "C19,C13");
                    if (!res.isSuccess() && res.errorMessage.empty()) viol("error-without-message", ctx, "C19,C09");
                    if (canaryMs() - c0 > 5000) tviol("call-to-dead-channel-slow", ctx, "C19,C04");
                }
                else if (st == 1) (g.chance(1, 2) ? x : q).asyncCall([](const CallResult&) {}, V, 600, mode == 8 ? "hold" : "big", tok, std::vector<uint8_t>(g.below(200)));
                else { auto f = (g.chance(1, 2) ? x : q).asyncCall(V, 600, mode == 8 ? "hold" : "gen", tok); if (f) x.releaseCall(f->first), q.releaseCall(f->first); }
                sleepUs(g.below(1500));
            }
        });
        if (mode == 8) sh->hold = 1;
        int st = -7777;
        auto poll = [&] {
            beat("peer_death");
            int s = 0;
            if (st == -7777 && waitpid(pid, &s, WNOHANG) == pid) st = WIFEXITED(s) ? WEXITSTATUS(s) : -WTERMSIG(s);
            return st != -7777;
        };
        if (mode <= 6) waitUntil(poll, 6000);
        else {
            waitUntil([&] { return sh->ready.load() != 0 || poll(); }, 20000);
            int64_t ms = (int64_t)r.below(60);
            sleepMs(ms);
            if (mode == 9) { sh->stop = 1; waitUntil(poll, 20000); }
        }
        if (!poll()) { kill(pid, SIGKILL); waitUntil(poll, 20000); }
        gone = true;
        int lockOther = sh->lock[0].load(), lockOwn = sh->lock[1].load();
        if (mode == 9) lockOther = lockOwn = 0;
        if (st != 0 && st != -SIGKILL) expectExit(st, "victim", "C19,C13");
        sleepMs(30 + (int64_t)r.below(60));
        quit = true;
        // all threads end: no call waits for the dead process
        for (auto& t : ts) t.join();
        stat(mode == 9 ? "peers left" : lockOther ? "died perhaps holding another's lock" : lockOwn ? "died perhaps holding its own lock" : "died holding no lock");
        distinct(fmt("%d %d %d %" PRId64, mode, lockOther > 0, lockOwn > 0, k / 20));
        if (lockOther == 0) {
            if (!failed.empty()) viol("survivors-call-failed", fmt("%d calls, ", (int)failed.size()) + failed[0] + ctx, "C19");
            if (!timedout.empty()) tviol("survivors-call-timed-out", fmt("%d calls, ", (int)timedout.size()) + timedout[0] + ctx, "C19");
            if (ok == 0) tviol("survivors-made-no-call", ctx, "C19");
            reach(q, X, own, 1, "Q", ctx, "C19");
            reach(x, Q, own, 1, "X", ctx, "C19");
            meet(q, X, own, ctx, "C19");
            meet(x, Q, own, ctx, "C19");
            // their queues are not filled up by the dead peer's messages
        }
        else {
            // the lock is lost with its holder
            bool good = true;
            for (int i = 0; i < 2 && good; i++) {
                CallResult a = q.syncCall(X, 1500, "gen", (uint64_t)own->next++), b = x.syncCall(Q, 1500, "gen", (uint64_t)own->next++);
                good = a.isSuccess() && b.isSuccess();
                if (!a.isSuccess() && a.errorMessage.empty()) viol("error-without-message", ctx, "C19,C09");
                beat();
            }
            if (!good) {
                stat("channels blocked by a lost lock");
                finding("lock-lost-with-its-holder", "calls to a channel fail after a peer was killed while it held the channel's queue lock " + ctx, "C19");
            }
            // a restart of the channels heals it
            x.uninit();
            q.uninit();
            if (!start(false)) break;
            reach(q, X, own, 1, "Q", "restarted " + ctx, "C19,C13");
            reach(x, Q, own, 1, "X", "restarted " + ctx, "C19,C13");
            meet(q, X, own, "restarted " + ctx, "C19,C13");
        }
        sample(ctx);
    }
    x.uninit();
    q.uninit();
    for (auto& e : shmEntries(X)) viol("shared-objects-remain", e, "C12,C19");
}

// A process dies while it holds a lock of X's queues (rest: channel, mask, shared memory): what involves those queues fails in
// time, everything else keeps working, all can be stopped, and X is well again once restarted.
SCENARIO(lock_holder) {
    Sh* sh = sharedFile<Sh>(args.rest[2], false);
    int mask = atoi(args.rest[1].c_str());
    veigar::MessageQueue c(1, 1), p(1, 1);
    bool ok = c.open(args.rest[0] + "_call") && p.open(args.rest[0] + "_resp");
    auto take = [&](veigar::MessageQueue& q) { for (int i = 0; i < 60; i++) if (q.processRWLock(500)) return true; return false; };
    if (ok && (mask & 1)) ok = take(c);
    if (ok && (mask & 2)) ok = take(p);
    sh->held = ok ? 1 : -1;
    for (;;) { sleepMs(20); beat(); }
}
SCENARIO(lost_lock) {
    Rng r(args.seed);
    Sh* sh = sharedFile<Sh>("lost", true);
    for (int round = 0; round < 2 * args.scale && !violated(); round++) {
        if (sh->next.load() > kMaxTok - 50000) break;
        std::string X = chan(fmt("LX%d", round)), Y = chan(fmt("LY%d", round)), A = chan(fmt("LA%d", round));
        Veigar x, y, a;
        Owner ox{&x, sh, 1}, oy{&y, sh, 2}, oa{&a, sh, 3};
        ox.bindAll();
        oy.bindAll();
        oa.bindAll();
        uint32_t lockMs = (uint32_t)r.range(100, 600);
        if (!up(x, X, 20, 1000, lockMs) || !up(y, Y, 20, 1000, lockMs) || !up(a, A, 20, 1000, lockMs)) { viol("usable-init-failed", "lost_lock", "C12"); return; }
        for (Veigar* v : {&y, &a}) for (int i = 0; i < 3; i++) v->syncCall(X, 15000, "gen", (uint64_t)sh->next++);
        int mask = 1 + (int)r.below(3);
        std::string ctx = fmt("(the lock of X's %s queue is lost)", mask == 1 ? "call" : mask == 2 ? "response" : "call and response");
        sh->held = 0;
        pid_t pid = spawn("lock_holder", 1, 1, {X, std::to_string(mask), "lost"});
        bool got = waitUntil([&] { return sh->held.load() != 0; }, 40000) && sh->held == 1;
        kill(pid, SIGKILL);
        reap(pid, 20000);
        if (!got) { inconc("the lock could not be taken"); continue; }
        std::atomic<bool> quit{false};
        std::atomic<int> ok{0}, lockTimeouts{0}, toX{0};
        std::vector<std::thread> ts;
        uint64_t s0 = r.next();
        // A and Y call each other, and X when it still can be called
        for (int t = 0; t < 3; t++) ts.emplace_back([&, t] {
            Rng g(s0 + t);
            while (!quit && !violated()) {
                beat("lost_lock");
                bool fromA = g.chance(1, 2), callX = mask == 2 && g.chance(1, 3);
                Veigar& v = fromA ? a : y;
                int gen = callX ? 1 : fromA ? 2 : 3;
                uint64_t tok = sh->next++, z = 0;
                CallResult res = v.syncCall(callX ? X : fromA ? Y : A, 25000, "gen", tok);
                if (res.isSuccess()) {
                    if (!res.convertObject(z) || z != (((uint64_t)gen << 48) | (val(gen, tok) >> 16))) viol("wrong-result", ctx, "C01,C19");
                    ok++;
                }
                else if (res.errorMessage.find("rw-lock") != std::string::npos) lockTimeouts++;   // the machine may be busy
                else if (res.errCode == ErrorCode::TIMEOUT) { tviol("call-between-others-timed-out", show(res) + ctx, "C19,C14,C04"); break; }
                else viol("call-between-others-failed", show(res) + ctx, "C19,C14");
                eval();
                sleepUs(g.below(2000));
            }
        });
        // calls that need the lost lock
        ts.emplace_back([&] {
            Rng g(s0 + 77);
            while (!quit && !violated()) {
                uint64_t tok = sh->next++;
                uint32_t to = (uint32_t)g.range(700, 1500);
                Veigar& v = mask == 2 ? x : g.chance(1, 2) ? a : y;
                const std::string& target = mask == 2 ? Y : X;
                int64_t c0 = canaryMs();
                CallResult res = v.syncCall(target, to, "gen", tok);
                if (res.isSuccess()) { viol("impossible-call-succeeded", ctx, "C19,C06,C07"); break; }
                if (res.errorMessage.empty()) viol("error-without-message", ctx, "C19,C09");
                if (canaryMs() - c0 > to + 5000) tviol("late-return", fmt("%" PRId64 " ms instead of %u ", canaryMs() - c0, to) + ctx, "C19,C04");
                toX++;
                eval();
                sleepMs((int64_t)g.below(200));
            }
        });
        sleepMs(6000);
        quit = true;
        for (auto& t : ts) t.join();
        if (!violated() && ok < 10 + 9 * lockTimeouts) tviol("calls-between-others-fail", fmt("%d lock timeouts, %d successes ", lockTimeouts.load(), ok.load()) + ctx, "C19,C14");
        stat("calls_between_others", ok);
        stat("calls_needing_the_lock", toX);
        stat("lock_timeouts_between_others", lockTimeouts);
        distinct(fmt("%d %u", mask, lockMs / 50));
        sample(fmt("%d calls between others, %d impossible ones ", ok.load(), toX.load()) + ctx);
        // pending calls to it, and shutdown of all in any order
        std::vector<std::shared_ptr<veigar::AsyncCallResult>> pend;
        std::atomic<int> cbs{0};
        int n = 8;
        for (int i = 0; i < n && !violated(); i++) {
            pend.push_back((i % 2 ? a : y).asyncCall(X, 20000, "gen", (uint64_t)sh->next++));
            (i % 2 ? a : y).asyncCall([&](const CallResult&) { cbs++; }, X, 20000, "gen", (uint64_t)sh->next++);
        }
        Veigar* order[] = {&x, &y, &a};
        for (int i = 2; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
        for (Veigar* v : order) v->uninit();
        for (auto& f : pend) if (f->second.wait_for(std::chrono::seconds(0)) != std::future_status::ready) viol("pending-after-uninit", ctx, "C03,C14");
        if (cbs != (int)pend.size()) viol("callback-missing-after-uninit", fmt("%d of %zu ", cbs.load(), pend.size()) + ctx, "C03,C14");
        // restarted
        ox.bindAll();
        oy.bindAll();
        if (!up(x, X, 20, 1000) || !up(y, Y, 20, 1000)) { viol("usable-init-failed", "after a lock was lost", "C12,C13,C19"); return; }
        for (int i = 0; i < 3 && !violated(); i++) {
            CallResult p = y.syncCall(X, 30000, "gen", (uint64_t)sh->next++), q = x.syncCall(Y, 30000, "gen", (uint64_t)sh->next++);
            if (!p.isSuccess() || !q.isSuccess()) viol("restarted-channel-not-well", show(p) + show(q) + ctx, "C13,C19,C14");
        }
        x.uninit();
        y.uninit();
    }
}

// Callers of a channel that stays come and go: they leave while their calls run there, so that the responses find them gone or
// find their successor, and are back at once or a little later, in this process or in another one.
SCENARIO(come_and_go) {   // a caller in another process; rest: channel, target, capacity, size, calls held, shared memory
    Sh* sh = sharedFile<Sh>(args.rest[5], false);
    Veigar v;
    v.bind("pf", [](uint64_t t) { return t + 1; });
    if (!up(v, args.rest[0], (uint32_t)atoi(args.rest[2].c_str()), (uint32_t)atoi(args.rest[3].c_str()))) { viol("usable-init-failed", "caller in another process", "C12,C13"); sh->ready = -1; return; }
    if (!reach(v, args.rest[1], sh, 1, "a caller in another process", "", "C13")) { sh->ready = -1; return; }
    for (int i = 0; i < atoi(args.rest[4].c_str()); i++) v.asyncCall([](const CallResult&) {}, args.rest[1], 20000, "hold", (uint64_t)sh->next++);
    sh->ready = 1;
    for (;;) { sleepMs(5); beat(); }
}
SCENARIO(caller_back) {
    Rng r(args.seed);
    Sh* sh = sharedFile<Sh>("back", true);
    for (int round = 0; round < args.scale && !violated(); round++) {
        if (sh->next.load() > kMaxTok - 5000) break;
        Veigar t;
        Owner o{&t, sh, 1};
        o.bindAll();
        std::string T = longChan(r, fmt("BT%d", round)), A = longChan(r, fmt("BA%d", round)), trace;
        if (!up(t, T, (uint32_t)r.range(10, 60), 2000)) { viol("usable-init-failed", "caller_back", "C12"); return; }
        int left = 0;
        for (int inc = 0; inc < 5 && !violated(); inc++) {
            beat("caller_back");
            uint32_t cap = (uint32_t)r.range(8, 40), sz = (uint32_t)r.range(400, 3000);
            int k = (int)r.below(VEIGAR_DISPATCHER_THREAD_NUMBER), way = (int)r.below(3), when = (int)r.below(3);
            bool other = r.chance(1, 3);
            trace += fmt("%s%d%s ", other ? "process " : "", k, way ? when == 0 ? " responses while it is gone" : when == 1 ? " responses to its successor" : " target calls it while it is gone" : " leaves idle");
            if (way == 0) k = 0;
            sh->held = 0;
            sh->hold = 1;
            sh->ready = 0;
            Veigar a;
            pid_t pid = -1;
            std::atomic<int> done{0};
            auto check = [&](Veigar& v) {
                return reach(v, T, sh, 1, "a caller that is back", trace, "C13");
            };
            auto called = [&] {
                uint64_t tok = sh->next++, y = 0;
                CallResult res = t.syncCall(A, 20000, "pf", tok);
                if (!res.isSuccess() || !res.convertObject(y) || y != tok + 1) viol("reborn-channel-unreachable", "by the target: " + show(res) + " " + trace, "C13");
                eval();
            };
            if (other) {
                pid = spawn("come_and_go", r.next(), 1, {A, T, std::to_string(cap), std::to_string(sz), std::to_string(k), "back"});
                if (!waitUntil([&] { return sh->ready.load() != 0; }, 60000)) inconc("the other process did not start");
            }
            else {
                a.bind("pf", [](uint64_t x) { return x + 1; });
                if (!up(a, A, cap, sz)) { viol("usable-init-failed", trace, "C12,C13"); return; }
                check(a);
                for (int i = 0; i < k; i++) a.asyncCall([&](const CallResult&) { done++; }, T, 20000, "hold", (uint64_t)sh->next++);
            }
            if (!violated() && (!other || sh->ready == 1)) {
                called();
                if (!waitUntil([&] { return sh->held.load() >= k; }, 20000)) tviol("call-not-executed", fmt("%d of %d ", sh->held.load(), k) + trace, "C13,C16");
            }
            if (other) { kill(pid, SIGKILL); reap(pid, 20000); }
            else {
                a.uninit();
                if (done != k) viol("callback-missing-after-uninit", trace, "C03,C14");
            }
            left += k;
            if (way && when == 2) {
                CallResult res = t.syncCall(A, 300, "pf", (uint64_t)1);
                if (!other && res.isSuccess()) viol("call-to-stopped-channel-succeeded", trace, "C13");
                if (res.isSuccess() == false && res.errorMessage.empty()) viol("error-without-message", trace, "C09,C13");
            }
            Veigar n;   // the successor
            n.bind("pf", [](uint64_t x) { return x + 1; });
            auto release = [&] {
                int was = sh->held.load();
                sh->hold = 0;
                sleepMs((int64_t)r.below(r.chance(1, 2) ? 20 : 400));   // most responses have been sent now
                (void)was;
            };
            if (when != 1) release();
            cap = (uint32_t)r.range(8, 40);
            sz = (uint32_t)r.range(400, 3000);
            if (!up(n, A, cap, sz)) { viol("usable-init-failed", trace, "C12,C13"); return; }
            if (r.chance(1, 2)) { check(n); called(); }
            else { called(); check(n); }
            if (when == 1) { release(); check(n); called(); }
            distinct(fmt("%d %d %d %d", other, way, when, k));
            stat("successors");
            n.uninit();
        }
        stat("responses_without_their_caller", left);
        sample(trace);
        sh->hold = 0;
        t.uninit();
    }
}

// ---- C18 -----------------------------------------------------------------------------------------------------------
SCENARIO(params) {
    setHangLimit(90000);
    Rng r(args.seed);
    bool big = !args.rest.empty() && args.rest[0] == "big";
    int rounds = 3 * args.scale;
    int gen = 0;
    for (int round = 0; round < rounds && !violated(); round++) {
        struct P { std::string name; uint32_t cap, size; Veigar* v; pid_t pid; uint64_t room() const { return (uint64_t)cap * size; } };
        std::vector<P> ps;
        Sh* own = sharedFile<Sh>("par", true);
        std::vector<std::unique_ptr<Veigar>> vs;
        std::vector<std::unique_ptr<Owner>> os;
        auto par = [&](P& p) {
            static const uint32_t caps[] = {1, 2, 3, 5, 16, 17, 100, 200, 999, 4096}, sizes[] = {1, 2, 7, 8, 64, 300, 333, 1000, 4097, 10240, 65536, 1000000};
            do { p.cap = r.pick(caps); p.size = r.pick(sizes); } while (p.room() < 400 || p.room() > (big ? 1500000000u : 20000000u));
        };
        int nv = 2 + (int)r.below(2);
        for (int i = 0; i < nv; i++) {
            P p{chan("L" + std::to_string(i)), 0, 0, nullptr, 0};
            par(p);
            vs.emplace_back(p.v = new Veigar);
            os.emplace_back(new Owner{p.v, own, 1});
            os.back()->bindAll();
            if (!up(*p.v, p.name, p.cap, p.size)) { viol("usable-init-failed", fmt("%u x %u", p.cap, p.size), "C18,C12"); return; }
            ps.push_back(p);
        }
        for (int i = 0; i < 2; i++) {
            P p{chan("R" + std::to_string(i)), 0, 0, nullptr, 0};
            par(p);
            p.pid = spawn("owner", r.next() >> 8, 1, {p.name, std::to_string(gen), std::to_string(p.cap), std::to_string(p.size), "-1", "none", "par", ""});
            ps.push_back(p);
        }
        if (!waitUntil([&] { beat(); return own->up.load() == 2 || own->ready.load() < 0; }, 40000)) { inconc("children did not start"); return; }
        std::string desc;
        for (auto& p : ps) desc += fmt("%ux%u ", p.cap, p.size);
        parallel(4, [&](int t) {
            Rng g(args.seed * 77 + round * 10 + t);
            for (int i = 0; i < (big ? 6 : 25) && !violated(); i++) {
                int a = (int)g.below(ps.size()), b = (int)g.below(ps.size());
                if (a == b && !ps[a].v && t >= 2) a = 0;    // three relays waiting for their own process would use up its threads
                P &from = ps[a], &to = ps[b];
                auto pickSize = [&](uint64_t room, uint64_t over) -> uint32_t {
                    room = std::min<uint64_t>(room, big ? 400000000 : 4000000);
                    switch (g.below(6)) {
                        case 0: return (uint32_t)g.below(50);
                        case 1: return (uint32_t)g.below(room);
                        case 2: return (uint32_t)(room > over ? room - over : 0);              // nearly all of it
                        case 3: return (uint32_t)(room > over ? room - over - g.below(std::min<uint64_t>(room - over, 300)) : 0);
                        case 4: return (uint32_t)std::min<uint64_t>(room, to.size * (1 + g.below(3)));
                        default: return (uint32_t)g.below(std::min<uint64_t>(room, 3000));
                    }
                };
                bool over = g.chance(1, 12) && to.room() < 8000000, overR = !over && g.chance(1, 25) && from.room() < 8000000;
                uint32_t n = over ? (uint32_t)to.room() + 1 + (uint32_t)g.below(5000) : pickSize(to.room(), 250);
                uint32_t want = overR ? (uint32_t)from.room() + 1 + (uint32_t)g.below(3000) : pickSize(from.room(), 150);
                bool must = n + 250 <= to.room() && want + 150 <= from.room();
                bool mustNot = over || overR;
                uint32_t ms = must ? 30000 : 700;   // nobody answers when the response does not fit
                uint64_t seed = g.next();
                std::string res;
                uint64_t tok = 0;
                if (from.v) {
                    tok = own->next++;
                    res = exchange(*from.v, to.name, tok, seed, n, want, ms);
                }
                else {
                    // told to do it by one of ours
                    CallResult cr = ps[0].v->syncCall(from.name, 60000, "relay", (uint64_t)own->next++, to.name, seed, n, want, ms);
                    if (!cr.isSuccess() || !cr.convertObject(res)) { viol("relay-failed", show(cr) + " " + desc, "C18,C01"); continue; }
                }
                std::string c = fmt("%ux%u -> %ux%u, %u bytes there, %u back: ", from.cap, from.size, to.cap, to.size, n, want) + res;
                eval();
                if (res.compare(0, 3, "bad") == 0) viol("message-corrupted", c, "C18,C01,C06,C08");
                else if (res == "ok") { if (mustNot) viol("oversized-call-succeeded", c, "C18,C15"); stat("exchanged"); }
                else if (must) { if (res.find("TIMEOUT") == 0) tviol("fitting-call-timed-out", c, "C18,C15"); else viol("fitting-call-failed", c, "C18,C15"); }
                else stat("did not fit");
                if (over && from.v) {
                    if (own->ran[tok].load()) viol("undeliverable-call-executed", c, "C18,C02,C15");
                }
                distinct(fmt("%u %u %u %u %d", from.cap, from.size, to.cap, to.size, must + 2 * mustNot));
                if (i == 0 && t == 0) sample(c);
            }
        });
        own->stop = 1;
        for (auto& p : ps) if (p.pid) expectExit(reap(p.pid, 30000), "owner", "C18,C14");
        for (auto& p : ps) if (p.v) p.v->uninit();
        auto e = shmEntries(prefix());
        if (!e.empty()) viol("shared-objects-remain", e[0], "C12,C18");
        munmap((void*)own, sizeof(Sh));
        gen++;
    }
}
