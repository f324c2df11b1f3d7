// C04: synchronous calls return in time, and not before a result that comes in time.
#include "rpc.h"
#include "message_queue.h"
using namespace vh;

namespace {
enum State { NOTSTARTED, STOPPED, KILLED, BLOCKED, FULL, LOCKED, CALLER_DOWN, OVERSIZE, STATES };
const char* stateName[] = {"not started", "stopped", "killed", "handler stuck", "queue full", "lock held", "caller down", "oversized"};
constexpr int64_t kSlack = 1500;   // "shortly after": what a busy machine may add (measured on the canary clock as well)

struct Timed { CallResult r; int64_t wall, canary; };
template <class... A> Timed timed(Veigar& v, const std::string& t, uint32_t to, const std::string& fn, A... a) {
    int64_t w = nowUs(), c = canaryMs();
    Timed x{v.syncCall(t, to, fn, a...), 0, 0};
    x.wall = (nowUs() - w) / 1000;
    x.canary = canaryMs() - c;
    return x;
}
}  // namespace

// a target in another process that is killed while idle or while its handlers are stuck
SCENARIO(victim) {
    ExecLog* log = sharedFile<ExecLog>(args.rest[1], false);
    Veigar v;
    Callee c;
    c.v = &v; c.chanId = 7; c.log = log;
    c.bindAll();
    if (!up(v, args.rest[0], 4, 2000)) viol("init-failed", "victim", "C12");
    log->ready = 1;
    for (;;) { beat(); sleepMs(50); }
}

// Targets from which no result can come in time.
SCENARIO(no_result) {
    Rng r(args.seed);
    for (int round = 0; round < args.scale && !violated(); round++) {
        beat("no_result");
        Veigar a, b, c, down;
        ExecLog* log = localLog();
        Callee cb, cc;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cc.v = &c; cc.chanId = 2; cc.log = log;
        cb.bindAll();
        cc.bindAll();
        // lock timeout below the call timeouts, as documented
        bool okUp = up(a, chan(fmt("na%d", round)), 200, 10240, 25) && up(b, chan(fmt("nb%d", round)), 2, 3000, 25) && up(c, chan(fmt("nc%d", round)), 50, 3000, 25);
        if (!okUp) { viol("init-failed", "", "C12"); return; }
        std::string name[STATES];
        for (auto& s : name) s = b.channelName();
        name[NOTSTARTED] = chan("never");
        {
            Veigar s;
            up(s, chan(fmt("ns%d", round)));
            a.syncCall(s.channelName(), 2000, "f", 1);
            name[STOPPED] = s.channelName();
            s.uninit();
        }
        ExecLog* vlog = sharedFile<ExecLog>(fmt("v%d", round), true);
        vlog->block = 1;
        name[KILLED] = chan(fmt("nv%d", round));
        pid_t pid = spawn("victim", 1, 1, {name[KILLED], fmt("v%d", round)});
        bool vic = waitUntil([&] { return vlog->ready.load() == 1; }, 30000);
        if (vic) {
            int idle = (int)r.below(4);
            for (int i = 0; i < idle; i++) a.asyncCall([](const CallResult&) {}, name[KILLED], 20000, "block", (uint64_t)log->next++);
            sleepMs(r.below(30));
        }
        kill(pid, SIGKILL);
        reap(pid, 20000);
        // b: handlers stuck, then the queue full
        name[BLOCKED] = c.channelName();
        log->block = 1;
        for (int i = 0; i < 3; i++) {
            a.asyncCall([](const CallResult&) {}, b.channelName(), 60000, "block", (uint64_t)log->next++);
            a.asyncCall([](const CallResult&) {}, c.channelName(), 60000, "block", (uint64_t)log->next++);
        }
        waitUntil([&] { return cb.running >= 3 && cc.running >= 3; }, 20000);
        for (int i = 0; i < 2; i++) a.asyncCall([](const CallResult&) {}, b.channelName(), 60000, "block", (uint64_t)log->next++);
        sleepMs(50);
        Veigar d;
        up(d, chan(fmt("nd%d", round)), 20, 3000, 25);
        name[LOCKED] = d.channelName();
        veigar::MessageQueue mq(20, 3000);
        bool held = mq.open(d.channelName() + "_call") && mq.processRWLock(5000);
        static const uint32_t tos[] = {0, 1, 7, 26, 31, 50, 100, 200, 333, 500, 999, 1000, 1001, 1500, 2500};
        parallel(24 + STATES, [&](int i) {
            Rng q(args.seed * 977 + i + round * 131);
            perturb(1, q.next());
            int64_t spent = 0;
            while (spent < 2500 && !violated()) {
                int s = i < 24 ? (int)q.below(STATES) : i - 24;
                if (s == LOCKED && !held) s = BLOCKED;
                uint32_t to = q.pick(tos);
                if (to == 2500 && !q.chance(1, 3)) to = 60;
                if (i >= 24) to = (uint32_t)q.range(4000, 5000);   // one long wait in each state
                Veigar& v = s == CALLER_DOWN ? down : a;
                uint64_t tok = log->next++;
                Timed t = s == OVERSIZE ? timed(v, c.channelName(), to, "str", tok, std::string(150001, 'x'))
                                        : q.chance(1, 2) ? timed(v, name[s], to, "f", tok, tok) : timed(v, name[s], to, "str", tok, std::string(q.below(900), 'y'));
                spent += i >= 24 ? 5000 : t.wall + 1;
                std::string dsc = fmt("target %s, timeout %u ms, returned after %" PRId64 " ms: ", stateName[s], to, t.wall) + show(t.r);
                if (t.r.isSuccess()) viol("impossible-call-succeeded", dsc, "C04,C02,C01");
                else if (t.r.errCode == ErrorCode::SUCCESS) viol("impossible-call-answered", dsc, "C04,C02");
                if (t.r.errorMessage.empty()) viol("error-without-message", dsc, "C04,C09");
                if (t.wall > to + kSlack && t.canary > to + kSlack / 2) tviol(std::string("late-return:") + stateName[s], dsc, "C04");
                statMax("late_ms", t.canary - to);
                eval();
                distinct(fmt("%d/%u/%d/%s", s, to, (int)t.r.errCode, t.r.errorMessage.c_str()));
                stat(stateName[s]);
                if (q.chance(1, 300)) sample(dsc);
            }
        });
        perturb(0, 0);
        if (held) mq.processRWUnlock();
        log->block = 0;
        // the states are left: everything works again
        for (Veigar* x : {&b, &c, &d}) {
            Timed t = timed(a, x->channelName(), 30000, x == &d ? "nofn" : "f", (uint64_t)log->next++, (uint64_t)3);
            if (t.r.errCode != ErrorCode::SUCCESS) {
                if (t.r.errorMessage.find("rw-lock") == std::string::npos) viol("call-fails-afterwards", show(t.r), "C04,C15,C16,C14");
            }
        }
        mq.close();
        a.uninit(); b.uninit(); c.uninit(); d.uninit();
        munmap((void*)vlog, sizeof *vlog);
        cleanShm(name[KILLED]);
    }
}

// Results that come before the timeout.
SCENARIO(result_in_time) {
    Rng r(args.seed);
    for (int round = 0; round < args.scale && !violated(); round++) {
        beat("result_in_time");
        Veigar a, b;
        ExecLog* log = localLog();
        Callee cb;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        cb.bindAll();
        uint32_t cap = r.chance(1, 2) ? (uint32_t)r.range(1, 3) : 100;
        if (!up(a, chan(fmt("ra%d", round)), 200, 10240, 4000) || !up(b, chan(fmt("rb%d", round)), cap, 3000, 4000)) { viol("init-failed", "", "C12"); return; }
        static const uint32_t tos[] = {4500, 5000, 10000, 60000, 3600000, 2147483, 2147484, 4294967, 4294968, 4295500, 2147483647u, 2147483648u, 4294967294u, 4294967295u, 8589935};
        int mode = round % 4;   // 0 slow handlers, 1 full queue, 2 lock held, 3 all
        std::unique_ptr<veigar::MessageQueue> mq, mr;
        std::thread holder;
        if (mode == 1 || mode == 3) {
            log->block = 1;
            for (int i = 0; i < 3 + (int)cap; i++) a.asyncCall([](const CallResult&) {}, b.channelName(), 4294967295u, "block", (uint64_t)log->next++);
            waitUntil([&] { return cb.running >= 3; }, 20000);
            sleepMs(50);
        }
        int64_t freed = r.range(200, 1800);
        if (mode == 2) {
            mq.reset(new veigar::MessageQueue(100, 3000));
            mr.reset(new veigar::MessageQueue(100, 3000));
            if (!mq->open(b.channelName() + "_call") || !mr->open(a.channelName() + "_resp")) { viol("open-failed", "", "C13"); return; }
            holder = std::thread([&, sd = r.next()] {
                Rng q(sd);
                for (int i = 0; i < 3; i++) {
                    auto& m = q.chance(1, 2) ? mq : mr;
                    if (m->processRWLock(10000)) { sleepMs(q.range(50, 1000)); m->processRWUnlock(); }
                    sleepMs(q.below(30));
                }
            });
        }
        std::thread freer;
        if (mode == 1 || mode == 3) freer = std::thread([&] { sleepMs(freed); log->block = 0; });
        parallel(10, [&](int i) {
            Rng q(args.seed * 31 + i + round * 977);
            for (int k = 0; k < 4 && !violated(); k++) {
                uint32_t to = q.pick(tos);
                uint64_t tok = log->next++;
                int ms = q.chance(1, 2) ? 0 : (int)q.below(400);
                bool slow = mode == 0 || (mode == 3 && q.chance(1, 2));
                Timed t = slow ? timed(a, b.channelName(), to, "slow", tok, ms) : timed(a, b.channelName(), to, "f", tok, tok);
                uint64_t x = 0;
                std::string dsc = fmt("timeout %u ms, mode %d, returned after %" PRId64 " ms: ", to, mode, t.wall) + show(t.r);
                bool good = t.r.isSuccess() && t.r.convertObject(x) && x == (slow ? expectNum(tok, ms, 1, 100) : expectNum(tok, tok, 1, 0));
                if (!good) {
                    // nearly at the timeout (a starved machine): not decided here
                    if (t.r.errCode == ErrorCode::TIMEOUT && t.wall + 1500 > to) tviol("gives-up-although-served", dsc, "C04,C15,C16");
                    else viol(fmt("gives-up-early:mode%d", mode), dsc, mode == 1 || mode == 3 ? "C04,C15" : "C04");
                }
                if (slow && t.wall + 1 < ms) viol("returns-before-the-result", dsc, "C04,C01");
                eval();
                distinct(fmt("%d/%u/%d", mode, to, (int)slow));
                if (q.chance(1, 20)) sample(dsc);
            }
        });
        if (freer.joinable()) freer.join();
        if (holder.joinable()) holder.join();
        stat(fmt("rounds_mode%d", mode));
        a.uninit();
        b.uninit();
    }
}

// Handlers that take about as long as the timeout: either outcome, but each at its time.
SCENARIO(near_timeout) {
    Rng r(args.seed);
    Veigar a, b;
    ExecLog* log = localLog();
    Callee cb;
    cb.v = &b; cb.chanId = 1; cb.log = log;
    cb.bindAll();
    if (!up(a, chan("ta"), 200, 10240, 20) || !up(b, chan("tb"), 200, 10240, 20)) { viol("init-failed", "", "C12"); return; }
    parallel(3, [&](int i) {
        Rng q(args.seed * 77 + i);
        perturb(2, q.next());
        for (int k = 0; k < 60 * args.scale && !violated(); k++) {
            uint32_t to = (uint32_t)q.range(25, 60);
            int ms = (int)to + (int)q.range(-22, 8);
            uint64_t tok = log->next++;
            Timed t = timed(a, b.channelName(), to, "slow", tok, ms);
            std::string dsc = fmt("timeout %u ms, handler %d ms, returned after %" PRId64 " ms: ", to, ms, t.wall) + show(t.r);
            uint64_t x = 0;
            if (t.r.isSuccess()) {
                stat("in_time");
                if (!t.r.convertObject(x) || x != expectNum(tok, ms, 1, 100)) viol("wrong-result", dsc, "C04,C01,C22");
                if (t.wall + 1 < ms) viol("returns-before-the-result", dsc, "C04,C01");
            }
            else {
                stat("timed_out");
                if (t.r.errCode == ErrorCode::TIMEOUT && t.wall + 1 < to && t.r.errorMessage.find("rw-lock") == std::string::npos) viol("times-out-early", dsc, "C04");
            }
            if (t.wall > to + kSlack && t.canary > to + kSlack / 2) tviol("late-return:near", dsc, "C04");
            eval();
            distinct(fmt("near %d %d %d", (int)to, ms, (int)t.r.isSuccess()));
            if (q.chance(1, 40)) sample(dsc);
            beat("near_timeout");
        }
    });
    a.uninit();
    b.uninit();
}
