// C06: one queue, many producers and consumers in threads and processes.  C07: semaphores, queue locks/signals, events.
#include "vh.h"
#include "proc.h"
#include "message_queue.h"
#include "event.h"
#include <algorithm>
using namespace vh;
using veigar::MessageQueue;
using veigar::Semaphore;

// ================================================================================================ C06
namespace {
struct Rec {
    uint32_t kind;      // 1 push, 2 pop
    uint32_t who, seq, len;
    int64_t ticket;
    uint64_t hash;
};
constexpr int kMaxRec = 200000;
struct Ctl {
    std::atomic<int> go, inside, producersLeft, consumersLeft, stop;
    std::atomic<int64_t> ticket, pushed, popped, overlap, nrec, lockTimeouts, fullRetries, emptySignals, torn, badSize, notified;
    Rec rec[kMaxRec];
};
struct Cfg {
    int num, size, producers, perProducer, consumers, maxLen, lockMs, signalMode, consumeMode, sharedHandle, perturbLevel;
    std::string ser() const { return fmt("%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d", num, size, producers, perProducer, consumers, maxLen, lockMs, signalMode, consumeMode, sharedHandle, perturbLevel); }
    static Cfg parse(const std::string& s) {
        Cfg c;
        sscanf(s.c_str(), "%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d", &c.num, &c.size, &c.producers, &c.perProducer, &c.consumers, &c.maxLen, &c.lockMs, &c.signalMode, &c.consumeMode, &c.sharedHandle, &c.perturbLevel);
        return c;
    }
};
struct Head { uint32_t who, seq, len, pad; uint64_t hash; };

void enter(Ctl* c) {
    if (c->inside.fetch_add(1) != 0) c->overlap.fetch_add(1);
}
void leave(Ctl* c) { c->inside.fetch_sub(1); }

bool lockQ(Ctl* c, MessageQueue& q, int ms, Rng& r) {
    for (int i = 0; i < 200000; i++) {
        int t = ms;
        if (ms < 0) t = (int)r.below(6);     // impatient: 0..5 ms
        if (q.processRWLock((uint32_t)t)) return true;
        c->lockTimeouts.fetch_add(1);
        if (ms > 1000) return false;
        beat();
    }
    return false;
}

void producer(Ctl* c, const Cfg& f, MessageQueue& q, uint32_t who, Rng r) {
    std::vector<uint8_t> buf;
    for (uint32_t seq = 0; seq < (uint32_t)f.perProducer; seq++) {
        uint32_t len = (uint32_t)(sizeof(Head) + r.below(f.maxLen));
        int64_t total = (int64_t)f.num * f.size;
        if (len > total) len = (uint32_t)total;
        buf.resize(len);
        for (uint32_t i = sizeof(Head); i < len; i++) buf[i] = (uint8_t)(who * 31 + seq * 7 + i);
        Head h{who, seq, len, 0, 0};
        h.hash = hashBytes(buf.data() + sizeof(Head), len - sizeof(Head), who * 1000003ull + seq);
        memcpy(buf.data(), &h, sizeof h);
        for (;;) {
            if (c->stop.load()) return;
            if (!lockQ(c, q, f.lockMs, r)) { tviol("lock-not-obtained", "producer did not get the lock within its timeout", "C06,C07"); return; }
            enter(c);
            if (r.chance(1, 3)) { bool w; q.checkSpaceSufficient(len, w); }
            bool ok = q.pushBack(buf.data(), len);
            if (ok) {
                int64_t i = c->nrec.fetch_add(1);
                if (i < kMaxRec) c->rec[i] = Rec{1, who, seq, len, c->ticket.fetch_add(1), h.hash};
                c->pushed.fetch_add(1);
                if (f.signalMode == 0 || (f.signalMode == 2 && r.chance(1, 2))) { c->notified.fetch_add(1); q.notifyRead(); leave(c); q.processRWUnlock(); }
                else { leave(c); q.processRWUnlock(); if (r.chance(1, 8)) std::this_thread::yield(); c->notified.fetch_add(1); q.notifyRead(); }
                break;
            }
            leave(c);
            q.processRWUnlock();
            c->fullRetries.fetch_add(1);
            if (r.chance(1, 4)) sleepUs(r.below(200)); else std::this_thread::yield();
            beat();
        }
        if (r.chance(1, 40)) sleepUs(r.below(400));
    }
}

void consumer(Ctl* c, const Cfg& f, MessageQueue& q, Rng r, int64_t expect) {
    std::vector<uint8_t> buf((size_t)f.num * f.size + 1);
    Deadline d(40000);
    for (;;) {
        if (c->stop.load()) return;
        if (c->popped.load() >= expect) return;
        if (d.passed()) return;
        if (f.consumeMode == 0) {
            if (!q.waitForRead(50)) continue;
        }
        else if (f.consumeMode == 1) {
            if (!q.waitForRead(c->popped.load() + 8 < expect ? 5000 : 50)) continue;
        }
        if (!lockQ(c, q, f.lockMs, r)) { tviol("lock-not-obtained", "consumer did not get the lock within its timeout", "C06,C07"); return; }
        enter(c);
        int64_t w = 0;
        int64_t n = q.msgNumber();
        bool ok = q.popFront(buf.data(), (int64_t)buf.size(), w);
        if (ok != (n > 0)) viol("pop-vs-count", fmt("count %" PRId64 " pop %d", n, ok), "C06,C05");
        if (ok) {
            d = Deadline(40000);
            Head h{};
            if (w < (int64_t)sizeof h) c->badSize.fetch_add(1);
            else {
                memcpy(&h, buf.data(), sizeof h);
                if ((int64_t)h.len != w || h.hash != hashBytes(buf.data() + sizeof h, (size_t)w - sizeof h, h.who * 1000003ull + h.seq)) c->torn.fetch_add(1);
            }
            int64_t i = c->nrec.fetch_add(1);
            if (i < kMaxRec) c->rec[i] = Rec{2, h.who, h.seq, h.len, c->ticket.fetch_add(1), h.hash};
            c->popped.fetch_add(1);
        }
        else if (f.consumeMode != 2) c->emptySignals.fetch_add(1);
        leave(c);
        q.processRWUnlock();
        if (f.consumeMode == 2 && !ok) sleepUs(r.below(300));
        beat();
        if (r.chance(1, 50)) sleepUs(r.below(500));
    }
}

void verdict(Ctl* c, const Cfg& f, MessageQueue& q, const char* how) {
    std::string ctx = fmt("[%s %s] pushed %" PRId64 " popped %" PRId64, how, f.ser().c_str(), c->pushed.load(), c->popped.load());
    int64_t n = std::min<int64_t>(c->nrec.load(), kMaxRec);
    std::vector<Rec> pu, po;
    for (int64_t i = 0; i < n; i++) (c->rec[i].kind == 1 ? pu : po).push_back(c->rec[i]);
    auto byT = [](const Rec& a, const Rec& b) { return a.ticket < b.ticket; };
    std::sort(pu.begin(), pu.end(), byT);
    std::sort(po.begin(), po.end(), byT);
    if (c->overlap.load()) viol("lock-not-exclusive", fmt("%" PRId64 " overlaps inside the queue lock ", c->overlap.load()) + ctx, "C06,C07");
    if (c->torn.load()) viol("message-torn", fmt("%" PRId64 " messages with wrong content ", c->torn.load()) + ctx, "C06,C05");
    if (c->badSize.load()) viol("message-size", fmt("%" PRId64 " messages too short ", c->badSize.load()) + ctx, "C06,C05");
    if (c->emptySignals.load()) viol("signal-without-message", fmt("%" PRId64 " read signals found no message ", c->emptySignals.load()) + ctx, "C06,C07");
    std::map<std::pair<uint32_t, uint32_t>, int> seen;
    for (auto& r : po) if (++seen[{r.who, r.seq}] == 2) viol("message-duplicated", fmt("producer %u seq %u ", r.who, r.seq) + ctx, "C06");
    for (auto& r : pu) if (!seen.count({r.who, r.seq}) && c->popped.load() >= c->pushed.load()) { viol("message-lost", fmt("producer %u seq %u ", r.who, r.seq) + ctx, "C06"); break; }
    std::map<uint32_t, int64_t> last;
    for (auto& r : po) {
        auto it = last.find(r.who);
        if (it != last.end() && (int64_t)r.seq <= it->second) { viol("message-reordered", fmt("producer %u: %u after %" PRId64 " ", r.who, r.seq, it->second) + ctx, "C06,C05"); break; }
        last[r.who] = r.seq;
    }
    for (size_t i = 0; i < pu.size() && i < po.size(); i++)
        if (pu[i].who != po[i].who || pu[i].seq != po[i].seq) { viol("queue-order", fmt("pop %zu is %u/%u, push %zu was %u/%u ", i, po[i].who, po[i].seq, i, pu[i].who, pu[i].seq) + ctx, "C06,C05"); break; }
    if (c->popped.load() < c->pushed.load()) {
        // Nobody is working any more: the remaining messages have no signal, or the lock is gone.
        tviol("not-drained", fmt("%" PRId64 " messages left, count says %" PRId64 " ", c->pushed.load() - c->popped.load(), q.msgNumber()) + ctx, "C06,C07");
    }
    else {
        if (q.msgNumber() != 0) viol("count-after-drain", fmt("%" PRId64 " ", q.msgNumber()) + ctx, "C06,C05");
        if (f.consumeMode != 2 && q.waitForRead(0)) viol("surplus-signal", ctx, "C06,C07");
    }
    if (q.processRWLock(5000)) q.processRWUnlock();
    else tviol("lock-lost", "the lock is not free after all have finished " + ctx, "C06,C07");
    // interleaving signature: who was served in which order
    uint64_t sig = 1;
    for (size_t i = 0; i + 16 <= po.size(); i += 16) {
        sig = 1;
        for (size_t k = i; k < i + 16; k++) sig = mix64(sig ^ po[k].who);
        distinct(sig);
    }
    eval((int64_t)(pu.size() + po.size()));
    stat("pushed", c->pushed.load());
    stat("popped", c->popped.load());
    stat("full_retries", c->fullRetries.load());
    stat("lock_timeouts", c->lockTimeouts.load());
    stat("runs");
    sample(std::string(how) + " " + ctx);
}

Cfg rndCfg(Rng& r, bool procs) {
    Cfg f;
    switch (r.below(4)) {
        case 0: f.num = (int)r.range(1, 4); f.size = (int)r.range(24, 200); break;
        case 1: f.num = (int)r.range(5, 40); f.size = (int)r.range(24, 100); break;
        case 2: f.num = 200; f.size = (int)r.range(30, 1000); break;
        default: f.num = (int)r.range(2, 10); f.size = 10240; break;
    }
    f.producers = (int)r.range(1, 6);
    f.consumers = (int)r.range(1, 5);
    f.perProducer = (int)r.range(50, procs ? 500 : 300);
    f.maxLen = r.chance(1, 3) ? 1 : (int)r.range(1, std::min(3 * f.size, 4000));
    f.lockMs = r.chance(1, 3) ? -1 : 30000;
    f.signalMode = (int)r.below(3);
    f.consumeMode = (int)r.below(3);
    f.sharedHandle = (int)r.below(2);
    f.perturbLevel = (int)r.below(4);
    return f;
}
}  // namespace

SCENARIO(mpmc_threads) {
    Rng r(args.seed);
    bool shared = !args.rest.empty() && args.rest[0] == "shared";
    Ctl* c = sharedFile<Ctl>("ctl", true);
    for (int it = 0; it < 24 * args.scale && !violated(); it++) {
        beat("mpmc_threads");
        memset((void*)c, 0, offsetof(Ctl, rec));
        Cfg f = rndCfg(r, false);
        if (shared) f.sharedHandle = 1;
        std::string path = chan(fmt("t%d", it));
        MessageQueue owner(f.num, f.size);
        if (!owner.create(path)) { viol("create-failed", path); return; }
        int64_t expect = (int64_t)f.producers * f.perProducer;
        perturb(f.perturbLevel, r.next());
        uint64_t s = r.next();
        std::atomic<int> prodLeft{f.producers};
        parallel(f.producers + f.consumers, [&](int i) {
            MessageQueue own(f.num, f.size);
            MessageQueue* q = &owner;
            if (!f.sharedHandle) {
                if (!own.open(path)) { viol("open-failed", path); c->stop = 1; return; }
                q = &own;
            }
            if (i < f.producers) producer(c, f, *q, (uint32_t)i, Rng(s + i));
            else consumer(c, f, *q, Rng(s + i), expect);
            if (!f.sharedHandle) own.close();
        });
        perturb(0, 0);
        verdict(c, f, owner, "threads");
        owner.close();
    }
}

SCENARIO(mpmc_child) {
    Cfg f = Cfg::parse(args.rest[0]);
    std::string path = args.rest[1];
    int index = atoi(args.rest[2].c_str()), np = atoi(args.rest[3].c_str()), nc = atoi(args.rest[4].c_str());
    Ctl* c = sharedFile<Ctl>("ctl", false);
    Rng r(args.seed);
    std::unique_ptr<MessageQueue> one(new MessageQueue(f.num, f.size));
    if (!one->open(path)) { viol("open-failed", path); c->stop = 1; return; }
    perturb(f.perturbLevel, r.next());
    uint64_t s = r.next();
    while (!c->go.load()) sleepUs(100);
    parallel(np + nc, [&](int i) {
        if (i < np) producer(c, f, *one, (uint32_t)(index * 100 + i), Rng(s + i));
        else consumer(c, f, *one, Rng(s + i), f.producers * (int64_t)f.perProducer);
    });
    one->close();
}

SCENARIO(mpmc_procs) {
    Rng r(args.seed);
    Ctl* c = sharedFile<Ctl>("ctl", true);
    for (int it = 0; it < 10 * args.scale && !violated(); it++) {
        beat("mpmc_procs");
        memset((void*)c, 0, offsetof(Ctl, rec));
        Cfg f = rndCfg(r, true);
        std::string path = chan(fmt("p%d", it));
        MessageQueue owner(f.num, f.size);
        if (!owner.create(path)) { viol("create-failed", path); return; }
        // spread over processes, up to two threads each
        std::vector<std::pair<int, int>> procs;
        int p = f.producers, k = f.consumers;
        while (p > 0 || k > 0) {
            int a = (int)r.below(3), b = (int)r.below(3);
            if (a > p) a = p;
            if (b > k) b = k;
            if (a + b == 0) continue;
            procs.push_back({a, b});
            p -= a;
            k -= b;
        }
        std::vector<pid_t> pids;
        for (size_t i = 0; i < procs.size(); i++)
            pids.push_back(spawn("mpmc_child", r.next() >> 8, 1, {f.ser(), path, std::to_string(i), std::to_string(procs[i].first), std::to_string(procs[i].second)}));
        c->go = 1;
        for (size_t i = 0; i < pids.size(); i++) expectExit(reap(pids[i], 100000), "mpmc_child", "C06");
        verdict(c, f, owner, "processes");
        stat("processes", (int64_t)procs.size());
        owner.close();
    }
}

// ================================================================================================ C07
namespace {
// generous bound on how late a wake-up may be before it counts
constexpr int64_t kLate = 3000;

void alignTo(int64_t fracUs) {   // sleep until the wall clock's fraction of a second is fracUs
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    int64_t now = ts.tv_nsec / 1000;
    int64_t d = fracUs - now;
    if (d < 0) d += 1000000;
    sleepUs(d);
}
struct TimedOutcome { bool ok; int64_t ms; int err; };
template <class F> TimedOutcome timed(F f) {
    int64_t t = nowUs();
    bool ok = f();
    return {ok, (nowUs() - t) / 1000, errno};
}
std::atomic<int> g_sigs{0};
void onSig(int) { g_sigs.fetch_add(1); }
}  // namespace

// Timed waits at every phase of the wall-clock second, without and with a token that arrives in time.
SCENARIO(sem_timing) {
    Rng r(args.seed);
    struct Job { int64_t frac, ms, post; int api; };   // post: release after so many ms, -1 = never; api 0 Semaphore 1 queue lock 2 read signal 3 event
    std::vector<Job> jobs;
    std::vector<int64_t> fr = {0, 1000, 500000, 900000, 949000, 970000, 990000, 998000, 999500};
    for (auto f : fr)
        for (int64_t ms : {0, 1, 5, 30, 60, 100, 250, 600, 999, 1000, 1001, 1500})
            jobs.push_back({f, ms, -1, (int)r.below(4)});
    for (auto f : fr) {
        jobs.push_back({f, 2500, 100, (int)r.below(4)});
        jobs.push_back({f, 900, 30, (int)r.below(4)});
        jobs.push_back({f, 4000, 1100, (int)r.below(4)});
    }
    // far beyond any 32-bit count of milli-, micro- or nanoseconds, and just after such a count starts again
    for (int64_t ms : {5000LL, 65536LL + 20, 2147483LL, 4294967LL, 4294968LL, 2147483647LL, 2147483647LL + 30, 4294967295LL, 4294967296LL + 20, 3 * 4294967296LL + 90, 100000000000LL,
                       18446744073710LL, 18446744073709552LL, 4611686018427387904LL + 10, 9223372036854775807LL})
        for (int api = 0; api < 4; api++) {
            if (api == 1 && ms > 4294967295) continue;
            if (api == 3 && ms > 100000000000) continue;   // the clock of the waits of events counts nanoseconds
            jobs.push_back({(int64_t)r.below(1000000), ms, (int64_t)r.range(150, 400), api});
        }
    for (int api : {0, 2, 3}) jobs.push_back({(int64_t)r.below(1000000), -1, 150, api});   // unlimited
    for (int i = 0; i < 60 * args.scale; i++) {
        int64_t ms = r.range(0, 1800);
        jobs.push_back({(int64_t)r.below(1000000), ms, r.chance(1, 2) && ms > 400 ? r.range(0, ms / 3) : -1, (int)r.below(4)});
    }
    for (size_t i = jobs.size(); i-- > 1;) std::swap(jobs[i], jobs[r.below(i + 1)]);
    std::atomic<size_t> next{0};
    parallel(40, [&](int) {
        for (;;) {
            size_t i = next.fetch_add(1);
            if (i >= jobs.size()) return;
            Job j = jobs[i];
            std::string name = chan(fmt("tm%zu", i));
            Semaphore s;
            MessageQueue q(4, 64);
            veigar::Event ev;
            if (j.api == 3) {}
            else if (j.api == 0) { if (!s.open(name, 0)) { viol("sem-open", name, "C07"); return; } }
            else {
                if (!q.create(name)) { viol("queue-create", name, "C07"); return; }
                if (j.api == 1 && !q.processRWLock(1000)) { viol("fresh-lock-not-free", "the lock of a new queue is taken", "C07,C13"); return; }
            }
            std::thread poster;
            alignTo(j.frac);
            std::atomic<int64_t> postedAt{0};
            if (j.post >= 0) poster = std::thread([&] {
                sleepMs(j.post);
                postedAt = nowUs();
                if (j.api == 0) s.release();
                else if (j.api == 1) q.processRWUnlock();
                else if (j.api == 2) q.notifyRead();
                else ev.set();
            });
            auto o = timed([&] { return j.api == 0 ? s.wait(j.ms) : j.api == 1 ? q.processRWLock((uint32_t)j.ms) : j.api == 2 ? q.waitForRead(j.ms) : ev.wait(j.ms); });
            int64_t woke = nowUs();
            if (poster.joinable()) poster.join();
            std::string ctx = fmt("api=%d timeout=%" PRId64 "ms start at .%06" PRId64 "s token after %" PRId64 "ms: returned %d after %" PRId64 "ms", j.api, j.ms, j.frac, j.post, o.ok, o.ms);
            if (j.post < 0) {
                if (o.ok) viol("wait-succeeds-without-token", ctx, "C07,C06");
                else if (o.ms < j.ms - 2) viol("wait-gives-up-early", ctx, "C07,C04");
                else if (o.ms > j.ms + kLate) tviol("wait-returns-late", ctx, "C07,C04");
            }
            else {
                // the token was there before the timeout passed (with a wide margin)
                bool inTime = j.ms < 0 || j.ms > 100000 || (postedAt - (woke - o.ms * 1000)) / 1000 < j.ms - 300;
                if (!o.ok && inTime) viol(o.ms < j.post ? "wait-gives-up-early" : "wait-misses-token", ctx, "C07,C06");
                if (o.ok && o.ms < j.post - 2) viol("wait-succeeds-without-token", ctx, "C07,C06");
                if (o.ok && (woke - postedAt) / 1000 > kLate) tviol("wait-wakes-late", ctx, "C07");
            }
            eval();
            distinct(fmt("%d/%" PRId64 "/%" PRId64 "/%" PRId64, j.api, j.frac / 10000, j.ms, j.post));
            if (i % 50 == 0) sample(ctx);
            stat(j.post < 0 ? "timed_out" : "woken");
            if (j.api == 0) { s.close(); shm_unlink(("/sem." + name).c_str()); }
            else if (j.api != 3) q.close();
            beat("sem_timing");
        }
    });
}

// Signals that interrupt waiting threads neither end nor prolong a wait.
SCENARIO(sem_signals) {
    Rng r(args.seed);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onSig;
    sigaction(SIGUSR1, &sa, nullptr);   // no SA_RESTART
    for (int round = 0; round < 2 * args.scale && !violated(); round++) {
        struct W { int api; int64_t ms, post; std::thread t; std::atomic<bool> done{false}; pthread_t id; std::atomic<bool> up{false}; };
        std::vector<std::unique_ptr<W>> ws;
        for (int api = 0; api < 4; api++)
            for (int64_t ms : {200, 700, 1300}) for (int64_t post : {-1, 100}) {
                auto w = std::make_unique<W>();
                w->api = api;
                w->ms = ms;
                w->post = api == 3 ? 400 : post;   // 3 = wait() without limit
                ws.push_back(std::move(w));
            }
        for (size_t i = 0; i < ws.size(); i++) {
            W* w = ws[i].get();
            std::string name = chan(fmt("sg%d_%zu", round, i));
            w->t = std::thread([w, name] {
                Semaphore s;
                MessageQueue q(4, 64);
                if (w->api == 0 || w->api == 3) s.open(name, 0);
                else { q.create(name); if (w->api == 1) q.processRWLock(100); }
                w->id = pthread_self();
                w->up = true;
                std::atomic<int64_t> postedAt{0};
                std::thread poster;
                if (w->post >= 0) poster = std::thread([&] {
                    sigset_t all;
                    sigfillset(&all);
                    pthread_sigmask(SIG_BLOCK, &all, nullptr);
                    int64_t until = nowUs() + w->post * 1000;
                    while (nowUs() < until) sleepMs(5);
                    postedAt = nowUs();
                    if (w->api == 0 || w->api == 3) s.release();
                    else if (w->api == 1) q.processRWUnlock();
                    else q.notifyRead();
                });
                int64_t t0 = nowUs();
                bool ok = true;
                if (w->api == 0) ok = s.wait(w->ms);
                else if (w->api == 1) ok = q.processRWLock((uint32_t)w->ms);
                else if (w->api == 2) ok = q.waitForRead(w->ms);
                else if (w->ms == 200) ok = s.wait(-1);
                else s.wait();
                int64_t el = (nowUs() - t0) / 1000;
                bool early = w->post >= 0 && postedAt.load() == 0;
                w->done = true;
                if (poster.joinable()) poster.join();
                std::string ctx = fmt("api=%d timeout=%" PRId64 " token after %" PRId64 ": returned %d after %" PRId64 "ms under signals", w->api, w->ms, w->post, ok, el);
                if (w->post < 0) {
                    if (ok) viol("signal-wait-succeeds-without-token", ctx, "C07");
                    else if (el < w->ms - 2) viol("signal-ends-wait", ctx, "C07");
                    else if (el > w->ms + kLate) tviol("signal-prolongs-wait", ctx, "C07,C04");
                }
                else if (w->api == 3 || w->ms > 600) {
                    if (early) viol("signal-ends-wait", ctx, "C07");
                    else if (!ok && (w->api == 3 || (postedAt - t0) / 1000 < w->ms - 300)) viol("signal-loses-token", ctx, "C07");
                }
                if (w->api == 0 || w->api == 3) { s.close(); shm_unlink(("/sem." + name).c_str()); }
                else q.close();
                eval();
                distinct(fmt("%d/%" PRId64 "/%" PRId64, w->api, w->ms, w->post));
            });
        }
        for (auto& w : ws) while (!w->up) sleepUs(100);
        Deadline d(30000);
        for (;;) {
            bool all = true;
            for (auto& w : ws) if (!w->done) { all = false; pthread_kill(w->id, SIGUSR1); }
            if (all || d.passed()) break;
            sleepMs(3);
        }
        bool all = true;
        for (auto& w : ws) all = all && w->done;
        if (!all) { tviol("signal-wait-never-ends", "a wait has not returned 30 s after its start under signals", "C07"); flush(); _exit(0); }
        for (auto& w : ws) w->t.join();
        beat("sem_signals");
    }
    stat("signals", g_sigs.load());
    sample(fmt("%d signals delivered to 24 waiting threads", g_sigs.load()));
}

// Tokens: what goes in comes out, never more; every waiter is woken; names and handles.
SCENARIO(sem_conserve) {
    Rng r(args.seed);
    for (int round = 0; round < 30 * args.scale && !violated(); round++) {
        beat("sem_conserve");
        std::string name = chan(fmt("cs%d", round));
        int init = (int)r.below(4), threads = (int)r.range(2, 8), handles = (int)r.range(1, 4);
        if (Semaphore::IsExist(name)) viol("isexist-before-create", name, "C07");
        if (Semaphore::IsExist(name)) viol("isexist-creates", "second probe finds what the first made", "C07");
        if (!shmEntries(name).empty()) viol("isexist-creates", "a semaphore file exists after probing", "C07");
        std::vector<std::unique_ptr<Semaphore>> hs;
        for (int i = 0; i < handles; i++) {
            hs.emplace_back(new Semaphore);
            // a later open must not change the value
            if (!hs[i]->open(name, i == 0 ? init : (int)r.below(9)) || !hs[i]->valid()) { viol("sem-open-failed", name, "C07"); return; }
        }
        if (!Semaphore::IsExist(name)) viol("isexist-misses", name, "C07");
        std::atomic<int64_t> released{init}, taken{0};
        std::atomic<bool> bad{false};
        perturb((int)r.below(4), r.next());
        uint64_t sd = r.next();
        parallel(threads, [&](int t) {
            Rng q(sd + t);
            for (int i = 0; i < 300; i++) {
                Semaphore& s = *hs[q.below(hs.size())];
                if (q.chance(1, 2)) { released.fetch_add(1); s.release(); }
                else {
                    bool ok = s.wait((int64_t)(q.chance(1, 2) ? 0 : q.below(3)));
                    if (ok && taken.fetch_add(1) + 1 > released.load()) bad = true;
                }
                if (i % 50 == 0) beat();
            }
        });
        perturb(0, 0);
        if (bad) viol("more-tokens-than-released", fmt("init %d threads %d handles %d", init, threads, handles), "C07");
        int64_t rest = released - taken, got = 0;
        while (got <= rest + 5 && hs[r.below(hs.size())]->wait((int64_t)(got < rest ? 2000 : 20))) got++;
        if (got < rest) viol("token-lost", fmt("released+initial %" PRId64 " taken %" PRId64 " drained %" PRId64, released.load(), taken.load(), got), "C07");
        if (got > rest) viol("token-made-up", fmt("released+initial %" PRId64 " taken %" PRId64 " drained %" PRId64, released.load(), taken.load(), got), "C07");
        // wake-ups: K waiters, K releases
        int K = (int)r.range(1, 8);
        std::atomic<int> woken{0}, started{0};
        std::vector<std::thread> ts;
        for (int i = 0; i < K; i++) ts.emplace_back([&, i] { started++; int m = i % 3; if (m == 0 ? hs[0]->wait((int64_t)20000) : m == 1 ? hs[handles - 1]->wait((int64_t)-1) : (hs[0]->wait(), true)) woken++; });
        waitUntil([&] { return started == K; }, 10000);
        if (r.chance(1, 2)) sleepUs(r.below(3000));
        for (int i = 0; i < K; i++) hs[r.below(hs.size())]->release();
        if (!waitUntil([&] { return woken == K; }, 15000)) { tviol("waiter-not-woken", fmt("%d of %d waiters woken", woken.load(), K), "C07"); flush(); _exit(0); }
        for (auto& t : ts) t.join();
        // exclusion
        std::string lname = name + "l";
        int64_t counter = 0;
        std::atomic<int> in{0};
        std::atomic<bool> over{false};
        uint64_t sd2 = r.next();
        perturb((int)r.below(4), r.next());
        parallel(6, [&](int t) {
            Semaphore s;
            Rng q(sd2 + t);
            s.open(lname, 1, 1);
            for (int i = 0; i < 60; i++) {
                bool ok = true;
                if (q.chance(1, 3)) s.wait();
                else ok = s.wait((int64_t)(q.chance(1, 2) ? 20000 : q.below(3)));
                if (!ok) continue;
                if (in.fetch_add(1)) over = true;
                counter++;
                in.fetch_sub(1);
                s.release();
            }
            s.close();
            // a closed handle does nothing
            if (s.valid()) viol("closed-handle-valid", "", "C07");
            s.release();
            if (s.wait((int64_t)0)) viol("closed-handle-waits", "wait on a closed handle succeeds", "C07");
        });
        perturb(0, 0);
        if (over) viol("lock-not-exclusive", "two threads inside a semaphore of value 1", "C07");
        Semaphore l;
        l.open(lname, 1, 1);
        if (!l.wait((int64_t)5000)) viol("token-lost", "lock semaphore not free at the end", "C07");
        if (l.wait((int64_t)5)) viol("token-made-up", "lock semaphore free twice at the end", "C07");
        l.close();
        for (auto& h : hs) h->close();
        // closing does not lose the tokens of a name that stays
        Semaphore again;
        again.open(name, 7);
        if (again.wait((int64_t)0)) viol("reopen-resets-value", "tokens appear after closing and opening again", "C07");
        again.close();
        shm_unlink(("/sem." + name).c_str());
        shm_unlink(("/sem." + lname).c_str());
        if (Semaphore::IsExist(name)) viol("isexist-after-unlink", name, "C07");
        eval(threads * 300 + K + 360);
        distinct(fmt("%d %d %d %" PRId64, init, threads, handles, taken.load()));
        stat("tokens_released", released.load());
        stat("tokens_taken", taken.load() + got);
        stat("waiters_woken", K);
        sample(fmt("init %d threads %d handles %d released %" PRId64 " taken %" PRId64 " drained %" PRId64, init, threads, handles, released.load(), taken.load(), got));
    }
}

// across processes: a lock and a token count
namespace {
struct SemCtl { std::atomic<int> go, in, over; std::atomic<int64_t> released, taken, excess; int64_t plain; std::atomic<int64_t> locked; };
}
SCENARIO(sem_child) {
    SemCtl* c = sharedFile<SemCtl>("semctl", false);
    Rng r(args.seed);
    Semaphore lock, tok;
    if (!lock.open(args.rest[0] + "L", 1, 1) || !tok.open(args.rest[0] + "T", 0)) { viol("sem-open-failed", "child", "C07"); return; }
    perturb((int)r.below(4), r.next());
    while (!c->go.load()) sleepUs(50);
    for (int i = 0; i < 400; i++) {
        bool ok = true;
        if (r.chance(1, 4)) lock.wait();
        else ok = lock.wait((int64_t)(r.chance(1, 3) ? r.below(3) : 30000));
        if (ok) {
            if (c->in.fetch_add(1)) c->over = 1;
            c->plain = c->plain + 1;
            c->locked.fetch_add(1);
            c->in.fetch_sub(1);
            lock.release();
        }
        if (r.chance(1, 2)) { c->released.fetch_add(1); tok.release(); }
        else if (tok.wait((int64_t)r.below(2)) && c->taken.fetch_add(1) + 1 > c->released.load()) c->excess = 1;
        if (i % 20 == 0) beat();
    }
    lock.close();
    tok.close();
}
SCENARIO(sem_procs) {
    Rng r(args.seed);
    SemCtl* c = sharedFile<SemCtl>("semctl", true);
    for (int round = 0; round < 5 * args.scale && !violated(); round++) {
        memset((void*)c, 0, sizeof *c);
        std::string base = chan(fmt("sp%d", round));
        std::vector<pid_t> pids;
        int n = (int)r.range(2, 6);
        for (int i = 0; i < n; i++) pids.push_back(spawn("sem_child", r.next() >> 8, 1, {base}));
        sleepMs(20);
        c->go = 1;
        for (auto p : pids) expectExit(reap(p, 60000), "sem_child", "C07");
        if (c->over || c->plain != c->locked) viol("lock-not-exclusive", fmt("%d processes: counted %" PRId64 " of %" PRId64, n, c->plain, c->locked.load()), "C07,C06");
        if (c->excess) viol("more-tokens-than-released", fmt("%d processes", n), "C07");
        Semaphore tok;
        tok.open(base + "T", 0);
        int64_t rest = c->released - c->taken, got = 0;
        while (got <= rest + 3 && tok.wait((int64_t)(got < rest ? 2000 : 10))) got++;
        if (got != rest) viol(got < rest ? "token-lost" : "token-made-up", fmt("%d processes: rest %" PRId64 " drained %" PRId64, n, rest, got), "C07");
        tok.close();
        shm_unlink(("/sem." + base + "T").c_str());
        shm_unlink(("/sem." + base + "L").c_str());
        eval(n * 800);
        distinct(fmt("%d %" PRId64 " %" PRId64, n, c->locked.load(), c->taken.load()));
        stat("process_rounds");
        beat("sem_procs");
    }
}

// The in-process event.
SCENARIO(event_model) {
    using veigar::Event;
    Rng r(args.seed);
    for (int round = 0; round < 200 * args.scale && !violated(); round++) {
        bool set = r.chance(1, 2), canc = false;
        Event e(set);
        std::string tr = set ? "new(1) " : "new(0) ";
        for (int i = 0; i < 40; i++) {
            int op = (int)r.below(8);
            if (op == 0) { e.set(); set = true; tr += "set "; }
            else if (op == 1) { e.unset(); set = false; tr += "unset "; }
            else if (op == 2) { e.cancel(); canc = true; tr += "cancel "; }
            else if (op == 3) { e.unCancel(); canc = false; tr += "unCancel "; }
            else if (op == 4) { e.reset(); set = canc = false; tr += "reset "; }
            else if (op == 5) { if (e.isSet() != set) { viol("event-isset", tr, "C07"); break; } }
            else if (op == 6) { if (e.isCancelled() != canc) { viol("event-iscancelled", tr, "C07"); break; } }
            else {
                int64_t ms = (set || canc) ? (int64_t)(r.chance(1, 4) ? -1 : r.range(0, 5000)) : (int64_t)r.below(3);
                auto o = timed([&] { return e.wait(ms); });
                tr += fmt("wait(%" PRId64 ") ", ms);
                if (o.ok != (set || canc)) { viol("event-wait-result", tr, "C07"); break; }
                if (!o.ok && o.ms < ms - 1) { viol("event-gives-up-early", tr, "C07"); break; }
                if (o.ok && o.ms > kLate) { tviol("event-wait-late", tr, "C07"); break; }
            }
            eval();
        }
        distinct(tr);
        beat("event_model");
    }
    // waiters
    for (int round = 0; round < 60 * args.scale && !violated(); round++) {
        Event e;
        int K = (int)r.range(1, 6);
        bool byCancel = r.chance(1, 3);
        std::atomic<int> started{0}, back{0}, wrong{0};
        std::atomic<bool> fired{false};
        uint64_t sd = r.next();
        perturb((int)r.below(4), r.next());
        std::vector<std::thread> ts;
        for (int i = 0; i < K; i++) ts.emplace_back([&, i] {
            Rng q(sd + i);
            int64_t ms = q.chance(1, 2) ? -1 : q.chance(1, 2) ? 60000 : 3000000000000ll;
            started++;
            bool ok = e.wait(ms);
            if (!ok || !fired.load()) wrong++;
            back++;
        });
        waitUntil([&] { return started == K; }, 10000);
        if (r.chance(2, 3)) sleepUs(r.below(20000));
        if (back.load() && !fired.load()) viol("event-wait-does-not-wait", fmt("%d of %d waits returned before set", back.load(), K), "C07");
        fired = true;
        if (byCancel) e.cancel(); else e.set();
        if (!waitUntil([&] { return back == K; }, 15000)) { tviol("event-waiter-not-woken", fmt("%d of %d", back.load(), K), "C07"); flush(); _exit(0); }
        perturb(0, 0);
        if (wrong) viol("event-wait-result", fmt("%d of %d waiters returned wrongly", wrong.load(), K), "C07");
        for (auto& t : ts) t.join();
        eval(K);
        stat("event_waiters", K);
        beat("event_wake");
    }
    // time limits
    parallel(12, [&](int i) {
        int64_t ms[] = {0, 1, 10, 50, 120, 300, 500, 700, 990, 1000, 1100, 1400};
        Event e;
        auto o = timed([&] { return e.wait(ms[i]); });
        if (o.ok) viol("event-wait-result", fmt("wait(%" PRId64 ") on an unset event succeeds", ms[i]), "C07");
        else if (o.ms < ms[i] - 1) viol("event-gives-up-early", fmt("wait(%" PRId64 ") after %" PRId64, ms[i], o.ms), "C07");
        else if (o.ms > ms[i] + kLate) tviol("event-wait-late", fmt("wait(%" PRId64 ") after %" PRId64, ms[i], o.ms), "C07");
        eval();
    });
    // hand-over through two events: no signal may get lost
    for (int round = 0; round < 6 * args.scale && !violated(); round++) {
        Event a, b;
        std::atomic<int> n{0};
        perturb((int)r.below(4), r.next());
        int N = 400;
        std::thread t([&] { for (int i = 0; i < N; i++) { a.wait(-1); a.unset(); n++; b.set(); } });
        for (int i = 0; i < N; i++) {
            a.set();
            if (!b.wait(20000)) { tviol("event-signal-lost", fmt("hand-over %d", i), "C07"); flush(); _exit(0); }
            b.unset();
        }
        t.join();
        perturb(0, 0);
        if (n != N) viol("event-handover", fmt("%d of %d", n.load(), N), "C07");
        eval(N);
        beat("event_handover");
    }
}
