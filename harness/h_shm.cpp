// C25: shared memory segments against a model of names and segments; failing system calls.
#include "vh.h"
#include "proc.h"
#include "shared_memory.h"
#include <deque>
#include <sys/statvfs.h>
#include <sys/vfs.h>
using namespace vh;
using veigar::SharedMemory;

namespace {
struct Seg { int64_t size; int id; std::map<int64_t, uint8_t> marks; };
struct Handle {
    std::unique_ptr<SharedMemory> sm;
    int name;
    int64_t size;
    std::shared_ptr<Seg> seg;   // null = closed
    bool creator = false;
};
struct World {
    std::vector<std::string> names;
    std::vector<std::shared_ptr<Seg>> linked;   // per name
    std::vector<Handle> hs;
    std::string trace;
    int nextId = 1;
    bool exists(int n) {
        struct stat st;
        return stat(("/dev/shm/" + names[n]).c_str(), &st) == 0;
    }
};
const char* P = "C25";

bool mark(World& w, Handle& h, Rng& r) {
    // through one handle write, through all others of the segment read
    int64_t offs[] = {0, h.size - 1, (int64_t)r.below(h.size), h.size / 2};
    for (int64_t o : offs) {
        uint8_t v = (uint8_t)r.next();
        h.sm->data()[o] = v;
        h.seg->marks[o] = v;
    }
    for (auto& g : w.hs) {
        if (!g.seg) continue;
        for (auto& m : g.seg->marks) {
            if (m.first >= g.size) continue;
            if (g.sm->data()[m.first] != m.second) {
                viol(g.seg == h.seg ? "handles-see-different-bytes" : "segments-share-bytes", fmt("offset %" PRId64 " ", m.first) + w.trace, P);
                return false;
            }
        }
        stat("views_compared");
    }
    return true;
}

bool invariants(World& w, int fd0) {
    int open = 0;
    for (auto& h : w.hs) {
        if (h.sm->valid() != (bool)h.seg) { viol("valid-wrong", fmt("valid()=%d ", h.sm->valid()) + w.trace, P); return false; }
        open += (bool)h.seg;
        if (h.seg && !h.sm->data()) { viol("no-data", w.trace, P); return false; }
        if (!h.seg && h.sm->data()) { viol("data-after-close", w.trace, P); return false; }
    }
    for (size_t i = 0; i < w.names.size(); i++) {
        if (w.exists((int)i) != (bool)w.linked[i]) {
            viol(w.linked[i] ? "name-removed-too-early" : "name-left-behind", w.names[i] + " " + w.trace, P);
            return false;
        }
    }
    int fds = fdCount() - fd0, maps = (int)mapCount(prefix());
    if (fds != open) { viol(fds > open ? "fd-leak" : "fd-closed-too-early", fmt("%d descriptors for %d open handles ", fds, open) + w.trace, P); return false; }
    if (maps != open) { viol(maps > open ? "mapping-leak" : "mapping-missing", fmt("%d mappings for %d open handles ", maps, open) + w.trace, P); return false; }
    return true;
}

int64_t rndSize(Rng& r) {
    static const int64_t s[] = {1, 8, 100, 4095, 4096, 4097, 8192, 10000, 65536, 1 << 20};
    return s[r.below(10)];
}
}  // namespace

SCENARIO(shm_model) {
    Rng r(args.seed);
    bool faults = !args.rest.empty();
    for (int round = 0; round < 60 * args.scale && !violated(); round++) {
        beat("shm_model");
        World w;
        int nn = (int)r.range(1, 3), nh = (int)r.range(1, 6);
        for (int i = 0; i < nn; i++) { w.names.push_back(chan(fmt("m%d_%d", round, i))); w.linked.push_back(nullptr); }
        for (int i = 0; i < nh; i++) {
            Handle h;
            h.name = (int)r.below(nn);
            h.size = rndSize(r);
            h.sm.reset(new SharedMemory(w.names[h.name], h.size));
            w.trace += fmt("h%d=(%d,%" PRId64 ") ", i, h.name, h.size);
            w.hs.push_back(std::move(h));
        }
        int fd0 = fdCount();
        bool good = true;
        for (int i = 0; i < 60 && good; i++) {
            int hi = (int)r.below(nh);
            Handle& h = w.hs[hi];
            int op = (int)r.below(10);
            bool armed = false;
            int fop = 0;
            auto leave = [&] {   // creating or opening through a handle that is open closes it first
                if (h.creator && h.seg && w.linked[h.name] == h.seg) w.linked[h.name] = nullptr;
                h.seg = nullptr;
                h.creator = false;
            };
            if (op <= 5) {
                if (h.seg && r.chance(4, 5)) continue;
                if (faults && r.chance(1, 3)) {
                    static const int fo[] = {F_SHM_OPEN, F_FTRUNCATE, F_FALLOCATE, F_MMAP};
                    static const int er[] = {EMFILE, ENOSPC, ENOSPC, ENOMEM};
                    int k = (int)r.below(4);
                    fop = fo[k];
                    faultArm(fop, 0, er[k]);
                    armed = true;
                }
            }
            if (op <= 2) {
                leave();
                auto before = w.linked[h.name];
                bool ok = h.sm->create();
                bool fired = armed && faultFired();
                faultArm(-1, 0, 0);
                w.trace += fmt("create%d=%d%s ", hi, ok, fired ? "(fault)" : "");
                if (fired) stat("faults_create");
                if (!ok && !fired) { viol("create-failed", w.trace, P); good = false; break; }
                if (ok) {
                    // a new segment under the name, or - if the implementation reuses - never one in which our
                    // bytes would be short
                    h.seg = std::make_shared<Seg>();
                    h.seg->size = h.size;
                    h.seg->id = w.nextId++;
                    h.creator = true;
                    w.linked[h.name] = h.seg;
                    stat(before ? "created_over" : "created");
                }
                else {
                    // what the name refers to after a failed replacement of somebody else's segment is not specified
                    if (before && !w.exists(h.name)) w.linked[h.name] = nullptr;
                }
            }
            else if (op <= 5) {
                leave();
                bool expect = w.linked[h.name] && w.linked[h.name]->size >= h.size;
                bool ok = h.sm->open();
                bool fired = armed && faultFired();
                faultArm(-1, 0, 0);
                w.trace += fmt("open%d=%d%s ", hi, ok, fired ? "(fault)" : "");
                if (fired) stat("faults_open");
                if (ok != expect && !(fired && !ok)) {
                    viol(ok ? (w.linked[h.name] ? "open-of-smaller-segment" : "open-of-missing-segment") : "open-failed", w.trace, P);
                    good = false;
                    break;
                }
                if (ok) { h.seg = w.linked[h.name]; h.creator = false; stat("opened"); }
                else stat(w.linked[h.name] ? "refused_smaller" : "refused_missing");
            }
            else if (op <= 7) {
                if (!h.seg && r.chance(2, 3)) continue;
                h.sm->close();
                w.trace += fmt("close%d ", hi);
                stat(h.seg ? (h.creator ? "closed_creator" : "closed_other") : "closed_again");
                if (h.creator && h.seg && w.linked[h.name] == h.seg) w.linked[h.name] = nullptr;
                h.seg = nullptr;
                h.creator = false;
            }
            else if (h.seg) { good = mark(w, h, r); stat("marked"); }
            eval();
            if (good) good = invariants(w, fd0);
            std::string st;
            for (auto& g : w.hs) st += g.seg ? fmt("%d%s%d.", g.name, g.creator ? "C" : "o", w.linked[g.name] == g.seg) : "-.";
            distinct(st + fmt("|%d", op));
            if (w.trace.size() > 900) w.trace.erase(0, 300);
        }
        if (good && round % 10 == 0) sample(w.trace.substr(0, 280));
        faultArm(-1, 0, 0);
        // every handle closed: nothing remains
        for (auto& h : w.hs) if (good) h.sm->close();
        if (good) {
            for (size_t i = 0; i < w.names.size(); i++)
                if (w.exists((int)i)) {
                    bool legit = false;   // a failed replacement
                    if (w.linked[i]) { bool own = false; for (auto& h : w.hs) own = own || (h.creator && h.seg == w.linked[i]); legit = !own; }
                    if (!legit) { viol("name-left-behind", "after closing all handles: " + w.trace, P); break; }
                }
            if (!settles(fdCount, fd0)) viol("fd-leak", "after closing all handles: " + w.trace, P);
            if (mapCount(prefix()) != 0) viol("mapping-leak", "after closing all handles: " + w.trace, P);
        }
        for (auto& n : w.names) shm_unlink(("/" + n).c_str());
    }
}

// Requests that cannot be satisfied fail and leave nothing; segments seen by another process.
SCENARIO(shm_edges) {
    Rng r(args.seed);
    struct E { std::string name; int64_t size; bool can; };
    std::vector<E> es = {
        {chan("z0"), 0, false}, {chan("z1"), -1, false}, {chan("z2"), -4096, false}, {chan("z3"), (int64_t)1 << 62, false},
        {chan("z4"), INT64_MAX, false}, {chan("z4b"), INT64_MIN, false}, {chan("a/b"), 100, false}, {chan(std::string(300, 'n')), 100, false}, {"", 100, false},
        {chan("ok name with spaces"), 100, true}, {chan(std::string(180, 'n')), 100, true}, {chan("dots.and-dashes_%s%n"), 5000, true},
        {chan("\xc3\xa4\xe4\xbd\xa0"), 5000, true},
    };
    for (auto& e : es) {
        beat("shm_edges");
        for (int k = 0; k < 2; k++) {
            int fd0 = fdCount();
            auto before = shmEntries(prefix()).size();
            SharedMemory m(e.name, e.size);
            bool ok = k == 0 ? m.create() : m.open();
            eval();
            distinct(e.name.substr(0, 40) + fmt("%" PRId64 "%d", e.size, k));
            std::string ctx = fmt("%s(\"%s\", %" PRId64 ")", k ? "open" : "create", e.name.substr(0, 40).c_str(), e.size);
            if (k == 0 && ok != e.can) viol(ok ? "impossible-create-succeeds" : "create-failed", ctx, P);
            if (k == 1 && ok) viol("open-of-missing-segment", ctx, P);
            if (!ok) {
                if (m.valid() || m.data()) viol("valid-after-failure", ctx, P);
                if (shmEntries(prefix()).size() != before && e.size != 0) viol("name-left-behind", ctx, P);
                if (!settles(fdCount, fd0)) viol("fd-leak", ctx, P);
                if (mapCount(prefix()) != 0) viol("mapping-leak", ctx, P);
            }
            else {
                memset(m.data(), 7, (size_t)e.size);
                SharedMemory o(e.name, e.size);
                if (!o.open()) viol("open-failed", ctx, P);
                else { if (o.data()[e.size - 1] != 7) viol("handles-see-different-bytes", ctx, P); o.close(); }
                m.close();
                if (o.open()) { viol("name-left-behind", ctx, P); o.close(); }
            }
            stat(ok ? "edge_accepted" : "edge_refused");
        }
    }
}

SCENARIO(shm_child) {   // opens by name, checks the pattern, writes its own, closes; must not remove the name
    SharedMemory m(args.rest[0], atoll(args.rest[1].c_str()));
    if (!m.open()) { viol("open-failed", "in another process", P); return; }
    int64_t n = atoll(args.rest[1].c_str());
    for (int64_t i = 0; i < n; i++) if (m.data()[i] != (uint8_t)(i * 7 + 1)) { viol("processes-see-different-bytes", fmt("offset %" PRId64 " of %" PRId64, i, n), P); break; }
    for (int64_t i = 0; i < n; i++) m.data()[i] = (uint8_t)(i * 5 + 3);
    if (args.rest[2] == "close") m.close();
    else if (args.rest[2] == "die") { flush(); kill(getpid(), SIGKILL); }
}
SCENARIO(shm_procs) {
    Rng r(args.seed);
    for (int i = 0; i < 15 * args.scale && !violated(); i++) {
        beat("shm_procs");
        int64_t n = rndSize(r);
        std::string name = chan(fmt("pr%d", i));
        SharedMemory m(name, n);
        if (!m.create()) { viol("create-failed", name, P); return; }
        for (int64_t k = 0; k < n; k++) m.data()[k] = (uint8_t)(k * 7 + 1);
        static const char* how[] = {"close", "die", "exit"};
        int h = (int)r.below(3);
        int64_t want = r.chance(1, 2) ? n : r.range(1, n);
        pid_t p = spawn("shm_child", 1, 1, {name, std::to_string(want), how[h]});
        int st = reap(p, 30000);
        if (!(h == 1 && st == -SIGKILL)) expectExit(st, "shm_child", P);
        for (int64_t k = 0; k < want; k++) if (m.data()[k] != (uint8_t)(k * 5 + 3)) { viol("processes-see-different-bytes", fmt("offset %" PRId64, k), P); break; }
        struct stat sb;
        if (stat(("/dev/shm/" + name).c_str(), &sb) != 0) viol("name-removed-too-early", "by another process that opened it", P);
        m.close();
        if (stat(("/dev/shm/" + name).c_str(), &sb) == 0) viol("name-left-behind", "after the creator closed", P);
        eval();
        distinct(fmt("%" PRId64 "/%" PRId64 "/%s", n, want, how[h]));
        stat("process_pairs");
    }
}

// More than the machine's shared memory can hold: refused, with nothing left behind and what existed still working.
SCENARIO(shm_big) {
    Rng r(args.seed);
    struct statvfs vf;
    struct statfs sf;
    if (statvfs("/dev/shm", &vf) != 0 || statfs("/dev/shm", &sf) != 0 || sf.f_type != 0x01021994 || !vf.f_blocks) { stat("no_limit_known"); return; }
    int64_t total = (int64_t)vf.f_blocks * (int64_t)vf.f_frsize;
    int64_t sizes[] = {total + (1 << 20), total * 2, total + r.range(1 << 20, total), INT64_MAX / 4096 * 4096, INT64_MAX};
    for (int64_t n : sizes) {
        beat("shm_big");
        std::string name = chan("big");
        int fd0 = fdCount(), maps0 = (int)mapCount(prefix());
        SharedMemory other(chan("other"), 5000);
        if (!other.create()) { viol("create-failed", "other", P); return; }
        other.data()[4999] = 7;
        SharedMemory m(name, n);
        bool ok = m.create();
        eval();
        std::string what = fmt("%" PRId64 " bytes, %" PRId64 " in all", n, total);
        if (ok) viol("create-succeeded-beyond-memory", what, P);
        else if (m.valid() || m.data()) viol("valid-wrong", what, P);
        m.close();
        if (!shmEntries(name).empty()) viol("name-left-behind", what, P);
        SharedMemory o(name, n);
        if (o.open()) viol("open-succeeded-without-segment", what, P);
        SharedMemory small(name, 5000);
        if (!small.create()) viol("create-failed", "after " + what, P);
        else {
            small.data()[4999] = 1;
            if (o.open()) viol("opened-smaller", what, P);
            small.close();
        }
        if (other.data()[4999] != 7) viol("segments-share-bytes", what, P);
        other.close();
        if (fdCount() != fd0 || (int)mapCount(prefix()) != maps0) viol("resources-left-behind", what, P);
        distinct(what);
        stat("too_big_creates");
    }
}

// Creators and openers of one name in parallel: every successful open is of a complete segment.
SCENARIO(shm_race) {
    Rng r(args.seed);
    for (int round = 0; round < 10 * args.scale && !violated(); round++) {
        beat("shm_race");
        std::string name = chan(fmt("rc%d", round));
        int64_t n = r.chance(1, 2) ? 20000 : 100;
        std::atomic<bool> stop{false};
        std::atomic<int64_t> opens{0};
        perturb((int)r.below(4), r.next());
        uint64_t sd = r.next();
        parallel(5, [&](int t) {
            Rng q(sd + t);
            if (t == 0) {
                for (int i = 0; i < 60; i++) {
                    SharedMemory m(name, n);
                    if (!m.create()) { viol("create-failed", "in parallel", P); break; }
                    m.data()[n - 1] = 1;
                    if (q.chance(1, 2)) sleepUs(q.below(300));
                    m.close();
                }
                stop = true;
            }
            else while (!stop) {
                SharedMemory m(name, n);
                if (m.open()) {
                    opens++;
                    volatile uint8_t x = m.data()[n - 1];   // SIGBUS if the segment is not complete
                    (void)x;
                    m.close();
                }
                eval();
            }
        });
        perturb(0, 0);
        distinct(fmt("%d %" PRId64, round, opens.load()));
        stat("racing_opens", opens.load());
        if (!shmEntries(name).empty()) viol("name-left-behind", "after parallel create/open", P);
    }
}
