// C05, C18: the message queue against a reference model, through several handles.
#include "vh.h"
#include "message_queue.h"
#include <deque>
using namespace vh;
using veigar::MessageQueue;

namespace {
struct Model {
    int64_t num, size;             // the creator's parameters govern
    std::deque<std::string> q;
    int64_t used = 0;
    int64_t total() const { return num * size; }
    bool fits(int64_t n) const { return (int64_t)q.size() < num && n <= total() - used; }
};

// Where the implementation may keep the front gap; used only to count which situations were visited.
struct Shape {
    int64_t front = 0;
};

struct Tail {   // the bytes between the end of the segment and the end of its last page
    uint8_t* p = nullptr;
    size_t len = 0, file = 0;
    void attach(const std::string& shmName) {
        int fd = shm_open(("/" + shmName).c_str(), O_RDWR, 0);
        if (fd < 0) return;
        struct stat st;
        if (fstat(fd, &st) == 0) {
            file = st.st_size;
            len = (file + 4095) / 4096 * 4096;
            p = (uint8_t*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p == MAP_FAILED) p = nullptr;
            else memset(p + file, 0xA5, len - file);
        }
        close(fd);
    }
    bool touched() const {
        if (!p) return false;
        for (size_t i = file; i < len; i++) if (p[i] != 0xA5) return true;
        return false;
    }
    ~Tail() { if (p) munmap(p, len); }
};

std::string rndMsg(Rng& r, int64_t n) {
    std::string s((size_t)n, 0);
    uint64_t x = r.next();
    for (int64_t i = 0; i < n; i++) { if (i % 8 == 0) x = r.next(); s[i] = (char)(x >> (8 * (i % 8))); }
    return s;
}

struct Sut {
    std::vector<std::unique_ptr<MessageQueue>> h;
    Model m;
    Shape sh;
    std::string trace;
    std::string path;
    void log(const std::string& s) { trace += s; if (trace.size() > 700) trace.erase(0, trace.size() - 500); }
    std::string ctx() { return fmt("num=%" PRId64 " size=%" PRId64 " ops=", m.num, m.size) + trace; }

    // false = violation
    bool push(Rng& r, int hi, int64_t n, bool ask) {
        if (ask && n > 0) {
            bool waitable = false;
            bool s = h[hi]->checkSpaceSufficient(n, waitable);
            if (s != m.fits(n)) { viol("checkspace-wrong", fmt("checkSpaceSufficient(%" PRId64 ")=%d model=%d ", n, s, m.fits(n)) + ctx(), "C05,C15,C18"); return false; }
            if (!s && waitable != (n <= m.total())) { viol("waitable-wrong", fmt("n=%" PRId64 " waitable=%d ", n, waitable) + ctx(), "C05,C15,C18"); return false; }
        }
        bool expect = n > 0 && m.fits(n);
        bool ok;
        std::string msg;
        if (n <= 0) {
            static char c = 'x';
            ok = h[hi]->pushBack(r.chance(1, 2) ? &c : nullptr, n);
        }
        else {
            msg = rndMsg(r, n);
            std::unique_ptr<char[]> exact(new char[(size_t)n]);   // the sanitizer sees reads past its end
            memcpy(exact.get(), msg.data(), (size_t)n);
            ok = h[hi]->pushBack(exact.get(), n);
            if (memcmp(exact.get(), msg.data(), (size_t)n)) { viol("push-changes-input", ctx(), "C05"); return false; }
        }
        log(fmt("P%d(%" PRId64 ")%s ", hi, n, ok ? "" : "!"));
        if (ok != expect) {
            viol(ok ? "push-accepted-without-space" : "push-refused-with-space", fmt("push(%" PRId64 ")=%d count=%zu used=%" PRId64 " ", n, ok, m.q.size(), m.used) + ctx(), "C05,C18");
            return false;
        }
        if (ok) {
            if (m.total() - m.used - sh.front < n) { sh.front = 0; stat("push_compacting"); }
            if (n > m.size) stat("push_larger_than_expected");
            if (n == m.total() - m.used) stat("push_exactly_fills");
            m.q.push_back(msg);
            m.used += n;
        }
        else stat(n <= 0 ? "push_empty" : (int64_t)m.q.size() == m.num ? "push_no_slot" : n > m.total() ? "push_larger_than_queue" : "push_no_bytes");
        return true;
    }
    bool pop(Rng& r, int hi, int mode) {   // mode 0 exact, 1 larger, 2 one too small, 3 zero, 4 null
        int64_t need = m.q.empty() ? 5 : (int64_t)m.q.front().size();
        int64_t cap = mode == 0 ? need : mode == 1 ? need + 1 + r.below(40) : mode == 2 ? need - 1 : 0;
        std::unique_ptr<char[]> buf(new char[(size_t)cap]);
        memset(buf.get(), 0x5c, (size_t)cap);
        int64_t written = -77;
        bool ok = h[hi]->popFront(mode == 4 ? nullptr : buf.get(), cap, written);
        log(fmt("O%d(%" PRId64 ")%s ", hi, cap, ok ? "" : "!"));
        if (m.q.empty()) {
            if (ok) { viol("pop-from-empty", ctx(), "C05,C06"); return false; }
            if (written != 0) { viol("pop-empty-size", fmt("written=%" PRId64 " ", written) + ctx(), "C05"); return false; }
            stat("pop_empty");
            return true;
        }
        if (mode >= 2) {
            if (ok) { viol("pop-into-small-buffer", fmt("need=%" PRId64 " cap=%" PRId64 " ", need, cap) + ctx(), "C05"); return false; }
            if (written != need) { viol("pop-needed-size", fmt("written=%" PRId64 " need=%" PRId64 " ", written, need) + ctx(), "C05,C18"); return false; }
            for (int64_t i = 0; i < cap; i++) if (buf[i] != 0x5c) { viol("pop-refused-but-wrote", ctx(), "C05"); return false; }
            stat("pop_small_buffer");
            return true;
        }
        if (!ok) { viol("pop-refused", fmt("need=%" PRId64 " cap=%" PRId64 " written=%" PRId64 " ", need, cap, written) + ctx(), "C05,C18"); return false; }
        if (written != need) { viol("pop-length", fmt("written=%" PRId64 " need=%" PRId64 " ", written, need) + ctx(), "C05,C18"); return false; }
        if (memcmp(buf.get(), m.q.front().data(), (size_t)need)) {
            viol("pop-content", fmt("got %s want %s ", hex(buf.get(), need, 16).c_str(), hex(m.q.front().data(), need, 16).c_str()) + ctx(), "C05,C18");
            return false;
        }
        for (int64_t i = need; i < cap; i++) if (buf[i] != 0x5c) { viol("pop-wrote-past-message", ctx(), "C05"); return false; }
        m.used -= need;
        sh.front += need;
        m.q.pop_front();
        stat("pop_ok");
        return true;
    }
    bool count(int hi) {
        int64_t n = h[hi]->msgNumber();
        if (n != (int64_t)m.q.size()) { viol("count-wrong", fmt("msgNumber=%" PRId64 " model=%zu ", n, m.q.size()) + ctx(), "C05,C18"); return false; }
        return true;
    }
    std::string state() const {
        std::string s = fmt("%" PRId64 "x%" PRId64 "@%" PRId64 ":", m.num, m.size, sh.front);
        for (auto& x : m.q) s += fmt("%zu,", x.size());
        return s;
    }
    bool drain(Rng& r) {
        while (!m.q.empty()) if (!pop(r, (int)r.below(h.size()), (int)r.below(2))) return false;
        return pop(r, 0, 1) && count(0);
    }
};

int g_serial = 0;

bool makeSut(Sut& s, int64_t n, int64_t sz, Rng& r, int extra, bool otherParams) {
    s.path = chan(fmt("q%d", g_serial++));
    s.m.num = n;
    s.m.size = sz;
    s.h.emplace_back(new MessageQueue((int32_t)n, (int32_t)sz));
    if (!s.h[0]->create(s.path)) { viol("create-failed", fmt("create %" PRId64 "x%" PRId64, n, sz)); return false; }
    for (int i = 0; i < extra; i++) {
        int64_t n2 = n, s2 = sz;
        if (otherParams) {
            n2 = r.chance(1, 3) ? n : r.chance(1, 2) ? r.range(1, 2 * n + 2) : r.range(1, 2000);
            s2 = r.chance(1, 3) ? sz : r.chance(1, 2) ? r.range(1, 2 * sz + 2) : r.range(1, 100000);
        }
        s.h.emplace_back(new MessageQueue((int32_t)n2, (int32_t)s2));
        if (!s.h.back()->open(s.path)) { viol("open-failed", fmt("open a queue of %" PRId64 "x%" PRId64 " with %" PRId64 "x%" PRId64, n, sz, n2, s2), "C18,C05"); return false; }
        s.log(fmt("[handle %d: %" PRId64 "x%" PRId64 "] ", i + 1, n2, s2));
    }
    return true;
}
void closeSut(Sut& s) {
    for (size_t i = s.h.size(); i-- > 0;) s.h[i]->close();
}

void randomRun(Rng& r, bool otherParams) {
    int64_t n, sz;
    switch (r.below(6)) {
        case 0: n = r.range(1, 3); sz = r.range(1, 6); break;
        case 1: n = r.range(1, 16); sz = r.range(1, 16); break;
        case 2: n = r.range(1, 200); sz = r.range(1, 64); break;
        case 3: n = r.range(1, 8); sz = r.range(100, 10240); break;
        case 4: n = 1; sz = r.range(1, 5000); break;
        default: n = r.range(300, 900); sz = r.range(1, 4); break;
    }
    Sut s;
    if (!makeSut(s, n, sz, r, (int)r.range(otherParams ? 1 : 0, 3), otherParams)) return;
    Tail tail;
    tail.attach(s.path + "_shm");
    int ops = (int)r.range(50, 500);
    int bias = (int)r.range(30, 70);   // towards full or empty
    bool good = true;
    int sizing = (int)r.below(4);
    for (int i = 0; i < ops && good; i++) {
        int hi = (int)r.below(s.h.size());
        if ((int)r.below(100) < bias) {
            int64_t free = s.m.total() - s.m.used, len;
            switch (r.below(10)) {
                case 0: len = free; break;
                case 1: len = free + 1; break;
                case 2: len = s.m.total() + r.range(0, 1); break;
                case 3: len = r.range(-1, 0); break;
                case 4: len = s.m.size + r.range(0, 1); break;
                case 5: len = free - r.range(0, 2); break;
                default:
                    len = sizing == 0 ? r.range(1, 3) : sizing == 1 ? r.range(1, s.m.size) : sizing == 2 ? r.range(1, 2 * s.m.size) : r.range(1, std::max<int64_t>(1, s.m.total() / 2));
            }
            if (len > (1 << 24)) len = 1;
            good = s.push(r, hi, len, r.chance(1, 2));
        }
        else good = s.pop(r, hi, r.chance(1, 5) ? (int)r.range(2, 4) : (int)r.below(2));
        if (good && r.chance(1, 4)) good = s.count((int)r.below(s.h.size()));
        distinct(s.state());
        eval();
        if (r.chance(1, 60)) bias = (int)r.range(20, 80);
        if (good && r.chance(1, 40)) {   // a handle opened in the middle
            if (s.h.size() > 1 && r.chance(1, 2)) { s.h.back()->close(); s.h.pop_back(); s.log("[close] "); }
            else {
                int64_t n2 = otherParams ? r.range(1, 500) : n, s2 = otherParams ? r.range(1, 9999) : sz;
                s.h.emplace_back(new MessageQueue((int32_t)n2, (int32_t)s2));
                if (!s.h.back()->open(s.path)) { viol("open-failed", "in the middle: " + s.ctx(), "C18,C05"); good = false; }
                s.log("[open] ");
            }
        }
    }
    if (good) good = s.drain(r);
    if (good && tail.touched()) viol("wrote-past-segment", s.ctx(), "C05,C18,C17");
    if (good) sample(fmt("%" PRId64 "x%" PRId64 " %d ops, %zu handles: ", n, sz, ops, s.h.size()) + s.trace.substr(0, 120));
    closeSut(s);
    stat("runs");
}
}  // namespace

SCENARIO(fifo_random) {
    Rng r(args.seed);
    bool other = !args.rest.empty() && args.rest[0] == "mixed";
    guardMaps(true);
    int n = 260 * args.scale;
    for (int i = 0; i < n && !violated(); i++) { beat("fifo_random"); randomRun(r, other); }
}

// Every small geometry: from every reachable situation every operation is tried, guided by visit counts.
SCENARIO(fifo_small) {
    Rng r(args.seed);
    guardMaps(true);
    for (int n = 1; n <= 4 && !violated(); n++)
        for (int sz = 1; sz <= 4 && !violated(); sz++) {
            if (n * sz > 9) continue;
            Sut s;
            if (!makeSut(s, n, sz, r, 1, false)) return;
            std::map<std::string, std::vector<int>> visits;
            int steps = 6000 * args.scale;
            bool good = true;
            int nops = (int)s.m.total() + 2 + 3;   // sizes 0..total+1, pop exact/larger/small
            for (int i = 0; i < steps && good; i++) {
                auto& v = visits[s.state()];
                if (v.empty()) v.assign(nops, 0);
                int best = (int)r.below(nops);
                for (int k = 0; k < nops; k++) if (v[k] < v[best]) best = k;
                v[best]++;
                if (v[best] == 1) distinct(s.state() + fmt("/%d", best));
                int hi = (int)r.below(2);
                if (best < s.m.total() + 2) good = s.push(r, hi, best, r.chance(1, 2));
                else good = s.pop(r, hi, best - (int)s.m.total() - 2);
                if (good) good = s.count(1 - hi);
                eval();
            }
            stat("situations", (int64_t)visits.size());
            int64_t un = 0;
            for (auto& v : visits) for (int c : v.second) un += c == 0;
            stat("untried_pairs", un);
            if (good) s.drain(r);
            closeSut(s);
            beat("fifo_small");
        }
}

// Large geometries: sizes whose products and sums exceed 32 bits, and ones that cannot exist.
SCENARIO(geometry) {
    Rng r(args.seed);
    struct G { int32_t n, s; };
    // must be refused, quickly and without leaving anything
    for (G g : {G{0, 10}, G{10, 0}, G{-1, 10}, G{10, -5}, G{INT32_MAX, INT32_MAX}, G{INT32_MIN, INT32_MIN}, G{-3, -7}, G{INT32_MAX, 1 << 20}}) {
        std::string p = chan(fmt("g%d", g_serial++));
        int fds = fdCount();
        MessageQueue q(g.n, g.s);
        bool ok = q.create(p);
        eval();
        distinct(fmt("refuse %d %d", g.n, g.s));
        if (ok) viol("impossible-geometry-accepted", fmt("%d x %d", g.n, g.s), "C18,C12");
        q.close();
        auto left = shmEntries(p);
        if (!left.empty()) viol("refused-create-left-entries", fmt("%d x %d: %s", g.n, g.s, left[0].c_str()), "C12,C25,C18");
        if (!settles(fdCount, fds)) viol("refused-create-leaks-fd", fmt("%d x %d", g.n, g.s), "C12,C25,C18");
        stat("refused_geometries");
        beat("geometry");
    }
    if (args.rest.empty()) return;
    // 2.2 GB: num*size does not fit into 31 bits
    for (G g : {G{70000, 31000}, G{3, 720000000}}) {
        beat("geometry large");
        Sut s;
        std::string what = fmt("%d x %d", g.n, g.s);
        s.path = chan(fmt("g%d", g_serial++));
        s.m.num = g.n;
        s.m.size = g.s;
        s.h.emplace_back(new MessageQueue(g.n, g.s));
        if (!s.h[0]->create(s.path)) { inconc("not enough shared memory for " + what); continue; }
        s.h.emplace_back(new MessageQueue(200, 10240));
        if (!s.h[1]->open(s.path)) { viol("open-failed", what, "C18,C05"); return; }
        bool good = true;
        for (int i = 0; i < 40 && good; i++) {
            good = s.push(r, i & 1, r.range(1, 2000000), true);
            if (good && i % 3 == 2) good = s.pop(r, (int)r.below(2), 1);
            eval();
        }
        if (good) good = s.count(0);
        // close to the limit of 2^31 bytes
        int64_t big = 700000000;
        std::vector<char> data;
        data.assign((size_t)big, 'q');
        data[0] = 'A';
        data[big - 1] = 'Z';
        int64_t pushed = 0;
        for (int i = 0; i < 3 && good; i++) {
            bool fits = s.m.fits(big);
            beat("geometry large push");
            bool ok = s.h[i & 1]->pushBack(data.data(), big);
            eval();
            if (ok != fits) { viol("large-push", fmt("%s push %d of %" PRId64 " bytes: %d, model %d", what.c_str(), i, big, ok, fits), "C18,C05"); good = false; }
            if (ok) { s.m.used += big; s.m.q.push_back(""); pushed++; }
        }
        while (good && !s.m.q.empty() && !s.m.q.front().empty()) good = s.pop(r, (int)r.below(2), 0);
        std::fill(data.begin(), data.end(), 0);
        for (int i = 0; i < pushed && good; i++) {
            int64_t w = 0;
            beat("geometry large pop");
            if (!s.h[1 - (i & 1)]->popFront(data.data(), big, w) || w != big || data[0] != 'A' || data[big - 1] != 'Z' || data[big / 2] != 'q') {
                viol("large-pop", what + fmt(" written=%" PRId64, w), "C18,C05");
                good = false;
            }
        }
        distinct("large " + what);
        stat("large_geometries");
        stat("large_messages", pushed);
        closeSut(s);
    }
}
