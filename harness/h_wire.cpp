// C10, C21, C22: real instances against peers that speak the protocol through raw queues.
#include "rpc.h"
#include "wire.h"
using namespace vh;

namespace {
Node toNode(const CallResult& r) { return fromObj(r.obj.get()); }

// What a raw call message looks like; "" if it has the documented format, else what is wrong.
std::string checkCall(const std::string& b, Node& m) {
    size_t off = 0;
    if (decode((const uint8_t*)b.data(), b.size(), off, m) != 1) return "not one MessagePack object";
    if (off != b.size()) return "bytes behind the object";
    if (m.k != Node::ARR || m.a.size() != 5) return "not an array of 5";
    if (m.a[0] != Node::uinteger(0)) return "first element is not 0";
    if (m.a[1].k != Node::STR || m.a[1].s.empty()) return "call id is not a string";
    if (m.a[2].k != Node::STR) return "caller channel is not a string";
    if (m.a[3].k != Node::STR) return "function name is not a string";
    if (m.a[4].k != Node::ARR) return "arguments are not an array";
    return "";
}
std::string checkResp(const std::string& b, Node& m) {
    size_t off = 0;
    if (decode((const uint8_t*)b.data(), b.size(), off, m) != 1) return "not one MessagePack object";
    if (off != b.size()) return "bytes behind the object";
    if (m.k != Node::ARR || m.a.size() != 4) return "not an array of 4";
    if (m.a[0] != Node::uinteger(1)) return "first element is not 1";
    if (m.a[1].k != Node::STR) return "call id is not a string";
    if (m.a[2].k != Node::NIL && m.a[2].k != Node::STR) return "the error is neither nil nor a message";
    if (m.a[2].k == Node::STR && m.a[2].s.empty()) return "empty error message";
    if (m.a[2].k == Node::STR && m.a[3].k != Node::NIL) return "both an error and a result";
    return "";
}

struct Ids {
    std::mutex m;
    std::set<std::string> seen;
    void add(const std::string& id, const char* prop = "C21,C22,C01") {
        std::lock_guard<std::mutex> lg(m);
        if (!seen.insert(id).second) viol("call-id-repeated", id, prop);
    }
};

// A real caller, a raw callee. Every call made is described by (function name, expected arguments, planned answer).
struct Plan { Node args; Node result; std::string error; int behave = 0; };
// Not a response, but with the id of a call that waits for one.
Node noResponse(Rng& r, const Node& call) {
    static const uint64_t flags[] = {0, 0, 2, 3, 127, 128, 255, 256, 257, 65537, 4294967297ull};
    Node n = respNode(call.a[1].s, r.chance(1, 3) ? Node::str("no response") : Node::nil(), r.chance(1, 2) ? Node::str("no response") : Node::uinteger(~0ull - 7));
    switch (r.below(7)) {
        case 0: return call;
        case 1: n.a[0] = Node::str("1"); break;
        case 2: n.a[0] = Node::nil(); break;
        case 3: n.a[0] = Node::integer(-1); break;
        default: n.a[0] = Node::uinteger(r.pick(flags)); break;
    }
    return n;
}
struct RawServer {
    RawPeer p;
    Ids* ids;
    std::string callerName;
    std::mutex m;
    std::map<std::string, Plan> plans;   // by function name
    std::map<std::string, RawQueue> out;
    Rng r{1};
    std::atomic<bool> stop{false};
    std::atomic<int64_t> served{0};
    std::vector<std::string> later;      // responses to send out of order
    void respond(const std::string& bytes) {
        auto it = out.find(callerName);
        if (it == out.end()) {
            it = out.emplace(std::piecewise_construct, std::forward_as_tuple(callerName), std::forward_as_tuple()).first;
            if (!it->second.open(callerName + "_resp")) { viol("open-failed", "response queue of a running channel", "C21,C13"); stop = true; return; }
        }
        int rc = it->second.push(bytes);
        if (rc == -1) viol("push-refused", "response that fits", "C21,C05");
        else if (rc == 0) tviol("response-queue-stays-full", "", "C16,C10,C21,C22");
    }
    void run() {
        while (!stop) {
            std::string b;
            if (!p.call.pop(b, 20)) { flushLater(); continue; }
            Node n;
            std::string bad = checkCall(b, n);
            if (!bad.empty()) { viol("call-format", bad + ": " + hex(b.data(), b.size()), "C21"); continue; }
            if (n.a[2].s != callerName) viol("call-format", "caller channel " + n.a[2].s + " instead of " + callerName, "C21");
            ids->add(n.a[1].s);
            Plan pl;
            {
                std::lock_guard<std::mutex> lg(m);
                auto it = plans.find(n.a[3].s);
                if (it == plans.end()) { viol("call-format", "unknown function or call sent twice: " + n.a[3].s.substr(0, 50), "C21,C02"); continue; }
                pl = it->second;
                plans.erase(it);
            }
            if (!sameValue(pl.args, n.a[4])) viol("call-format", "arguments " + n.a[4].show() + " instead of " + pl.args.show(), "C21,C08");
            std::string resp = enc(respNode(n.a[1].s, pl.error.empty() ? Node::nil() : Node::str(pl.error), pl.error.empty() ? pl.result : Node::nil()), &r);
            if (r.chance(1, 4)) respond(enc(noResponse(r, n), &r));
            if (pl.behave == 1) later.push_back(resp); else respond(resp);
            if (later.size() > 12) flushLater();
            served++;
        }
    }
    void flushLater() {
        while (!later.empty()) {
            size_t i = r.below(later.size());
            respond(later[i]);
            later.erase(later.begin() + i);
        }
    }
};
}  // namespace

// C21, real caller: the calls on the wire and the meaning of the answers.
SCENARIO(wire_caller) {
    Rng r(args.seed);
    Ids ids;
    for (int round = 0; round < 3 * args.scale && !violated(); round++) {
        beat("wire_caller");
        Veigar a;
        RawServer s;
        s.ids = &ids;
        s.r = Rng(r.next());
        // the same channel name in every round: ids must not come back
        s.callerName = longChan(r, r.chance(1, 4) ? "c\xc3\xa4 l%d" : "caller");
        if (!s.p.create(longChan(r, fmt("rp%d", round)), (int)r.range(60, 600), (int)r.range(3000, 5000))) { viol("create-failed", "", "C05,C25"); return; }
        if (!up(a, s.callerName, (uint32_t)r.range(3, 200), 5000)) { viol("init-failed", "", "C12"); return; }
        std::thread st([&] { s.run(); });
        perturb((int)r.below(2), r.next());
        uint64_t sd = r.next();
        parallel(4, [&](int t) {
            Rng q(sd + t);
            std::vector<std::pair<std::shared_ptr<veigar::AsyncCallResult>, Plan>> pend;
            std::vector<std::shared_ptr<std::atomic<int>>> cbs;
            auto judge = [&](const CallResult& res, const Plan& pl, const std::string& what) {
                std::string d = what + ": " + show(res) + " " + toNode(res).show() + " planned " + (pl.error.empty() ? pl.result.show() : pl.error);
                if (pl.error.empty()) {
                    if (!res.isSuccess()) viol("answered-call-failed", d, "C21,C22,C03,C16");
                    else if (toNode(res) != pl.result) viol("wrong-result", d, "C21,C22,C08,C01");
                }
                else {
                    if (res.isSuccess() || res.errCode != ErrorCode::SUCCESS) viol("error-response-not-an-error", d, "C21,C09");
                    else if (res.errorMessage != pl.error) viol("wrong-error-text", d, "C21,C09,C22");
                }
            };
            for (int i = 0; i < 60 && !violated(); i++) {
                std::string fn = fmt("t%d_%d", t, i) + (q.chance(1, 6) ? randStr(q, 60) : q.chance(1, 6) ? "%s" : "");
                Plan pl;
                pl.behave = q.chance(1, 4);
                pl.result = randNode(q, 3, 400);
                if (q.chance(1, 5)) pl.error = "E" + randStr(q, 100);
                int style = (int)q.below(3);
                auto go = [&](std::vector<Node> exp, auto... av) {
                    pl.args = Node::arr(std::move(exp));
                    { std::lock_guard<std::mutex> lg(s.m); s.plans[fn] = pl; }
                    if (style == 0) { CallResult res = a.syncCall(s.p.name, 25000, fn, av...); judge(res, pl, fn); }
                    else if (style == 1) pend.emplace_back(a.asyncCall(s.p.name, 25000, fn, av...), pl);
                    else {
                        auto c = std::make_shared<std::atomic<int>>(0);
                        cbs.push_back(c);
                        a.asyncCall([c, pl, fn, judge](const CallResult& res) { judge(res, pl, fn); (*c)++; }, s.p.name, 25000, fn, av...);
                    }
                };
                uint64_t u = randBits(q);
                int64_t sg = (int64_t)randBits(q);
                std::string st = randStr(q, 700);
                std::vector<uint8_t> bytes(st.begin(), st.end());
                double d = (double)sg / 3;
                switch (q.below(9)) {
                    case 0: go({}); break;
                    case 1: go({Node::uinteger(u)}, u); break;
                    case 2: go({Node::integer(sg), Node::str(st)}, sg, st); break;
                    case 3: go({Node::bin(st)}, bytes); break;
                    case 4: go({Node::f64(d), Node::f32((float)d), Node::boolean(u & 1)}, d, (float)d, (bool)(u & 1)); break;
                    case 5: go({Node::arr({Node::integer((int)sg), Node::integer(-3)}), Node::nil()}, std::vector<int>{(int)sg, -3}, veigar_msgpack::type::nil_t()); break;
                    case 6: { std::map<std::string, uint64_t> mm{{"k", u}, {"l", 2}}; go({Node::map({Node::str("k"), Node::uinteger(u), Node::str("l"), Node::uinteger(2)})}, mm); break; }
                    case 7: go({Node::arr({Node::integer(1), Node::str("x")}), Node::arr({Node::arr({}), Node::arr({Node::str(st)})})}, std::make_pair(1, std::string("x")), std::vector<std::vector<std::string>>{{}, {st}}); break;
                    default: go({Node::integer((int8_t)sg), Node::uinteger((uint8_t)u), Node::integer((short)sg), Node::uinteger((uint16_t)u), Node::integer((int)sg), Node::uinteger((uint32_t)u)},
                                (int8_t)sg, (uint8_t)u, (short)sg, (uint16_t)u, (int)sg, (uint32_t)u); break;
                }
                distinct(fmt("%d %s", style, pl.error.empty() ? fmt("%d", pl.result.k).c_str() : "error") + std::to_string(pl.result.a.size()));
                eval();
            }
            for (auto& p : pend) {
                if (p.first->second.wait_for(std::chrono::seconds(40)) != std::future_status::ready) { tviol("future-never-ready", "answered by a raw peer", "C21,C03,C16,C22"); break; }
                CallResult res = p.first->second.get();
                judge(res, p.second, "promise");
                a.releaseCall(p.first->first);
            }
            for (auto& c : cbs) if (!waitUntil([&] { return *c == 1; }, 40000)) { tviol(*c ? "completed-twice" : "callback-never-invoked", "answered by a raw peer", "C21,C03,C16,C22"); break; }
        });
        perturb(0, 0);
        s.stop = true;
        st.join();
        stat("calls_decoded", s.served);
        a.uninit();
        sample(fmt("%" PRId64 " calls decoded from the queue, %zu ids in all", s.served.load(), ids.seen.size()));
    }
}

// C21, real callee: raw calls in any valid encoding, the responses on the wire.
SCENARIO(wire_callee) {
    Rng r(args.seed);
    for (int round = 0; round < 3 * args.scale && !violated(); round++) {
        beat("wire_callee");
        Veigar b;
        ExecLog* log = localLog();
        Callee cb;
        cb.v = &b; cb.chanId = 5; cb.log = log;
        cb.bindAll();
        std::map<std::string, Node> seen;
        std::mutex sm;
        b.bind("zero", [&]() -> std::string { return "zero!"; });
        b.bind("voidzero", [&]() { });
        if (!up(b, longChan(r, fmt("wb%d", round)), (uint32_t)r.range(3, 100), 6000)) { viol("init-failed", "", "C12"); return; }
        RawPeer p[2];
        for (int i = 0; i < 2; i++) if (!p[i].create(longChan(r, fmt("wr%d_%d", round, i)), 700, 3000)) { viol("create-failed", "", "C05,C25"); return; }
        RawQueue q;
        if (!q.open(b.channelName() + "_call")) { viol("open-failed", "", "C21,C13"); return; }
        struct E { int peer; uint64_t tok; int kind; Node res; std::string fn; };
        std::map<std::string, E> exp;
        std::map<std::string, uint64_t> noCalls;
        perturb((int)r.below(2), r.next());
        int n = 250;
        for (int i = 0; i < n; i++) {
            E e;
            e.peer = (int)r.below(2);
            e.tok = log->next++;
            std::string id = fmt("%d.", i) + randStr(r, 2000) + (r.chance(1, 2) ? std::string("-0-f\0x", 6) : "");
            std::vector<Node> av{Node::uinteger(e.tok)};
            uint64_t a = randBits(r);
            std::string st = randStr(r, 1500);
            e.kind = 0;
            switch (r.below(12)) {
                case 0: case 1: { int f = (int)r.below(numFuncs().size()); e.fn = numFuncs()[f]; av.push_back(Node::uinteger(a)); e.res = Node::uinteger(expectNum(e.tok, a, 5, f)); break; }
                case 2: e.fn = "str"; av.push_back(Node::str(st)); e.res = Node::str(expectStr(e.tok, st, 5)); break;
                case 3: { e.fn = "vec"; av.push_back(Node::bin(st)); auto v = expectVec(e.tok, std::vector<uint8_t>(st.begin(), st.end()), 5); e.res = Node::bin(std::string(v.begin(), v.end())); break; }
                case 4: e.fn = "void"; break;
                case 5: e.fn = "throw"; e.kind = 1; break;
                case 6: e.fn = "throwInt"; e.kind = 2; break;
                case 7: e.fn = "nofunc" + std::to_string(i); e.kind = 3; break;
                case 8: e.fn = "f"; e.kind = 4; if (r.chance(1, 2)) av.push_back(Node::str("no number")); else { av.push_back(Node::uinteger(1)); av.push_back(Node::uinteger(1)); } break;
                case 9: e.fn = "f"; e.kind = 4; av.clear(); if (r.chance(1, 2)) { av = {Node::integer(-5), Node::uinteger(1)}; } break;
                case 10: e.fn = "zero"; av.clear(); e.res = Node::str("zero!"); e.kind = 5; break;
                default: e.fn = "voidzero"; av.clear(); e.kind = 5; break;
            }
            exp[id] = e;
            if (r.chance(1, 8)) {
                // not a call, but for its flag
                static const uint64_t flags[] = {1, 1, 2, 3, 127, 255, 256, 65536, 4294967296ull};
                uint64_t t = log->next++;
                Node c = callNode("no" + id, p[e.peer].name, "f", {Node::uinteger(t), Node::uinteger(a)});
                if (r.chance(1, 2)) {
                    // nor with another number of elements
                    switch (r.below(4)) {
                        case 0: c.a.pop_back(); c.a[3] = Node::str(r.chance(1, 2) ? "zero" : "voidzero"); break;
                        case 1: c.a.push_back(r.chance(1, 2) ? Node::nil() : randNode(r, 1)); break;
                        case 2: c.a.insert(c.a.begin(), Node::uinteger(0)); break;
                        default: c.a.resize(r.below(4)); break;
                    }
                    if (r.chance(1, 4)) { Node m = Node::map({}); m.a = c.a; if (m.a.size() % 2) m.a.push_back(Node::nil()); c = m; }
                }
                else c.a[0] = r.chance(1, 6) ? Node::str("0") : r.chance(1, 6) ? Node::nil() : r.chance(1, 6) ? Node::integer(-1) : Node::uinteger(r.pick(flags));
                noCalls["no" + id] = t;
                q.push(enc(c, &r));
            }
            int rc = q.push(enc(callNode(id, p[e.peer].name, e.fn, av), &r));
            if (rc == -1) viol("push-refused", "call that fits", "C21,C05");
            else if (rc == 0) tviol("call-queue-stays-full", "", "C16,C10,C15,C21");
            beat();
        }
        int got = 0;
        Deadline d(40000);
        while (got < n && !d.passed() && !violated()) for (int k = 0; k < 2; k++) {
            std::string bytes;
            if (!p[k].resp.pop(bytes, 5)) continue;
            Node m;
            std::string bad = checkResp(bytes, m);
            if (bad.empty() && noCalls.count(m.a[1].s) && m.a[2].k == Node::STR) continue;
            got++;
            if (!bad.empty()) { viol("response-format", bad + ": " + hex(bytes.data(), bytes.size()), "C21"); continue; }
            auto it = exp.find(m.a[1].s);
            if (it == exp.end()) { viol("response-id", "unknown or repeated id " + m.a[1].s.substr(0, 80), "C21,C22,C02"); continue; }
            E e = it->second;
            exp.erase(it);
            std::string dsc = e.fn + " -> " + m.show();
            if (e.peer != k) viol("response-to-wrong-channel", dsc, "C21");
            bool isErr = m.a[2].k == Node::STR;
            if (isErr != (e.kind >= 1 && e.kind <= 4)) viol("response-kind", dsc, "C21,C09");
            else if (!isErr && m.a[3] != e.res) viol("wrong-result", dsc + " expected " + e.res.show(), "C21,C01,C08");
            else if (e.kind == 1 && m.a[2].s.find(fmt("boom-%" PRIu64 "-", e.tok)) == std::string::npos) viol("wrong-error-text", dsc, "C21,C09");
            else if (e.kind == 3 && m.a[2].s.find(e.fn) == std::string::npos) viol("wrong-error-text", dsc, "C21,C09");
            int want = e.kind <= 2 ? 1 : 0;
            if (e.kind <= 4 && log->n[e.tok] != want) viol("executions", fmt("%d times: ", (int)log->n[e.tok]) + dsc, "C02,C21,C09");
            distinct(fmt("%d ", e.kind) + e.fn.substr(0, 8));
            eval();
            beat();
        }
        if (got < n && !violated()) tviol("call-never-answered", fmt("%d of %d, e.g. %s", n - got, n, exp.begin()->second.fn.c_str()), "C21,C16,C10,C09");
        std::string extra;
        for (auto& x : noCalls) if (log->n[x.second]) viol("ran-without-a-call", "a message with another flag ran its function", "C21,C02,C10");
        stat("no_calls", noCalls.size());
        if (!violated()) for (auto& k : p) while (k.resp.pop(extra, 30) && !violated()) {
            Node m;
            if (checkResp(extra, m).empty() && noCalls.count(m.a[1].s) && m.a[2].k == Node::STR) continue;
            viol("response-id", "a response too many " + hex(extra.data(), extra.size()), "C21,C02");
        }
        perturb(0, 0);
        stat("responses_decoded", got);
        sample(fmt("%d raw calls in random valid encodings, %d responses decoded", n, got));
        b.uninit();
    }
}

// C21: call ids of many processes and threads. A child calls a raw peer without waiting for answers.
SCENARIO(ids_child) {
    ExecLog* log = sharedFile<ExecLog>("ids", false);
    std::string me = args.rest[0], target = args.rest[1];
    int per = atoi(args.rest[2].c_str());
    log->ready++;
    waitUntil([&] { return log->go.load() || log->stop.load(); }, 60000);
    for (int inc = 0; inc < 2; inc++) {
        Veigar v;
        if (!up(v, me, 20, 300)) { viol("init-failed", "ids_child", "C12,C13"); break; }
        log->done += 3 * per;
        parallel(3, [&](int t) {
            for (int i = 0; i < per; i++) v.asyncCall([](const CallResult&) {}, target, 20000, t == 0 ? "f" : "g", 1);
        });
        // all must have left before the instance goes
        waitUntil([&] { return log->next.load() >= (uint32_t)log->done.load(); }, 60000);
        v.uninit();
        eval(3 * per);
    }
}
SCENARIO(wire_ids) {
    Rng r(args.seed);
    Ids ids;
    int64_t total = 0;
    for (int wave = 0; wave < 3 * args.scale && !violated(); wave++) {
        ExecLog* log = sharedFile<ExecLog>("ids", true);
        RawPeer p;
        if (!p.create(chan("idp"), 2000, 200)) { viol("create-failed", "", "C05,C25"); return; }
        int kids = (int)r.range(3, 6), per = 15;
        std::vector<pid_t> pids;
        for (int i = 0; i < kids; i++) pids.push_back(spawn("ids_child", r.next() >> 8, 1, {chan(fmt("id%d", i)), p.name, std::to_string(per)}));
        if (!waitUntil([&] { return log->ready >= kids; }, 60000)) inconc("children did not start");
        std::atomic<bool> end{false};
        std::thread dr([&] {
            std::string b;
            while (!end) {
                if (!p.call.pop(b, 20)) continue;
                log->next++;
                Node m;
                std::string bad = checkCall(b, m);
                if (!bad.empty()) { viol("call-format", bad, "C21"); continue; }
                ids.add(m.a[2].s + "\n" + m.a[1].s);
                total++;
                beat("wire_ids");
            }
        });
        log->go = 1;
        for (auto pid : pids) expectExit(reap(pid, 120000), "ids_child");
        sleepMs(30);
        end = true;
        dr.join();
        munmap((void*)log, sizeof *log);
    }
    eval(total);
    distinct(fmt("%" PRId64, total));
    stat("ids_seen", total);
    sample(fmt("%" PRId64 " call ids of processes started together and restarted under the same name", total));
}

// C21, C22, C01: a call stays pending while its instance makes very many others, with the same function name; ids never
// repeat and the pending call gets its own answer.
SCENARIO(wire_many) {
    Rng r(args.seed);
    RawPeer p;
    if (!p.create(chan("mp"), 50, 500)) { viol("create-failed", "", "C05,C25"); return; }
    Veigar a;
    if (!up(a, chan("many"), 50, 500)) { viol("init-failed", "", "C12"); return; }
    RawQueue out;
    if (!out.open(chan("many_resp"))) { viol("open-failed", "", "C13,C21"); return; }
    const int threads = 4, per = 20000 * std::min(args.scale, 20);
    struct Pend { std::shared_ptr<veigar::AsyncCallResult> r; uint64_t want; };
    std::vector<Pend> pend;
    std::set<std::string> all;
    std::mutex m;
    int64_t dup = 0;
    auto startPending = [&](const std::string& fn) {
        auto x = a.asyncCall(p.name, 100000, fn, 1);
        if (!all.insert(x->first).second) dup++;
        pend.push_back({x, r.next()});
    };
    for (int i = 0; i < 3; i++) { startPending("f"); a.asyncCall(chan("nobody"), 1000, "f", 1); startPending("g"); }
    parallel(threads, [&](int t) {
        std::vector<std::string> mine;
        for (int i = 0; i < per; i++) {
            auto x = a.asyncCall(chan("nobody"), 100000, (i & 1) ? "f" : "g", i);
            mine.push_back(x->first);
            if (i % 64 == 63) { x->second.wait(); beat("wire_many"); }   // bounds what is under way
            else if (i % 7 == 0) a.releaseCall(x->first);
        }
        std::lock_guard<std::mutex> lg(m);
        for (auto& s : mine) if (!all.insert(s).second) dup++;
    });
    if (dup) viol("call-id-repeated", fmt("%" PRId64 " of %zu ids were given twice", dup, all.size()), "C21,C22,C01");
    std::map<std::string, size_t> byId;
    for (size_t i = 0; i < pend.size(); i++) byId[pend[i].r->first] = i;
    for (size_t i = 0; i < pend.size(); i++) {
        std::string b;
        if (!p.call.pop(b, 20000)) { tviol("call-not-sent", "", "C16,C21"); break; }
        Node n;
        if (!checkNode(b, n) || n.a.size() != 5) { viol("call-format", hex(b.data(), b.size()), "C21"); break; }
        auto it = byId.find(n.a[1].s);
        if (it == byId.end()) { viol("call-id-unknown", n.a[1].s, "C21"); continue; }
        if (pend[it->second].r->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready)
            viol("pending-call-completed", "a call that was not answered is complete after many other calls", "C22,C21,C01");
        out.push(enc(respNode(n.a[1].s, Node::nil(), Node::uinteger(pend[it->second].want))));
    }
    for (auto& x : pend) {
        bool ok = waitUntil([&] { return x.r->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }, 20000);
        if (!ok) { tviol("pending-call-never-answered", x.r->first, "C22,C21,C01,C03"); continue; }
        try {
            CallResult c = x.r->second.get();
            uint64_t v = 0;
            if (!c.isSuccess() || !c.convertObject(v) || v != x.want) viol("pending-call-wrong", show(c), "C22,C21,C01");
        } catch (std::exception& e) { viol("pending-call-exception", e.what(), "C22,C21,C01,C03"); }
        distinct(x.r->first.substr(x.r->first.find('-')));
    }
    eval((int64_t)all.size());
    stat("ids_of_one_caller", (int64_t)all.size());
    sample(fmt("%zu ids of one caller, %zu calls pending meanwhile", all.size(), pend.size()));
    a.uninit();
}

// C22: late, repeated, foreign responses.
SCENARIO(wire_late) {
    Rng r(args.seed);
    for (int round = 0; round < 3 * args.scale && !violated(); round++) {
        beat("wire_late");
        RawPeer p;
        if (!p.create(chan(fmt("lp%d", round)), 600, 3000)) { viol("create-failed", "", "C05,C25"); return; }
        std::string me = chan("late");
        Veigar a;
        std::vector<std::string> oldIds;      // of calls that are over, of any incarnation
        std::mutex om;
        std::atomic<int64_t> stale{0};
        for (int inc = 0; inc < 3 && !violated(); inc++) {
            if (!up(a, me, (uint32_t)r.range(3, 100), 3000)) { viol("init-failed", "", "C12,C13"); return; }
            RawQueue out;
            if (!out.open(me + "_resp")) { viol("open-failed", "", "C13,C21"); return; }
            std::atomic<bool> stop{false};
            std::atomic<int64_t> poison{1000000000};
            uint64_t sd = r.next();
            // function names: "now<n>" answered at once with n, "dup<n>" answered and answered again with poison at once,
            // "late<n>" answered 60 ms later with poison, "never"
            std::thread st([&] {
                Rng q(sd);
                std::vector<std::pair<int64_t, std::string>> delayed;
                auto send = [&](const std::string& b) { int rc = out.push(b); if (rc == 0) tviol("response-queue-stays-full", "", "C16,C10,C22"); };
                while (!stop) {
                    std::string b;
                    bool have = p.call.pop(b, 3);
                    for (size_t i = 0; i < delayed.size();) {
                        if (nowMs() >= delayed[i].first) { send(delayed[i].second); stale++; delayed.erase(delayed.begin() + i); } else i++;
                    }
                    if (q.chance(1, 3)) {
                        // a stale id, or one that resembles it
                        std::string id;
                        { std::lock_guard<std::mutex> lg(om); if (!oldIds.empty()) id = q.pick(oldIds); }
                        if (!id.empty()) {
                            switch (q.below(8)) {
                                case 0: id += "x"; break;
                                case 1: id.pop_back(); break;
                                case 2: id = id.substr(0, id.find('-')); break;
                                case 3: id += std::string(1, '\0'); break;
                                default: break;
                            }
                            send(enc(respNode(id, q.chance(1, 3) ? Node::str("poison error") : Node::nil(), Node::integer(poison++)), &q));
                            stale++;
                        }
                    }
                    if (!have) continue;
                    Node m;
                    std::string bad = checkCall(b, m);
                    if (!bad.empty()) { viol("call-format", bad, "C21"); continue; }
                    std::string id = m.a[1].s, fn = m.a[3].s;
                    uint64_t n = m.a[4].a.empty() ? 0 : m.a[4].a[0].u;
                    auto ans = [&](uint64_t v) { return enc(respNode(id, Node::nil(), Node::uinteger(v)), &q); };
                    if (fn == "now") send(ans(n));
                    else if (fn == "dup") { send(ans(n)); delayed.emplace_back(nowMs() + (int64_t)q.below(40), ans(n)); delayed.emplace_back(nowMs() + 80 + (int64_t)q.below(40), ans(poison++)); }
                    else if (fn == "late") delayed.emplace_back(nowMs() + 60, ans(poison++));
                    else if (fn == "foreign") {
                        // an answer to another id made from this one, then the right one
                        size_t k = id.rfind('-');
                        send(enc(respNode(id.substr(0, k ? k : 1), Node::nil(), Node::uinteger(poison++)), &q));
                        send(enc(respNode(id + "x", Node::str("other"), Node::nil()), &q));
                        send(enc(respNode(std::string(1 + q.below(300), 'i') + id, Node::nil(), Node::uinteger(poison++)), &q));
                        for (int k = 0, c = (int)q.below(3); k < c; k++) send(enc(noResponse(q, m), &q));
                        send(ans(n));
                    }
                }
            });
            perturb((int)r.below(2), r.next());
            std::atomic<uint64_t> tok{1};
            std::atomic<int64_t> open{0};
            parallel(5, [&](int t) {
                Rng q(sd * 5 + t);
                struct P { std::shared_ptr<veigar::AsyncCallResult> a; uint64_t n; };
                std::vector<P> w;
                auto good = [&](const CallResult& res, uint64_t n, const char* what) {
                    Node x = toNode(res);
                    std::string d = fmt("%s %" PRIu64 ": ", what, n) + show(res) + " " + x.show();
                    if (!res.isSuccess()) viol("answered-call-failed", d, "C22,C03,C16");
                    else if (x != Node::uinteger(n)) viol("completed-by-another-response", d, "C22,C01,C21");
                };
                auto old = [&](const std::string& id) { std::lock_guard<std::mutex> lg(om); oldIds.push_back(id); if (oldIds.size() > 500) oldIds.erase(oldIds.begin()); };
                auto take = [&](size_t i) {
                    P x = w[i];
                    w.erase(w.begin() + i);
                    if (x.a->second.wait_for(std::chrono::seconds(30)) != std::future_status::ready) { tviol("future-never-ready", "answered by a raw peer", "C22,C03,C16"); return; }
                    CallResult res = x.a->second.get();
                    good(res, x.n, "promise");
                    int k = (int)q.below(4);
                    for (int j = 0; j < k; j++) a.releaseCall(x.a->first);
                    old(x.a->first);
                };
                for (int i = 0; i < 50 && !violated(); i++) {
                    uint64_t n = tok++;
                    static const char* fns[] = {"now", "now", "dup", "foreign"};
                    std::string fn = fns[q.below(4)];
                    int64_t t0 = nowMs();
                    switch (q.below(8)) {
                        case 0: case 1: { CallResult res = a.syncCall(p.name, 25000, fn, n); good(res, n, fn.c_str()); break; }
                        case 2: w.push_back({a.asyncCall(p.name, 25000, fn, n), n}); break;
                        case 3: {
                            open++;
                            auto c = std::make_shared<std::atomic<int>>(0);
                            a.asyncCall([&, c, n, fn](const CallResult& res) {
                                if (c->fetch_add(1)) viol("completed-twice", fn, "C22,C03");
                                else { good(res, n, fn.c_str()); open--; }
                            }, p.name, 25000, fn, n);
                            break;
                        }
                        case 4: {   // times out, the answer comes afterwards
                            CallResult res = a.syncCall(p.name, 40, "late", n);
                            if (res.isSuccess() && nowMs() - t0 < 55) viol("completed-by-another-response", "late " + show(res) + toNode(res).show(), "C22,C01");
                            break;
                        }
                        case 5: {   // released while pending
                            auto x = a.asyncCall(p.name, 25000, q.chance(1, 2) ? "late" : "now", n);
                            if (q.chance(1, 2)) sleepUs(q.below(3000));
                            for (int k = 0; k < 1 + (int)q.below(3); k++) a.releaseCall(x->first);
                            old(x->first);
                            break;
                        }
                        case 6: {   // released without being one's own
                            std::string id;
                            { std::lock_guard<std::mutex> lg(om); if (!oldIds.empty()) id = q.pick(oldIds); }
                            a.releaseCall(id);
                            a.releaseCall(id + "1");
                            a.releaseCall("");
                            break;
                        }
                        default: a.asyncCall([&](const CallResult& res) { if (res.isSuccess()) viol("completed-by-another-response", "never answered", "C22,C01"); }, p.name, 25000, "never", n); break;
                    }
                    eval();
                    distinct(fmt("%s %d %d", fn.c_str(), i % 5, t));
                    if (w.size() > 6) take(q.below(w.size()));
                    beat();
                }
                while (!w.empty() && !violated()) take(q.below(w.size()));
            });
            if (!waitUntil([&] { return open == 0; }, 40000)) tviol("callback-never-invoked", "answered by a raw peer", "C22,C03,C16");
            sleepMs(150);   // late ones arrive
            // the channel still works with all of its threads
            for (int i = 0; i < 20 && !violated(); i++) {
                CallResult res = a.syncCall(p.name, 25000, "now", (uint64_t)(900000 + i));
                if (!res.isSuccess() || toNode(res) != Node::uinteger(900000 + i)) viol("later-call-disturbed", show(res), "C22,C10");
            }
            auto pendingOld = a.asyncCall(p.name, 25000, "never", (uint64_t)1);
            { std::lock_guard<std::mutex> lg(om); oldIds.push_back(pendingOld->first); }
            perturb(0, 0);
            stop = true;
            st.join();
            a.uninit();
        }
        stat("stale_responses", stale);
        sample(fmt("%" PRId64 " stale or foreign responses among 750 calls of 3 incarnations", stale.load()));
    }
}

// C22: a process with the channel name of an earlier one; the answers to its calls come mixed with answers to the
// earlier one's calls.
SCENARIO(reborn_child) {
    ExecLog* log = sharedFile<ExecLog>("reborn", false);
    Veigar v;
    if (!up(v, args.rest[0], 50, 1000)) { viol("init-failed", "reborn_child", "C12,C13"); return; }
    bool last = args.rest[2] == "last";
    int n = 25;
    std::vector<std::pair<uint64_t, std::shared_ptr<veigar::AsyncCallResult>>> w;
    for (int i = 0; i < n; i++) {
        uint64_t tok = log->next++;
        w.emplace_back(tok, v.asyncCall(args.rest[1], 30000, "f", tok));
    }
    if (!last) {
        waitUntil([&] { return log->go.load() >= n; }, 30000);    // all are on the wire, no answer comes
        if (args.rest[2] == "kill") { log->ready = 1; for (;;) { sleepMs(50); beat(); } }
        v.uninit();
        eval(n);
        return;
    }
    for (auto& x : w) {
        if (x.second->second.wait_for(std::chrono::seconds(30)) != std::future_status::ready) { tviol("future-never-ready", "", "C22,C03,C13"); continue; }
        CallResult res = x.second->second.get();
        if (!res.isSuccess()) viol("answered-call-failed", show(res), "C22,C13");
        else if (toNode(res) != Node::uinteger(x.first)) viol("completed-by-another-response", fmt("token %" PRIu64 ": ", x.first) + toNode(res).show(), "C22,C01,C13,C21");
        eval();
    }
    v.uninit();
}
SCENARIO(wire_reborn) {
    Rng r(args.seed);
    for (int round = 0; round < 3 * args.scale && !violated(); round++) {
        beat("wire_reborn");
        ExecLog* log = sharedFile<ExecLog>("reborn", true);
        std::string me = chan("reborn");
        RawPeer p;
        if (!p.create(chan(fmt("bp%d", round)), 300, 500)) { viol("create-failed", "", "C05,C25"); return; }
        std::vector<std::string> poison;
        uint64_t bad = 5000000;
        for (int gen = 0; gen < 3; gen++) {
            bool last = gen == 2;
            log->go = 0;
            log->ready = 0;
            std::string how = last ? "last" : r.chance(1, 2) ? "kill" : "quit";
            pid_t pid = spawn("reborn_child", r.next() >> 8, 1, {me, p.name, how});
            std::vector<std::pair<std::string, uint64_t>> calls;
            waitUntil([&] {
                std::string b;
                if (p.call.pop(b, 10)) {
                    Node m;
                    if (checkCall(b, m).empty()) { calls.emplace_back(m.a[1].s, m.a[4].a[0].u); log->go++; }
                }
                return calls.size() >= 25;
            }, 40000);
            if (last) {
                RawQueue out;
                if (calls.size() < 25) inconc("calls of the child did not arrive");
                else if (!out.open(me + "_resp")) viol("open-failed", "", "C13,C21");
                else {
                    for (size_t i = 0; i < calls.size(); i++) {
                        for (int k = 0; k < 3; k++) out.push(enc(respNode(r.pick(poison), Node::nil(), Node::uinteger(bad++)), &r));
                        out.push(enc(respNode(calls[i].first, Node::nil(), Node::uinteger(calls[i].second)), &r));
                    }
                    stat("stale_responses", 75);
                }
            }
            else for (auto& c : calls) poison.push_back(c.first);
            if (how == "kill") { waitUntil([&] { return log->ready.load() == 1; }, 40000); kill(pid, SIGKILL); reap(pid, 20000); }
            else expectExit(reap(pid, 60000), "reborn_child");
            eval();
        }
        distinct(fmt("%d", round));
        sample("75 answers to calls of two dead incarnations among 25 answers to the new one");
        munmap((void*)log, sizeof *log);
    }
}

// ---- C10 ---------------------------------------------------------------------------------------------------------
namespace {
std::string hostile(Rng& r, const std::string& self, const std::string& peer, const std::vector<std::string>& ids, size_t limit) {
    auto anyId = [&] { return !ids.empty() && r.chance(1, 2) ? ids[r.below(ids.size())] : randStr(r, 200); };
    auto chanName = [&]() -> std::string {
        switch (r.below(12)) {
            case 0: return "";
            case 1: return "/";
            case 2: return "../x";
            case 3: return std::string(300 + r.below(5000), 'n');
            case 4: return std::string("a\0b", 3);
            case 5: return self;
            case 6: return prefix() + "nobody" + std::to_string(r.below(5));
            case 7: return "%s%n%s";
            case 8: return randStr(r, 100);
            default: return peer;
        }
    };
    auto call = [&] {
        Node n = callNode(anyId(), chanName(), r.chance(3, 4) ? "hx" : randStr(r, 100), {Node::uinteger(randBits(r)), Node::str(randStr(r))});
        return n;
    };
    auto resp = [&] { return respNode(anyId(), r.chance(1, 2) ? Node::nil() : randNode(r, 2), randNode(r, 2)); };
    std::string b;
    switch (r.below(17)) {
        case 0: b = std::string(1 + r.below(400), 0); for (auto& c : b) c = (char)r.next(); break;
        case 1: b = enc(call(), &r); b.resize(1 + r.below(b.size())); break;
        case 2: b = enc(resp(), &r); b.resize(1 + r.below(b.size())); break;
        case 3: { b = enc(r.chance(1, 2) ? call() : resp(), &r); int k = (int)r.range(1, 5); for (int i = 0; i < k; i++) b[r.below(b.size())] ^= (char)(1 << r.below(8)); break; }
        case 4: b = enc(randNode(r, 5), &r); break;
        case 5: {   // headers that announce more than there is
            static const char* h[] = {"\xdd\xff\xff\xff\xff", "\xdf\xff\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\xc6\xff\xff\xff\xff", "\xc9\xff\xff\xff\xff", "\xdd\x10\x00\x00\x00", "\xdf\x7f\xff\xff\xff", "\xdc\xff\xff", "\xde\xff\xff", "\xdd\x00\x0f\xff\xff", "\xdf\x80\x00\x00\x00", "\xdd\x20\x00\x00\x00"};
            const char* x = h[r.below(12)];
            size_t hl = (uint8_t)x[0] == 0xdc || (uint8_t)x[0] == 0xde ? 3 : 5;
            if (r.chance(1, 2)) b = std::string("\x95\x00", 2) + enc(Node::str(anyId())) + enc(Node::str(peer)) + enc(Node::str("hx"));
            b += std::string(x, hl);
            b += enc(randNode(r, 2));
            break;
        }
        case 6: {   // nesting
            static const char* open[] = {"\x91", "\x81\xc0", "\x92\xc0", "\xdd\x00\x00\x00\x01", "\x93\xa1x\x00"};
            int k = (int)r.below(5);
            std::string o = k == 0 ? std::string("\x91") : k == 1 ? std::string("\x81\xc0") : k == 2 ? std::string("\x92\xc0") : k == 3 ? std::string("\xdd\0\0\0\1", 5) : std::string("\x91");
            (void)open;
            size_t depth = (limit - 200) / o.size();
            if (r.chance(1, 2)) depth = r.below(depth) + 1;
            bool inCall = r.chance(1, 2);
            if (inCall) b = std::string("\x95\x00", 2) + enc(Node::str("nid")) + enc(Node::str(peer)) + enc(Node::str("hy"));
            else if (r.chance(1, 2)) b = std::string("\x94\x01", 2) + enc(Node::str(anyId())) + "\xc0";
            for (size_t i = 0; i < depth; i++) b += o;
            if (r.chance(3, 4)) b += "\xc0";
            break;
        }
        case 7: b = enc(call(), &r) + enc(call(), &r); break;
        case 8: b = enc(call(), &r) + std::string(1 + r.below(20), (char)r.next()); break;
        case 9: b = enc(resp(), &r) + enc(resp(), &r) + (r.chance(1, 2) ? "\xc1" : ""); break;
        case 10: { Node n = call(); n.a[0] = r.chance(1, 2) ? Node::uinteger(randBits(r)) : randNode(r, 1); b = enc(n, &r); break; }
        case 11: { Node n = call(); n.a[4] = randNode(r, 2); b = enc(n, &r); break; }
        case 12: { Node n = r.chance(1, 2) ? call() : resp(); n.a[r.below(n.a.size())] = randNode(r, 2); b = enc(n, &r); break; }
        case 13: { Node n = r.chance(1, 2) ? call() : resp(); if (r.chance(1, 2)) n.a.push_back(randNode(r, 1)); else n.a.pop_back(); b = enc(n, &r); break; }
        case 14: b = std::string(1 + r.below(5), '\xc1'); break;
        case 15: { Node n = call(); n.a[3] = Node::str(r.chance(1, 2) ? "str" : "vec"); n.a[4] = Node::arr({randNode(r, 1), randNode(r, 2)}); if (n.a[4].a[0].k == Node::UINT) n.a[4].a[0] = Node::str("x"); b = enc(n, &r); break; }
        default: { Node n = resp(); n.a[2] = randNode(r, 1); b = enc(n, &r); break; }
    }
    if (b.empty()) b = "\xc1";
    if (b.size() > limit) b.resize(limit);
    return b;
}
}  // namespace

SCENARIO(wire_hostile) {
    Rng r(args.seed);
    for (int round = 0; round < 2 * args.scale && !violated(); round++) {
        beat("wire_hostile");
        Veigar a, b;
        ExecLog* log = localLog();
        Callee ca, cb;
        ca.v = &a; ca.chanId = 0; ca.log = log;
        cb.v = &b; cb.chanId = 1; cb.log = log;
        ca.bindAll();
        cb.bindAll();
        // three handlers that wait for each other: all dispatcher threads are alive
        struct Meet { std::atomic<int> in{0}, out{0}; } meet;
        auto rendezvous = [&meet](int gen) { meet.in++; return waitUntil([&] { return meet.in >= 3 * gen; }, 20000); };
        b.bind("meet", [&](int gen) -> bool { return rendezvous(gen); });
        b.bind("hx", [&](veigar_msgpack::object, std::string s) -> std::string { return s; });
        for (Veigar* v : {&a, &b}) v->bind("hy", [](veigar_msgpack::object o) { return (int)veigar_msgpack::clone(o).get().type; });   // walks through the value
        size_t limit = r.chance(1, 4) ? 400000 : (size_t)r.range(3000, 40000);
        uint32_t cap = (uint32_t)r.range(4, 60);
        if (!up(a, chan(fmt("ha%d", round)), cap, (uint32_t)(limit / 2)) || !up(b, chan(fmt("hb%d", round)), cap, (uint32_t)(limit / 2))) { viol("init-failed", "", "C12"); return; }
        RawPeer p;
        if (!p.create(chan(fmt("hp%d", round)), 900, 4000)) { viol("create-failed", "", "C05,C25"); return; }
        std::atomic<bool> stop{false};
        std::vector<std::string> ids;
        std::mutex im;
        std::atomic<int64_t> sent{0};
        // its own queues are only emptied
        std::thread drain([&] { std::string x; while (!stop) { p.resp.pop(x, 5); if (p.call.pop(x, 1)) { Node m; if (checkCall(x, m).empty()) { std::lock_guard<std::mutex> lg(im); ids.push_back(m.a[1].s); if (ids.size() > 50) ids.erase(ids.begin()); } } } });
        RawQueue qs[4];
        const char* suf[] = {"_call", "_resp", "_call", "_resp"};
        for (int i = 0; i < 4; i++) if (!qs[i].open((i < 2 ? b : a).channelName() + suf[i])) { viol("open-failed", "", "C13,C10"); return; }
        uint64_t sd = r.next();
        int meetGen = 0;
        for (int batch = 0; batch < 4 && !violated(); batch++) {
            int nmsg = 150;
            std::vector<std::thread> ts;
            for (int t = 0; t < 2; t++) ts.emplace_back([&, t] {
                Rng q(sd + t * 7919 + batch * 31);
                for (int i = 0; i < nmsg && !violated(); i++) {
                    int k = (int)q.below(4);
                    std::vector<std::string> my;
                    { std::lock_guard<std::mutex> lg(im); my = ids; }
                    std::string m = hostile(q, (k < 2 ? b : a).channelName(), p.name, my, limit);
                    int rc = qs[k].push(m);
                    if (rc == 0) { tviol("queue-not-emptied", "hostile messages stay in the queue", "C10,C16"); break; }
                    sent++;
                    distinct(fmt("%d %zx %x %x", k, m.size() < 64 ? m.size() : m.size() / 1000 + 64, (uint8_t)m[0], (uint8_t)m[m.size() / 2] >> 4));
                    if (q.chance(1, 50)) sample(fmt("%s queue: ", suf[k]) + hex(m.data(), m.size(), 24));
                }
            });
            // well-formed calls in between, made by instances and by the raw peer
            for (int t = 0; t < 2; t++) ts.emplace_back([&, t] {
                Rng q(sd + t * 104729 + batch);
                Veigar& v = t ? b : a;
                Callee& other = t ? ca : cb;
                for (int i = 0; i < 60 && !violated(); i++) {
                    uint64_t tok = log->next++, arg = q.next();
                    if (q.chance(1, 4)) {
                        // pending at the raw peer: hostile responses are made for its id
                        v.asyncCall([](const CallResult&) {}, p.name, 20001, "h", 1);
                        continue;
                    }
                    bool str = q.chance(1, 3);
                    std::string s(q.below(limit / 8), 's');
                    CallResult res = str ? v.syncCall(other.v->channelName(), 30000, "str", tok, s) : v.syncCall(other.v->channelName(), 30000, "f", tok, arg);
                    uint64_t x = 0;
                    std::string xs;
                    std::string d = fmt("%s among hostile messages: ", str ? "str" : "f") + show(res);
                    if (!res.isSuccess()) viol("valid-call-disturbed", d, "C10");
                    else if (str ? !res.convertObject(xs) || xs != expectStr(tok, s, other.chanId) : !res.convertObject(x) || x != expectNum(tok, arg, other.chanId, 0)) viol("wrong-result", d, "C10,C01");
                    if (log->n[tok] != 1) viol("executions-of-successful-call", fmt("%d times ", (int)log->n[tok]) + d, "C10,C02");
                    eval();
                    beat();
                }
            });
            for (auto& t : ts) t.join();
            if (violated()) break;
            // all threads of b's call side and of a's response side still work
            meetGen++;
            std::atomic<int> okc{0}, cbIn{0}, cbOut{0};
            for (int i = 0; i < 3; i++) a.asyncCall([&](const CallResult& res) {
                bool ok = false;
                if (res.isSuccess()) { try { ok = res.obj.get().as<bool>(); } catch (...) {} }
                if (ok) okc++;
                cbIn++;
                if (waitUntil([&] { return cbIn >= 3; }, 20000)) cbOut++; else cbOut += 100;
            }, b.channelName(), 40000, "meet", meetGen);
            if (!waitUntil([&] { return cbOut % 100 + cbOut / 100 >= 3; }, 60000)) { tviol("dispatcher-thread-lost", "three calls at once are not all answered", "C10,C16"); break; }
            if (okc != 3) tviol("dispatcher-thread-lost", "not all call dispatcher threads take part", "C10,C16");
            else if (cbOut != 3) tviol("dispatcher-thread-lost", "not all response dispatcher threads take part", "C10,C16");
            stat("rendezvous");
        }
        stop = true;
        drain.join();
        stat("hostile_messages", sent);
        a.uninit();
        b.uninit();
    }
}
