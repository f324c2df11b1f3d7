// C09: calls that cannot be executed come back as error values, and disturb nothing else.
#include "rpc.h"
#include "wire.h"
#include <deque>
using namespace vh;

// throws while it is packed, unpacked or turned into a result
struct Bomb {
    int how = 0;        // 1: packing throws, 2: unpacking throws, 3: turning into a result throws; +10: not a std::exception
    template <class P> void msgpack_pack(P& p) const {
        go(1);
        p.pack(how);
    }
    void msgpack_unpack(veigar_msgpack::object const& o) {
        o.convert(how);
        go(2);
    }
    template <class O> void msgpack_object(O* o, veigar_msgpack::zone& z) const {
        go(3);
        *o = veigar_msgpack::object(how, z);
    }
    void go(int h) const {
        if (how == h) throw std::runtime_error("bomb-text");
        if (how == h + 10) throw h;
    }
};
struct Odd {};                                      // thrown as it is
struct Derived : std::logic_error { using std::logic_error::logic_error; };

static veigar_msgpack::object_handle asObject(const Node& n) {
    std::string b = enc(n);
    return veigar_msgpack::unpack(b.data(), b.size());
}

enum P { INT, STR, VEC, MAP, BOOL, NPAR };
static bool fits(const Node& n, int p) {
    switch (p) {
        case INT: return n.k == Node::UINT ? n.u <= 0x7fffffff : n.k == Node::NEG && (int64_t)n.u >= INT32_MIN;
        case STR: return n.k == Node::STR || n.k == Node::BIN;
        case VEC: if (n.k != Node::ARR) return false; for (auto& x : n.a) if (!fits(x, INT)) return false; return true;
        case MAP: if (n.k != Node::MAP) return false; for (size_t i = 0; i < n.a.size(); i += 2) if (!fits(n.a[i], STR) || !fits(n.a[i + 1], INT)) return false; return true;
        default: return n.k == Node::BOOL;
    }
}
static Node good(Rng& r, int p) {
    switch (p) {
        case INT: return Node::integer((int32_t)r.next());
        case STR: return Node::str(randStr(r));
        case VEC: { Node n = Node::arr({}); for (uint64_t i = 0, c = r.below(5); i < c; i++) n.a.push_back(good(r, INT)); return n; }
        case MAP: { Node n = Node::map({}); for (uint64_t i = 0, c = r.below(4); i < c; i++) { n.a.push_back(Node::str(fmt("k%d", (int)i))); n.a.push_back(good(r, INT)); } return n; }
        default: return Node::boolean(r.chance(1, 2));
    }
}
static Node bad(Rng& r, int p) {
    for (;;) {
        Node n = r.chance(1, 3) ? good(r, (int)r.below(NPAR)) : randNode(r, 2);
        if (p == INT && r.chance(1, 2)) n = Node::integer(r.chance(1, 2) ? (int64_t)INT32_MAX + 1 + (int64_t)r.below(10) : (int64_t)INT32_MIN - 1 - (int64_t)r.below(10));
        if (p == VEC && r.chance(1, 2)) { n = good(r, VEC); n.a.push_back(bad(r, INT)); }
        if (p == MAP && r.chance(1, 2)) { n = good(r, MAP); n.a.push_back(bad(r, STR)); n.a.push_back(good(r, INT)); }
        n = wired(n);
        if (!fits(n, p)) return n;
    }
}

struct Fn {
    std::string name;
    std::vector<int> ps;
    std::atomic<int>* ran;
};

// what a handler may throw, with the text the caller must see
static const int kKinds = 22;
static std::string throwAny(int k, bool dry = false) {
#define T_(n, e, text) case n: if (!dry) throw e; return text;
    switch (k) {
        T_(0, std::logic_error("logic 0"), "logic 0")
        T_(1, std::invalid_argument("invalid 1"), "invalid 1")
        T_(2, std::out_of_range("range 2"), "range 2")
        T_(3, std::length_error("length 3"), "length 3")
        T_(4, std::domain_error("domain 4"), "domain 4")
        T_(5, std::overflow_error("over 5"), "over 5")
        T_(6, std::system_error(std::make_error_code(std::errc::io_error), "system 6"), "system 6")
        T_(7, std::bad_cast(), "")
        T_(8, std::bad_function_call(), "")
        T_(9, std::exception(), "")
        T_(10, veigar_msgpack::type_error(), "")
        T_(11, veigar_msgpack::parse_error("parse 11"), "parse 11")
        T_(12, veigar_msgpack::insufficient_bytes("bytes 12"), "bytes 12")
        T_(13, std::future_error(std::future_errc::broken_promise), "")
        T_(14, std::nested_exception(), "")
        T_(15, 15, "")
        T_(16, nullptr, "")
        T_(17, std::string("str 17"), "")
        T_(18, veigar::CallResult(), "")
        T_(19, std::current_exception(), "")
        T_(20, Derived("derived 20"), "derived 20")
        default: if (!dry) { std::vector<int> v; (void)v.at(7); } return "";
    }
#undef T_
}
// callback calls: what the callback throws; 0 nothing
static std::atomic<int64_t> thrown{0};
static void throwKind(int k) {
    if (!k) return;
    thrown++;
    switch (k) {
        case 1: throw std::runtime_error("from a callback");
        case 2: throw 17;
        case 3: throw "text";
        default: throw Odd();
    }
}
static const int kStyles = 4;    // sync, promise, callback, callback that throws
template <class... A> static CallResult styled(Rng& r, Veigar& v, int style, const std::string& target, uint32_t to, const std::string& fn, A... a) {
    CallResult bad;
    try {
        if (style == 0) return v.syncCall(target, to, fn, a...);
        if (style == 1) {
            auto x = v.asyncCall(target, to, fn, a...);
            if (!x) { viol("no-call-result", fn, "C03,C09"); return bad; }
            if (x->second.wait_for(std::chrono::seconds(60)) != std::future_status::ready) { tviol("no-completion", "promise call of " + fn + " was not completed", "C03,C09"); return bad; }
            CallResult c = x->second.get();
            v.releaseCall(x->first);
            return c;
        }
        auto p = std::make_shared<std::promise<CallResult>>();
        auto f = p->get_future();
        int k = style == 3 ? (int)r.range(1, 4) : 0;
        v.asyncCall([p, k](const CallResult& c) { p->set_value(toResult(c)); throwKind(k); }, target, to, fn, a...);
        if (f.wait_for(std::chrono::seconds(60)) != std::future_status::ready) { tviol("no-completion", "callback of a call of " + fn + " was not invoked", "C03,C09"); return bad; }
        return f.get();
    } catch (std::exception& e) {
        viol("exception-escaped", fmt("style %d, %s: %s", style, fn.c_str(), e.what()), "C09");
    } catch (...) {
        viol("exception-escaped", fmt("style %d, %s", style, fn.c_str()), "C09");
    }
    bad.errorMessage = "-";
    return bad;
}
static CallResult withArgs(Rng& r, Veigar& v, int style, const std::string& target, const std::string& fn, const std::vector<Node>& n) {
    std::vector<veigar_msgpack::object_handle> h;
    for (auto& x : n) h.push_back(asObject(x));
    auto o = [&](int i) { return h[i].get(); };
    const uint32_t to = 60000;
    switch (h.size()) {
        case 0: return styled(r, v, style, target, to, fn);
        case 1: return styled(r, v, style, target, to, fn, o(0));
        case 2: return styled(r, v, style, target, to, fn, o(0), o(1));
        case 3: return styled(r, v, style, target, to, fn, o(0), o(1), o(2));
        case 4: return styled(r, v, style, target, to, fn, o(0), o(1), o(2), o(3));
        default: return styled(r, v, style, target, to, fn, o(0), o(1), o(2), o(3), o(4));
    }
}
static std::string randName(Rng& r) {
    switch (r.below(6)) {
        case 0: return fmt("nope%d", (int)r.below(100));
        case 1: return "%s%n%d%x" + std::to_string(r.below(9));
        case 2: return "";
        case 3: return std::string(r.range(1, 3000), 'n');
        case 4: return "f\xc3\xa9\n\t\"'\\" + std::to_string(r.below(9));
        default: { std::string s = "x"; for (uint64_t i = 0, n = r.below(30); i < n; i++) s += (char)r.range(1, 255); return s; }
    }
}
static std::string randText(Rng& r) {
    switch (r.below(6)) {
        case 0: return "";
        case 1: return "%s%n%d%100000d%x";
        case 2: return std::string(r.range(1, 60000), 't');
        case 3: return "Could not find function 'x'\n\t\"\\";
        default: { std::string s; for (uint64_t i = 0, n = r.below(300); i < n; i++) s += (char)r.range(1, 255); return s; }
    }
}

// how many run at the same time when 12 are there
static int concurrency(Veigar& cli, Callee& c, int atLeast) {
    std::vector<std::shared_ptr<veigar::AsyncCallResult>> rs;
    c.log->block = 1;
    for (int i = 0; i < 12; i++) rs.push_back(cli.asyncCall(c.v->channelName(), 60000, "block", (uint64_t)c.log->next++));
    if (atLeast) waitUntil([&] { return c.running >= atLeast; }, 20000);
    else { int last = -1, same = 0; while (same < 300) { int n = c.running; same = n == last ? same + 1 : 0; last = n; sleepMs(1); } }
    int n = c.running;
    c.log->block = 0;
    for (auto& x : rs) {
        if (x->second.wait_for(std::chrono::seconds(60)) != std::future_status::ready || !x->second.get().isSuccess()) tviol("blocked-call-lost", "a call that waited in a handler did not return", "C09,C03");
        cli.releaseCall(x->first);
    }
    return n;
}
static int cbConcurrency(Veigar& cli, const std::string& target, ExecLog* log, int atLeast) {
    auto in = std::make_shared<std::atomic<int>>(0), hold = std::make_shared<std::atomic<int>>(1), done = std::make_shared<std::atomic<int>>(0);
    for (int i = 0; i < 12; i++)
        cli.asyncCall([in, hold, done](const CallResult&) { ++*in; waitUntil([&] { return *hold == 0; }, 60000); ++*done; }, target, 60000, "void", (uint64_t)log->next++);
    if (atLeast) waitUntil([&] { return *in >= atLeast; }, 20000);
    else { int last = -1, same = 0; while (same < 300) { int n = *in; same = n == last ? same + 1 : 0; last = n; sleepMs(1); } }
    int n = *in;
    *hold = 0;
    if (!waitUntil([&] { return *done == 12; }, 60000)) tviol("callbacks-lost", fmt("%d of 12 callbacks ran", done->load()), "C09,C03");
    return n;
}

SCENARIO(errors) {
    Rng r0(args.seed);
    for (int round = 0; round < args.scale && !violated(); round++) {
        beat("errors");
        Veigar srv, cli, cli2;
        ExecLog* log = localLog();
        Callee c;
        c.v = &srv;
        c.log = log;
        c.chanId = 1;
        std::string target = longChan(r0, fmt("es%d", round));
        if (!c.bindAll()) viol("bind-refused", "", "C11,C09");
        // functions of its own for each thread, so that their executions can be told apart
        const int T = 5;
        std::deque<std::atomic<int>> runs, throwKinds(T);
        std::vector<std::vector<Fn>> fns(T);
        bool ok = true;
        for (int t = 0; t < T; t++) {
            auto add = [&](const char* n, std::vector<int> ps, auto mk) {
                runs.emplace_back(0);
                auto* c = &runs.back();
                std::string name = fmt("%s_%d", n, t);
                fns[t].push_back({name, ps, c});
                ok = srv.bind(name, mk(c)) && ok;
            };
            add("v0", {}, [](auto* c) { return [c] { ++*c; }; });
            add("i0", {}, [](auto* c) { return [c]() -> int { ++*c; return 5; }; });
            add("v1", {INT}, [](auto* c) { return [c](int) { ++*c; }; });
            add("s1", {STR}, [](auto* c) { return [c](std::string s) -> std::string { ++*c; return s; }; });
            add("i2", {INT, STR}, [](auto* c) { return [c](int a, std::string) -> int { ++*c; return a; }; });
            add("m3", {VEC, MAP, BOOL}, [](auto* c) { return [c](const std::vector<int>& v, const std::map<std::string, int>&, bool) -> std::vector<int> { ++*c; return v; }; });
            add("v4", {BOOL, INT, INT, STR}, [](auto* c) { return [c](bool, int, int, const std::string&) { ++*c; }; });
            add("text", {STR}, [](auto* c) { return [c](std::string s) -> int { ++*c; throw std::runtime_error(s); return 1; }; });
            add("derived", {STR}, [](auto* c) { return [c](std::string s) { ++*c; throw Derived(s); }; });
            add("nested", {STR}, [](auto* c) { return [c](std::string s) { ++*c; try { throw 5; } catch (...) { std::throw_with_nested(std::runtime_error(s)); } }; });
            add("odd", {INT}, [](auto* c) { return [c](int k) -> std::string { ++*c; switch (k % 5) { case 0: throw 42; case 1: throw "chars"; case 2: throw std::string("str"); case 3: throw Odd(); default: throw std::make_shared<int>(5); } return ""; }; });
            auto* k = &throwKinds[t];
            add("thv0", {}, [k](auto* c) { return [c, k] { ++*c; throwAny(*k); }; });
            add("thi0", {}, [k](auto* c) { return [c, k]() -> int { ++*c; throwAny(*k); return 1; }; });
            add("ths0", {}, [k](auto* c) { return [c, k]() -> std::string { ++*c; throwAny(*k); return "s"; }; });
            add("thv1", {INT}, [k](auto* c) { return [c, k](int) { ++*c; throwAny(*k); }; });
            add("thi1", {STR}, [k](auto* c) { return [c, k](const std::string&) -> int { ++*c; throwAny(*k); return 1; }; });
            add("thv2", {INT, STR}, [k](auto* c) { return [c, k](int, std::string) { ++*c; throwAny(*k); }; });
            add("thm2", {VEC, MAP}, [k](auto* c) { return [c, k](std::vector<int> v, const std::map<std::string, int>&) -> std::vector<int> { ++*c; throwAny(*k); return v; }; });
            add("alloc", {}, [](auto* c) { return [c] { ++*c; throw std::bad_alloc(); }; });
            add("bomb", {INT}, [](auto* c) { return [c](Bomb) { ++*c; }; });
            add("makebomb", {INT}, [](auto* c) { return [c](int h) -> Bomb { ++*c; Bomb b; b.how = h; return b; }; });
        }
        if (!ok) viol("bind-refused", "", "C11,C09");
        uint32_t cap = (uint32_t)r0.range(3, 60);
        if (!up(srv, target, cap, 300000) || !up(cli, longChan(r0, fmt("ec%d", round)), cap, 300000) || !up(cli2, longChan(r0, fmt("ed%d", round)), cap, 300000)) { viol("init-failed", "", "C12"); return; }
        int n0 = concurrency(cli, c, 0), m0 = cbConcurrency(cli, target, log, 0);
        uint64_t sd = r0.next();
        perturb((int)r0.below(3), sd);
        std::atomic<bool> stop{false};
        std::vector<std::thread> ts;
        for (int t = 0; t < T; t++) ts.emplace_back([&, t] {
            Rng r(sd + 977 * t);
            Veigar* vs[] = {&cli, &cli, &cli2, &srv};
            auto& my = fns[t];
            std::vector<int> expect(my.size(), 0);
            for (int i = 0; i < 220 && !violated(); i++) {
                beat("errors");
                Veigar& v = *r.pick(vs);
                int style = (int)r.below(kStyles);
                size_t fi = r.below(my.size());
                Fn& f = my[fi];
                int before = f.ran->load();
                std::string kind;
                bool wantOk = false;
                int runs = 0;
                std::string text;
                CallResult c;
                uint64_t what = r.below(9);
                if (what == 0) {
                    kind = "unknown";
                    std::string n = randName(r);
                    std::vector<Node> a;
                    for (uint64_t k = 0, m = r.below(4); k < m; k++) a.push_back(randNode(r, 1));
                    c = withArgs(r, v, style, target, n, a);
                    text = n;
                }
                else if (what <= 2) {
                    kind = "count";
                    std::vector<Node> a;
                    for (int p : f.ps) a.push_back(good(r, p));
                    if (!a.empty() && r.chance(1, 2)) { for (uint64_t k = 0, m = r.range(1, a.size()); k < m; k++) a.pop_back(); }
                    else if (a.size() < 5) { for (uint64_t k = 0, m = r.range(1, 5 - a.size()); k < m; k++) a.insert(r.chance(1, 2) ? a.end() : a.begin(), r.chance(1, 2) ? Node::nil() : good(r, (int)r.below(NPAR))); }
                    c = withArgs(r, v, style, target, f.name, a);
                }
                else if (what <= 4) {
                    if (f.ps.empty()) continue;
                    kind = "type";
                    std::vector<Node> a;
                    for (int p : f.ps) a.push_back(good(r, p));
                    int k = (int)r.below(f.ps.size());
                    a[k] = bad(r, f.ps[k]);
                    kind += fmt("%d-%d", f.ps[k], a[k].k);
                    c = withArgs(r, v, style, target, f.name, a);
                }
                else if (what == 5) {
                    // an argument whose packing throws
                    kind = "packing";
                    Bomb b;
                    b.how = r.chance(1, 2) ? 1 : 11;
                    c = styled(r, v, style, target, 60000, f.name, b);
                    if (c.errCode == ErrorCode::SUCCESS) viol("packing-error-lost", f.name + ": " + show(c), "C09");
                }
                else {
                    // the function runs
                    runs = 1;
                    std::string n = f.name.substr(0, f.name.find('_'));
                    std::vector<Node> a;
                    for (int p : f.ps) a.push_back(good(r, p));
                    kind = n;
                    if (n == "text" || n == "derived" || n == "nested") { text = randText(r); a[0] = Node::str(text); }
                    else if (n == "odd") { int k = (int)r.below(5); a[0] = Node::integer(k); kind += fmt("%d", k); }
                    else if (n == "alloc") {}
                    else if (n.compare(0, 2, "th") == 0) { int k = (int)r.below(kKinds); throwKinds[t] = k; text = throwAny(k, true); kind += fmt("k%d", k); }
                    else if (n == "bomb") { int h = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 2 : 12; a[0] = Node::integer(h); kind += fmt("%d", h); if (h) runs = 0; else wantOk = true; if (h == 2) text = "bomb-text"; }
                    else if (n == "makebomb") { int h = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 3 : 13; a[0] = Node::integer(h); kind += fmt("%d", h); if (!h) wantOk = true; if (h == 3) text = "bomb-text"; }
                    else wantOk = true;
                    c = withArgs(r, v, style, target, f.name, a);
                }
                eval();
                std::string w = kind + " " + f.name + fmt(" style %d: ", style) + show(c);
                if (wantOk && !c.isSuccess()) viol("good-call-failed:" + kind, w, "C09,C08");
                if (!wantOk) {
                    if (c.isSuccess()) viol("failure-not-reported:" + kind.substr(0, 7), w, "C09");
                    else if (c.errorMessage.empty()) viol("error-without-message:" + kind.substr(0, 7), w, "C09");
                    else if (c.errorMessage.find(text) == std::string::npos) viol("message-lacks-text:" + kind.substr(0, 7), w + " lacks " + text.substr(0, 100), "C09");
                }
                int did = f.ran->load() - before;
                if (did != runs) viol(runs ? "not-run-once:" + kind.substr(0, 7) : "ran-though-refused:" + kind.substr(0, 7), w + fmt(", ran %d times", did), "C09,C02");
                expect[fi] += runs;
                distinct(fmt("%s %d %d", (kind + f.name.substr(0, 2)).c_str(), style, (int)(&v - vs[0])));
                stat(wantOk ? "served" : "errors");
                if (r.chance(1, 300)) sample(w);
            }
            for (size_t i = 0; i < my.size() && !violated(); i++) if (my[i].ran->load() != expect[i]) viol("runs-later", my[i].name + fmt(": %d runs, %d expected", my[i].ran->load(), expect[i]), "C09,C02");
        });
        // meanwhile others are served
        for (int t = 0; t < 2; t++) ts.emplace_back([&, t] {
            Rng r(sd + 31337 * t);
            while (!stop && !violated()) {
                uint64_t tok = log->next++, a = r.next();
                int fid = (int)r.below(numFuncs().size());
                CallResult x = styled(r, t ? cli2 : cli, (int)r.below(kStyles), target, 60000, numFuncs()[fid], tok, a);
                uint64_t v = 0;
                if (!x.isSuccess() || !x.convertObject(v) || v != expectNum(tok, a, 1, fid)) viol("other-call-disturbed", show(x), "C09,C01");
                stat("others");
                eval();
            }
        });
        // callers that are not there and targets that are not there
        ts.emplace_back([&] {
            Rng r(sd + 5);
            Veigar down;
            for (int i = 0; i < 40 && !violated(); i++) {
                int style = (int)r.below(kStyles);
                bool off = r.chance(1, 3);
                static const std::string odd[] = {"", "/", "a/b", "%s%n", std::string(300, 'c'), "\xff\xfe", ".", "..", "x y"};
                std::string tg = off ? target : r.chance(1, 2) ? chan("absent") : r.pick(odd);
                if (!off && r.chance(1, 3)) tg += "\n";
                CallResult x = styled(r, off ? down : cli, style, tg, (uint32_t)r.below(50), "f", (uint64_t)log->next++, (uint64_t)1);
                if (x.isSuccess() || x.errorMessage.empty()) viol("undeliverable-call", "to " + tg + ": " + show(x), "C09");
                // nobody is interested
                if (r.chance(1, 4)) {
                    try { cli.asyncCall(veigar::ResultCallback(), r.chance(1, 2) ? target : tg, 50, "void", (uint64_t)log->next++); } catch (...) { viol("exception-escaped", "empty callback", "C09"); }
                }
                eval();
                stat("undeliverable");
            }
        });
        for (int t = 0; t < T; t++) ts[t].join();
        stop = true;
        for (size_t t = T; t < ts.size(); t++) ts[t].join();
        perturb(0, 0);
        if (!violated()) {
            int n1 = concurrency(cli, c, n0), m1 = cbConcurrency(cli, target, log, m0);
            if (n1 < n0) tviol("handlers-lost", fmt("%d handlers at a time before, %d after the errors", n0, n1), "C09");
            if (m1 < m0) tviol("callback-threads-lost", fmt("%d callbacks at a time before, %d after the errors", m0, m1), "C09");
            statMax("handlers_at_a_time", n1);
            statMax("callbacks_at_a_time", m1);
            stat("throwing_callbacks", thrown.exchange(0));
        }
        cli.uninit();
        cli2.uninit();
        srv.uninit();
        munmap(log, sizeof *log);
    }
}

// Names and exception texts of every length come back complete, also where the length reaches a power of two.
SCENARIO(lengths) {
    Rng r(args.seed);
    for (int round = 0; round < args.scale && !violated(); round++) {
        Veigar srv, cli;
        std::string target = chan(fmt("ln%d", round));
        bool ok = srv.bind("text", [](std::string s) -> int { throw std::runtime_error(s); return 1; });
        uint32_t cap = (uint32_t)r.range(3, 9);
        // functions with long names: they run, and they fail under their name
        std::vector<std::string> longNames;
        for (int i = 0; i < 24; i++) {
            std::string n = fmt("L%d-", i) + std::string((size_t)r.below(i < 12 ? 1300 : 70000), (char)('a' + i)) + fmt("-%dE", i);
            longNames.push_back(n);
            ok = srv.bind(n, [i](int k) -> int { if (k < 0) throw std::runtime_error("END-OF-" + std::to_string(i)); return k + i; }) && ok;
        }
        if (!ok) viol("bind-refused", "long names", "C11,C09");
        if (!up(srv, target, cap, 700000) || !up(cli, chan(fmt("lc%d", round)), cap, 700000)) { viol("init-failed", "", "C12"); return; }
        std::vector<size_t> lens;
        for (size_t p = 128; p <= 262144; p *= 2)
            for (int k = 0; k < (p == 1024 ? 60 : 14); k++) { size_t d = r.below(200); lens.push_back(r.chance(1, 4) ? p + d % 9 : p - d % 127); }
        for (int k = 0; k < 30; k++) lens.push_back((size_t)r.below(300000));
        for (size_t i = lens.size(); i > 1; i--) std::swap(lens[i - 1], lens[r.below(i)]);
        for (size_t len : lens) {
            if (violated()) break;
            beat("lengths");
            std::string s;
            const char* pat = r.chance(1, 4) ? "%s%n" : "abcdefghij";
            size_t m = strlen(pat);
            for (size_t i = 0; i < len; i++) s += pat[i % m];
            s += fmt("<%zuEND>", len);
            int style = (int)r.below(3);
            CallResult c = styled(r, cli, style, target, 60000, "text", s);
            if (c.isSuccess() || c.errorMessage.find(s) == std::string::npos) viol("long-text-cut", fmt("exception text of %zu characters: %s", s.size(), show(c).substr(0, 80).c_str()) + fmt(" ... (%zu characters)", c.errorMessage.size()), "C09");
            c = styled(r, cli, style, target, 60000, s, 1);
            if (c.isSuccess() || c.errorMessage.find(s) == std::string::npos) viol("long-name-cut", fmt("unknown name of %zu characters: %s", s.size(), show(c).substr(0, 80).c_str()) + fmt(" ... (%zu characters)", c.errorMessage.size()), "C09");
            int i = (int)r.below(longNames.size()), k = (int)r.below(1000), got = 0;
            c = styled(r, cli, style, target, 60000, longNames[i], k);
            if (!c.isSuccess() || !c.convertObject(got) || got != k + i) viol("long-named-function", fmt("name of %zu characters: ", longNames[i].size()) + show(c).substr(0, 200), "C09,C11,C08");
            c = styled(r, cli, style, target, 60000, longNames[i], -1);
            if (c.isSuccess() || c.errorMessage.find("END-OF-" + std::to_string(i)) == std::string::npos) viol("text-behind-long-name", fmt("name of %zu characters: ", longNames[i].size()) + show(c).substr(0, 80) + fmt(" ... (%zu characters)", c.errorMessage.size()), "C09");
            // near misses of a bound name are unknown
            std::string near = longNames[i];
            if (r.chance(1, 2)) near.pop_back(); else near += "x";
            c = styled(r, cli, style, target, 60000, near, k);
            if (c.isSuccess() || c.errorMessage.find(near) == std::string::npos) viol("near-name-served", fmt("name of %zu characters", near.size()), "C09,C11");
            for (int j = 0; j < 5; j++) eval();
            distinct(fmt("len %zu", len));
            stat("lengths");
            statMax("longest_text", s.size());
        }
        cli.uninit();
        srv.uninit();
    }
}
