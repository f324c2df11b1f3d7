// C08, part 6 of the types: containers of elements that are read by value (object.as), and variants
#define MSGPACK_USE_STD_VARIANT_ADAPTOR
#include <variant>
#include "types_all.h"
template <class... A> struct Ty<std::variant<A...>> {
    using T = std::variant<A...>;
    template <size_t... I> static void pick(T& t, Rng& r, int d, size_t k, std::index_sequence<I...>) { ((I == k ? (void)t.template emplace<I>(Ty<A>::gen(r, d)) : (void)0), ...); }
    template <size_t... I> static Node inner(const T& t, std::index_sequence<I...>) { Node n; ((I == t.index() ? (void)(n = Ty<A>::node(std::get<I>(t))) : (void)0), ...); return n; }
    template <size_t... I> static bool sameI(const T& a, const T& b, std::index_sequence<I...>) { bool ok = false; ((I == a.index() ? (void)(ok = Ty<A>::same(std::get<I>(a), std::get<I>(b))) : (void)0), ...); return ok; }
    template <size_t... I> static int acceptI(const Node& n, T& t, size_t k, std::index_sequence<I...>) {
        int rc = NO;
        ((I == k ? (void)[&] { A a{}; rc = Ty<A>::accept(n, a); t.template emplace<I>(a); }() : (void)0), ...);
        return rc;
    }
    using S = std::index_sequence_for<A...>;
    static T gen(Rng& r, int d) { T t; pick(t, r, d - 1, r.below(sizeof...(A)), S()); return t; }
    static Node node(const T& v) { return Node::arr({Node::uinteger(v.index()), inner(v, S())}); }
    static bool same(const T& a, const T& b) { return a.index() == b.index() && sameI(a, b, S()); }
    static int accept(const Node& n, T& v) {
        if (n.k != Node::ARR || n.a.size() != 2 || n.a[0].k != Node::UINT || n.a[0].u >= sizeof...(A)) return NO;
        return acceptI(n.a[1], v, n.a[0].u, S());
    }
    static Node near(Rng& r) { Node n = node(gen(r, 1)); if (r.chance(1, 2)) n.a[0] = Node::uinteger(r.chance(1, 3) ? randBits(r) : r.below(sizeof...(A) + 2)); else n.a[1] = randNode(r, 1); return n; }
};
template <class... A> struct Ty<mt::tuple<A...>> : TupTy<mt::tuple<A...>, A...> {};
using W = std::wstring;
using V = std::variant<W, std::vector<W>, std::optional<W>>;
static void registerAll() {
    REG(W); REG(std::vector<W>); REG(std::list<W>); REG(std::deque<W>); REG(std::forward_list<W>); REG(std::vector<std::vector<W>>);
    REG(std::set<W>); REG(std::multiset<W>); REG(std::unordered_set<W>); REG(std::unordered_multiset<W>);
    REG(std::map<W, int>); REG(std::map<int, W>); REG(std::map<W, W>); REG(std::multimap<W, int>); REG(std::multimap<int, W>); REG(std::unordered_map<int, W>); REG(std::unordered_map<W, int>); REG(std::unordered_multimap<W, int>);
    REG(mt::assoc_vector<W, int>); REG(mt::assoc_vector<int, W>);
    REG(std::pair<int, W>); REG(std::pair<W, std::string>); REG(std::tuple<int, W, std::string>); REG(std::array<W, 3>); REG(std::optional<W>); REG(std::shared_ptr<W>); REG(std::map<std::string, std::vector<std::pair<W, int>>>);
    REG(mt::tuple<int, std::string>); REG(mt::tuple<std::string>); REG(mt::tuple<int, W>); REG(mt::tuple<W>); REG(std::tuple<W>); REG(std::array<int, 1>); REG(std::array<W, 1>);
    REG(std::tuple<std::array<W, 2>, std::pair<W, W>>); REG(std::map<int, std::tuple<W, int>>);
    REG(V); REG(std::vector<V>);
}

struct Own {                                        // its results refer to itself
    std::string s;
    std::vector<std::string> v;
    const std::string& operator()(int) const { return s; }
};
struct Ways {
    int base;
    int twice(int x) const { return 2 * x + base; }
    int operator()(int x, const std::string& s) { return x + base + (int)s.size(); }
};
static int64_t plainFunc(int a, std::string b, const std::vector<int>& c) { return (int64_t)a + (int64_t)b.size() + (int64_t)c.size(); }
static std::string noArgs() { return "no arguments"; }

// Types that only work one way, or that refer to what they carry.
SCENARIO(odds) {
    Rng r(args.seed);
    Veigar srv, cli;
    std::string target = chan("odds"), kept;
    std::mutex m;
    std::vector<int> keptVec;
    srv.bind("obj", [](veigar_msgpack::object o) -> veigar_msgpack::object { return o; });
    srv.bind("uptr", [](std::string s, bool nil) { return nil ? std::unique_ptr<std::string>() : std::unique_ptr<std::string>(new std::string(s)); });
    srv.bind("uptrw", [](W s, bool nil) { return nil ? std::unique_ptr<W>() : std::unique_ptr<W>(new W(s)); });
    srv.bind("vuptr", [](std::vector<int> v) { std::vector<std::unique_ptr<int>> x; for (int i : v) x.emplace_back(i % 3 ? new int(i) : nullptr); return x; });
    srv.bind("muptr", [](std::map<std::string, std::vector<int>> v) { std::map<std::string, std::unique_ptr<std::vector<int>>> x; for (auto& e : v) x[e.first].reset(new std::vector<int>(e.second)); return x; });
    srv.bind("cuptr", [](const std::unique_ptr<std::string>& p, const std::unique_ptr<int>& q) { return std::string(p ? *p : "nothing") + "/" + (q ? std::to_string(*q) : "none"); });
    srv.bind("rawsize", [](mt::raw_ref x) { return std::string(x.ptr, x.size); });
    srv.bind("extback", [](mt::ext_ref x) { return mt::ext(x); });
    srv.bind("cstr", [](int i) -> const char* { return i % 2 ? "odd" : "even"; });
    srv.bind("sref", [&](std::string s) -> const std::string& { std::lock_guard<std::mutex> lg(m); kept = s; return kept; });
    srv.bind("vref", [&](std::vector<int> s) -> const std::vector<int>& { std::lock_guard<std::mutex> lg(m); keptVec = s; return keptVec; });
    // all kinds of callables, and results that refer to what the callable holds
    Own own{randStr(r, 300) + std::string(40, 'o'), {std::string(50, 'a'), ""}};
    Ways ways{(int)r.below(100)};
    std::vector<std::string> held(20, std::string(60, 'h'));
    srv.bind("own", own);
    srv.bind("held", [held](int) -> const std::vector<std::string>& { return held; });
    srv.bind("held0", [held]() -> const std::vector<std::string>& { return held; });
    srv.bind("heldarg", [](const std::vector<int>& a) -> const std::vector<int>& { return a; });
    srv.bind("heldview", [own](int) { return std::string_view(own.s); });
    srv.bind("argview", [](const std::string& a) { return std::string_view(a); });
    srv.bind("argviews", [](const std::string& a) { return std::vector<std::string_view>(3, a); });
    srv.bind("argraw", [](const std::string& a) { return mt::raw_ref(a.data(), (uint32_t)a.size()); });
    srv.bind("argext", [](const mt::ext& a) { return mt::ext_ref(a); });
    srv.bind("heldptr", [own](int) { return own.v[0].c_str(); });
    srv.bind("ways", ways);
    srv.bind("func", &plainFunc);
    srv.bind("func0", &noArgs);
    srv.bind("stdfunc", std::function<int(int)>([ways](int x) { return ways.twice(x); }));
    srv.bind("stdfunc0", std::function<void()>([] {}));
    int state = 0;
    srv.bind("mut", [state](int x) mutable { state += x; return state; });
    srv.bind("nonconst", [](std::string& s, int& i) { s += "!"; i++; return s + std::to_string(i); });
    srv.bind("nilback", [](mt::nil_t) { return mt::nil_t(); });
    if (!up(srv, target, 6, 1 << 20) || !up(cli, chan("oddsc"), 6, 1 << 20)) { viol("init-failed", "", "C12"); return; }
    auto bad = [&](const char* what, const std::string& in, CallResult& c) { viol(std::string("odd-type:") + what, in.substr(0, 200) + ": " + (c.isSuccess() ? fromObj(c.obj.get()).show().substr(0, 200) : show(c)), "C08"); };
    for (int i = 0; i < 60 * args.scale && !violated(); i++) {
        beat("odds");
        std::string s = Ty<std::string>::gen(r, 1);
        W w = Ty<W>::gen(r, 1);
        bool nil = r.chance(1, 4);
        int st = (int)r.below(3);
        CallResult c = callStyle(cli, st, target, "uptr", s, nil);
        std::unique_ptr<std::string> ps(new std::string("before"));
        if (!c.isSuccess() || !c.convertObject(ps) || (bool)ps == nil || (ps && *ps != s)) bad("unique_ptr<string>", s, c);
        c = callStyle(cli, st, target, "uptrw", w, nil);
        std::unique_ptr<W> pw(new W(L"before"));
        if (!c.isSuccess() || !c.convertObject(pw) || (bool)pw == nil || (pw && *pw != w)) bad("unique_ptr<wstring>", s, c);
        auto v = Ty<std::vector<int>>::gen(r, 1);
        c = callStyle(cli, st, target, "vuptr", v);
        std::vector<std::unique_ptr<int>> pv;
        bool ok = c.isSuccess() && c.convertObject(pv) && pv.size() == v.size();
        for (size_t k = 0; ok && k < v.size(); k++) ok = v[k] % 3 ? pv[k] && *pv[k] == v[k] : !pv[k];
        if (!ok) bad("vector<unique_ptr>", Ty<std::vector<int>>::node(v).show(), c);
        auto mm = Ty<std::map<std::string, std::vector<int>>>::gen(r, 1);
        c = callStyle(cli, st, target, "muptr", mm);
        std::map<std::string, std::unique_ptr<std::vector<int>>> pm;
        ok = c.isSuccess() && c.convertObject(pm) && pm.size() == mm.size();
        if (ok) for (auto& e : mm) ok = ok && pm.count(e.first) && pm[e.first] && *pm[e.first] == e.second;
        if (!ok) bad("map<string,unique_ptr>", Ty<std::map<std::string, std::vector<int>>>::node(mm).show(), c);
        // arguments given by pointer, wrapper or reference to bytes
        int x = (int)r.next();
        auto sp = std::make_shared<std::string>(s);
        auto xp = std::make_shared<int>(x);
        if (r.chance(1, 3)) sp.reset();
        if (r.chance(1, 3)) xp.reset();
        std::string want = (sp ? s : std::string("nothing")) + "/" + (xp ? std::to_string(x) : "none"), back;
        c = callStyle(cli, st, target, "cuptr", sp, xp);
        if (!c.isSuccess() || !c.convertObject(back) || back != want) bad("const unique_ptr&", s, c);
        c = callStyle(cli, st, target, "obj", std::ref(v));
        if (!c.isSuccess() || !sameValue(Ty<std::vector<int>>::node(v), fromObj(c.obj.get()))) bad("reference_wrapper", s, c);
        c = callStyle(cli, st, target, "obj", std::cref(s));
        if (!c.isSuccess() || !sameValue(Node::str(s), fromObj(c.obj.get()))) bad("const reference_wrapper", s, c);
        c = callStyle(cli, st, target, "rawsize", mt::raw_ref(s.data(), (uint32_t)s.size()));
        if (!c.isSuccess() || !c.convertObject(back) || back != s) bad("raw_ref", s, c);
        int8_t et = (int8_t)r.next();
        std::string eb = std::string(1, (char)et) + s;
        c = callStyle(cli, st, target, "extback", mt::ext_ref(eb.data(), (uint32_t)eb.size()));
        mt::ext ex;
        if (!c.isSuccess() || !c.convertObject(ex) || ex.type() != et || std::string(ex.data(), ex.size()) != s) bad("ext_ref", s, c);
        c = callStyle(cli, st, target, "obj", "a literal");
        if (!c.isSuccess() || !c.convertObject(back) || back != "a literal") bad("literal", "", c);
        c = callStyle(cli, st, target, "cstr", i);
        if (!c.isSuccess() || !c.convertObject(back) || back != (i % 2 ? "odd" : "even")) bad("const char*", "", c);
        c = callStyle(cli, st, target, "sref", s);
        if (!c.isSuccess() || !c.convertObject(back) || back != s) bad("const string&", s, c);
        c = callStyle(cli, st, target, "vref", v);
        std::vector<int> vb;
        if (!c.isSuccess() || !c.convertObject(vb) || vb != v) bad("const vector&", s, c);
        c = callStyle(cli, st, target, "nilback", mt::nil_t());
        if (!c.isSuccess() || fromObj(c.obj.get()).k != Node::NIL) bad("nil", "", c);
        c = callStyle(cli, st, target, "obj", Color::Blue);
        Color col = Color::Red;
        if (!c.isSuccess() || !c.convertObject(col) || col != Color::Blue) bad("enum", "", c);
        c = callStyle(cli, st, target, "own", i);
        if (!c.isSuccess() || !c.convertObject(back) || back != own.s) bad("result in the functor", own.s, c);
        std::vector<std::string> hb;
        for (const char* f : {"held", "held0"}) {
            c = f[4] ? callStyle(cli, st, target, f) : callStyle(cli, st, target, f, i);
            if (!c.isSuccess() || !c.convertObject(hb) || hb != held) bad("captured result", f, c);
        }
        c = callStyle(cli, st, target, "heldarg", v);
        if (!c.isSuccess() || !c.convertObject(vb) || vb != v) bad("argument as the result", "", c);
        c = callStyle(cli, st, target, "heldview", i);
        if (!c.isSuccess() || !c.convertObject(back) || back != own.s) bad("view into the captured", own.s, c);
        c = callStyle(cli, st, target, "argview", s);
        if (!c.isSuccess() || !c.convertObject(back) || back != s) bad("view into the argument", s, c);
        c = callStyle(cli, st, target, "argviews", s);
        if (!c.isSuccess() || !c.convertObject(hb) || hb != std::vector<std::string>(3, s)) bad("views into the argument", s, c);
        c = callStyle(cli, st, target, "argraw", s);
        if (!c.isSuccess() || !c.convertObject(back) || back != s) bad("bytes of the argument", s, c);
        c = callStyle(cli, st, target, "argext", ex);
        mt::ext ex2;
        if (!c.isSuccess() || !c.convertObject(ex2) || !(ex2 == ex)) bad("extension reference to the argument", s, c);
        c = callStyle(cli, st, target, "heldptr", i);
        if (!c.isSuccess() || !c.convertObject(back) || back != own.v[0]) bad("pointer into the captured", own.v[0], c);
        int k = 0;
        int64_t k64 = 0;
        c = callStyle(cli, st, target, "ways", 5, std::string("abc"));
        if (!c.isSuccess() || !c.convertObject(k) || k != 8 + ways.base) bad("functor", "", c);
        c = callStyle(cli, st, target, "func", 1, s, v);
        if (!c.isSuccess() || !c.convertObject(k64) || k64 != 1 + (int64_t)s.size() + (int64_t)v.size()) bad("function pointer", s, c);
        c = callStyle(cli, st, target, "func0");
        if (!c.isSuccess() || !c.convertObject(back) || back != "no arguments") bad("function pointer without arguments", "", c);
        c = callStyle(cli, st, target, "stdfunc", 7);
        if (!c.isSuccess() || !c.convertObject(k) || k != 14 + ways.base) bad("std::function", "", c);
        c = callStyle(cli, st, target, "stdfunc0");
        if (!c.isSuccess() || fromObj(c.obj.get()).k != Node::NIL) bad("std::function<void()>", "", c);
        c = callStyle(cli, st, target, "mut", 2);
        if (!c.isSuccess() || !c.convertObject(k) || k <= 0 || k % 2) bad("mutable lambda", "", c);    // whether it is the same one every time is left open
        c = callStyle(cli, st, target, "nonconst", s, 8);
        if (!c.isSuccess() || !c.convertObject(back) || back != s + "!9") bad("non-const references", s, c);
        eval(14);
        // one that does not fit leaves the reader's value alone or says so
        c = callStyle(cli, st, target, "obj", w);
        std::unique_ptr<std::string> wrong;
        if (!c.isSuccess() || c.convertObject(wrong)) bad("unique_ptr<string> from an array", "", c);
        c = callStyle(cli, st, target, "rawsize", s);
        if (c.isSuccess()) bad("raw_ref from a string", s, c);
        eval(17);
        distinct("odds" + std::to_string(hashStr(s)));
    }
    stat("one_way_types", 60 * args.scale);
    cli.uninit();
    srv.uninit();
}
