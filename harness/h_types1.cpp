// C08, part 1 of the types
#include "types_all.h"
static void registerAll() {
    REG(bool); REG(char); REG(signed char); REG(unsigned char); REG(wchar_t);
    REG(short); REG(unsigned short); REG(int); REG(unsigned int); REG(long); REG(unsigned long); REG(long long); REG(unsigned long long);
    REG(float); REG(double);
}

// Values with more elements, bytes and levels than the encodings' smaller length fields hold, both ways.
template <class T> static void big(World& w, Rng& r, const std::string& name, T v) {
    CallResult c = callStyle(w.cli, (int)r.below(3), w.target, "echo " + name, v);
    eval();
    T back{};
    std::string what = name + " with " + std::to_string(v.size()) + " elements";
    if (!c.isSuccess()) { viol("value-refused:" + name, what + ": " + show(c), "C08,C18"); return; }
    if (!c.convertObject(back)) viol("result-not-convertible:" + name, what, "C08");
    else if (!(back == v)) viol("value-changed:" + name, what + ", came back with " + std::to_string(back.size()), "C08");
    distinct(what);
}
static Node tower(int depth, int shape) {
    Node n = Node::uinteger(7);
    for (int i = 0; i < depth; i++) n = shape == 0 || (shape == 2 && i % 2) ? Node::arr({n}) : Node::map({Node::integer(i), n});
    return n;
}
SCENARIO(bigs) {
    Rng r(args.seed);
    World w;
    w.target = chan("bigs");
    using VI = std::vector<int>; using MI = std::map<int, int>; using VB = std::vector<char>; using VU = std::vector<unsigned char>; using VF = std::vector<bool>; using VS = std::vector<std::string>; using LL = std::list<std::vector<int8_t>>;
    w.srv.bind("echo ints", [](const VI& x) { return x; });
    w.srv.bind("echo map", [](const MI& x) { return x; });
    w.srv.bind("echo string", [](const std::string& x) { return x; });
    w.srv.bind("echo chars", [](const VB& x) { return x; });
    w.srv.bind("echo bytes", [](const VU& x) { return x; });
    w.srv.bind("echo bools", [](const VF& x) { return x; });
    w.srv.bind("echo strings", [](const VS& x) { return x; });
    w.srv.bind("echo lists", [](const LL& x) { return x; });
    w.srv.bind("echo set", [](const std::set<int>& x) { return x; });
    w.srv.bind("obj", [](veigar_msgpack::object o) -> veigar_msgpack::object { return o; });
    w.srv.bind("ext", [](const veigar_msgpack::type::ext& e) { return e; });
    if (!up(w.srv, w.target, 6, 4 << 20) || !up(w.cli, chan("bigsc"), 6, 4 << 20)) { viol("init-failed", "", "C12,C18"); return; }
    static const size_t edges[] = {15, 16, 31, 32, 255, 256, 65534, 65535, 65536, 65537, 70000, 131072};
    auto count = [&](size_t most) { size_t n = r.chance(2, 3) ? r.pick(edges) : r.chance(1, 2) ? r.below(70000) : r.below(most); return std::min(n, most); };
    for (int i = 0; i < 40 * args.scale && !violated(); i++) {
        beat("bigs");
        int kind = i % 12;
        if (kind == 0) { VI v(count(300000)); for (auto& x : v) x = Ty<int>::gen(r, 0); big(w, r, "ints", v); }
        if (kind == 1) { MI v; size_t n = count(140000); int k = (int)r.next(); for (size_t j = 0; j < n; j++) v[(int)((unsigned)k + j * (j % 3 ? 1u : 70001u))] = (int)j; big(w, r, "map", v); }
        if (kind == 2) { std::string v(count(3000000), ' '); for (auto& x : v) x = (char)r.next(); big(w, r, "string", v); }
        if (kind == 3) { VB v(count(3000000)); for (auto& x : v) x = (char)r.next(); big(w, r, "chars", v); }
        if (kind == 4) { VU v(count(3000000)); for (auto& x : v) x = (unsigned char)r.next(); big(w, r, "bytes", v); }
        if (kind == 5) { VF v(count(300000)); for (size_t j = 0; j < v.size(); j++) v[j] = r.chance(1, 2); big(w, r, "bools", v); }
        if (kind == 6) { VS v(count(100000)); for (auto& x : v) x = std::to_string(r.next() >> 40); big(w, r, "strings", v); }
        if (kind == 7) { LL v(count(100000)); for (auto& x : v) x.resize(r.below(3), (int8_t)r.next()); big(w, r, "lists", v); }
        if (kind == 8) { std::set<int> v; size_t n = count(100000); int k = (int)r.next(); for (size_t j = 0; j < n; j++) v.insert((int)((unsigned)k + j * 3)); big(w, r, "set", v); }
        if (kind == 9) {
            std::string b(count(2000000), ' ');
            for (auto& x : b) x = (char)r.next();
            veigar_msgpack::type::ext e((int8_t)r.range(-128, 127), b.data(), (uint32_t)b.size()), back;
            CallResult c = callStyle(w.cli, (int)r.below(3), w.target, "ext", e);
            eval();
            if (!c.isSuccess() || !c.convertObject(back) || !(back == e)) viol("value-changed:ext", fmt("%zu bytes: ", b.size()) + show(c), "C08,C18");
            distinct(fmt("ext %zu", b.size()));
        }
        if (kind >= 10) {
            // with the message and the arguments themselves less than 1000 levels
            static const int d[] = {31, 32, 63, 64, 127, 128, 255, 256, 500, 511, 512, 900, 1000};
            int depth = r.chance(1, 2) ? (int)r.range(1, 900) : r.pick(d);
            Node x = tower(depth, (int)r.below(3));
            auto o = asObject(x);
            CallResult c = callStyle(w.cli, (int)r.below(3), w.target, "obj", o.get());
            eval();
            if (!c.isSuccess() || !sameValue(x, fromObj(c.obj.get()))) viol("object-changed", fmt("%d levels: ", depth) + show(c), "C08,C10");
            distinct(fmt("levels %d", depth));
        }
    }
    w.cli.uninit();
    w.srv.uninit();
}
