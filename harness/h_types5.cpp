// C08, part 5 of the types: times, extensions, fixed encodings, bytes, inheritance and names
#include "types_all.h"
#include <chrono>
#include <cstddef>
#include <ctime>

// MessagePack's timestamp extension, from its specification
static bool stampOf(const Node& n, int64_t& sec, uint32_t& ns) {
    if (n.k != Node::EXT || n.ext != -1) return false;
    auto be = [&](size_t at, size_t k) { uint64_t v = 0; for (size_t i = 0; i < k; i++) v = v << 8 | (uint8_t)n.s[at + i]; return v; };
    if (n.s.size() == 4) { sec = (int64_t)be(0, 4); ns = 0; return true; }
    if (n.s.size() == 8) { uint64_t v = be(0, 8); sec = (int64_t)(v & 0x3ffffffffull); ns = (uint32_t)(v >> 34); return true; }
    if (n.s.size() == 12) { ns = (uint32_t)be(0, 4); sec = (int64_t)be(4, 8); return true; }
    return false;
}
static Node stamp(int64_t sec, uint32_t ns, int form = 0) {
    auto be = [](uint64_t v, size_t k) { std::string s; for (size_t i = k; i > 0; i--) s += (char)(v >> 8 * (i - 1)); return s; };
    if (form == 0) form = (uint64_t)sec >> 34 ? 12 : ns == 0 && (uint64_t)sec >> 32 == 0 ? 4 : 8;
    if (form == 4) return Node::extn(-1, be((uint64_t)sec, 4));
    if (form == 8) return Node::extn(-1, be((uint64_t)ns << 34 | (uint64_t)sec, 8));
    return Node::extn(-1, be(ns, 4) + be((uint64_t)sec, 8));
}
static Node oddStamp(Rng& r) {
    switch (r.below(5)) {
        case 0: return Node::extn(-1, randStr(r, 16));
        case 1: return Node::extn((int8_t)r.range(-3, 1), std::string(r.chance(1, 2) ? 4 : 8, (char)r.next()));
        case 2: return stamp((int64_t)r.next(), (uint32_t)r.below(1000000000), 12);
        case 3: { static const int64_t e[] = {INT64_MAX, INT64_MIN, -1, 0, 1, INT64_MAX / 1000, INT64_MIN / 1000, INT64_MAX / 1000000, INT64_MAX / 1000000000, INT64_MIN / 1000000000, INT64_MAX / 1000000000 + 1, INT64_MIN / 1000000000 - 1};
                  return stamp((int64_t)((uint64_t)r.pick(e) + (uint64_t)r.range(-1, 1)), r.chance(1, 2) ? 0 : (uint32_t)r.below(1000000000), 12); }
        default: return stamp((int64_t)(r.next() >> 30), (uint32_t)r.below(1000000000), 8);
    }
}
template <class C, class D> struct Ty<std::chrono::time_point<C, D>> {
    using T = std::chrono::time_point<C, D>;
    static const int64_t per = D::period::den / D::period::num;      // ticks in a second
    static T gen(Rng& r, int) {
        switch (r.below(7)) {
            case 0: return T(D(r.pick((const int64_t[]){0, 1, -1, per - 1, per, per + 1, -per, -per - 1, 1 - per})));
            case 1: return T(D((int64_t)r.next()));
            case 2: return T(D((int64_t)(r.chance(1, 2) ? INT64_MAX : INT64_MIN + 2 * per)));
            case 3: return T(D((int64_t)(((1ull << 32) + (uint64_t)r.range(-2, 1)) * (uint64_t)per + (r.chance(1, 2) ? 0 : r.below((uint64_t)per)))));
            case 4: return T(D((int64_t)((INT64_MAX / per > (1ll << 34) ? (1ull << 34) + (uint64_t)r.range(-2, 1) : 5) * (uint64_t)per + r.below((uint64_t)per))));
            case 5: return T(D((int64_t)(r.next() >> r.range(1, 63)) * (r.chance(1, 2) ? 1 : -1)));
            default: return std::chrono::time_point_cast<D>(C::now());
        }
    }
    static Node node(const T& v) {
        int64_t c = (int64_t)v.time_since_epoch().count(), s = c / per, t = c % per;
        if (t < 0) { t += per; s--; }
        return stamp(s, (uint32_t)(t * (1000000000 / per)));
    }
    static bool same(const T& a, const T& b) { return a == b; }
    static int accept(const Node& n, T& v) {
        int64_t s;
        uint32_t ns;
        if (!stampOf(n, s, ns)) return NO;
        if (ns > 999999999) return OPEN;
        int64_t t = (int64_t)(ns / (1000000000 / per));
        if (ns % (1000000000 / per)) return OPEN;       // finer than the receiver's ticks
        __int128 x = (__int128)s * per + t;
        if (x > INT64_MAX || x < INT64_MIN) return NO;
        v = T(D((int64_t)x));
        return YES;
    }
    static Node near(Rng& r) { return r.chance(1, 3) ? node(gen(r, 0)) : oddStamp(r); }
};
template <> struct Ty<timespec> {
    static timespec gen(Rng& r, int) {
        timespec t;
        static const int64_t e[] = {0, 1, -1, UINT32_MAX, 1ll << 32, (1ll << 34) - 1, 1ll << 34, INT64_MAX, INT64_MIN};
        t.tv_sec = r.chance(1, 2) ? r.pick(e) : (int64_t)(r.next() >> r.below(64));
        t.tv_nsec = r.chance(1, 3) ? 0 : r.chance(1, 4) ? 999999999 : (long)r.below(1000000000);
        return t;
    }
    static Node node(const timespec& v) { return stamp(v.tv_sec, (uint32_t)v.tv_nsec); }
    static bool same(const timespec& a, const timespec& b) { return a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec; }
    static int accept(const Node& n, timespec& v) {
        int64_t s;
        uint32_t ns;
        if (!stampOf(n, s, ns)) return NO;
        v.tv_sec = s;
        v.tv_nsec = ns;
        return ns > 999999999 ? OPEN : YES;
    }
    static Node near(Rng& r) { return oddStamp(r); }
};
template <> struct Ty<mt::ext> {
    using T = mt::ext;
    static T gen(Rng& r, int d) { std::string s = Ty<std::string>::gen(r, d); return T((int8_t)r.next(), s.data(), (uint32_t)s.size()); }
    static Node node(const T& v) { return Node::extn(v.type(), std::string(v.data(), v.size())); }
    static bool same(const T& a, const T& b) { return a.type() == b.type() && a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
    static int accept(const Node& n, T& v) { if (n.k != Node::EXT) return NO; v = T(n.ext, n.s.data(), (uint32_t)n.s.size()); return YES; }
    static Node near(Rng& r) { return Node::extn((int8_t)r.next(), randStr(r, 300)); }
};
template <> struct Ty<mt::nil_t> {
    using T = mt::nil_t;
    static T gen(Rng&, int) { return T(); }
    static Node node(const T&) { return Node::nil(); }
    static bool same(const T&, const T&) { return true; }
    static int accept(const Node& n, T&) { return n.k == Node::NIL ? YES : NO; }
};
template <class I> struct Ty<mt::fix_int<I>> {
    using T = mt::fix_int<I>;
    static T gen(Rng& r, int d) { return T(Ty<I>::gen(r, d)); }
    static Node node(const T& v) { return Ty<I>::node(v.get()); }
    static bool same(const T& a, const T& b) { return a.get() == b.get(); }
    static int accept(const Node& n, T& v) { I x{}; int rc = Ty<I>::accept(n, x); v = T(x); return rc; }
    static Node near(Rng& r) { return Ty<I>::near(r); }
};
template <> struct Ty<std::vector<std::byte>> : BinTy<std::byte> {};
template <class B, size_t N> struct BinArr {
    using T = std::array<B, N>;
    static T gen(Rng& r, int) { T t; for (auto& x : t) x = (B)(uint8_t)r.next(); return t; }
    static Node node(const T& v) { return Node::bin(std::string((const char*)v.data(), N)); }
    static bool same(const T& a, const T& b) { return a == b; }
    static int accept(const Node& n, T& v) {
        if ((n.k != Node::STR && n.k != Node::BIN) || n.s.size() > N) return NO;
        if (n.s.size() < N) return OPEN;
        memcpy(v.data(), n.s.data(), N);
        return YES;
    }
    static Node near(Rng& r) { std::string b(N + (size_t)r.range(-1, 1), (char)r.next()); return r.chance(1, 2) ? Node::bin(b) : Node::str(b); }
};
template <size_t N> struct Ty<std::array<char, N>> : BinArr<char, N> {};
template <size_t N> struct Ty<std::array<unsigned char, N>> : BinArr<unsigned char, N> {};
template <size_t N> struct Ty<std::array<std::byte, N>> : BinArr<std::byte, N> {};
struct Base { int a = 1; std::string b; MSGPACK_DEFINE(a, b); };
struct Derived : Base { std::vector<int> c; MSGPACK_DEFINE(MSGPACK_BASE(Base), c); };
template <> struct Ty<Derived> {
    static Derived gen(Rng& r, int d) { Derived x; x.a = Ty<int>::gen(r, d); x.b = Ty<std::string>::gen(r, d - 1); x.c = Ty<std::vector<int>>::gen(r, d - 1); return x; }
    static Node node(const Derived& v) { return Node::arr({Node::arr({Ty<int>::node(v.a), Node::str(v.b)}), Ty<std::vector<int>>::node(v.c)}); }
    static bool same(const Derived& x, const Derived& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
    static int accept(const Node& n, Derived&) { return n.k == Node::ARR ? OPEN : NO; }
};
struct Titled { int64_t x = 0; std::string y; std::optional<Color> z; MSGPACK_DEFINE_MAP(MSGPACK_NVP("the x", x), y, MSGPACK_NVP("", z)); };
template <> struct Ty<Titled> {
    static Titled gen(Rng& r, int d) { Titled x; x.x = Ty<int64_t>::gen(r, d); x.y = Ty<std::string>::gen(r, d); x.z = Ty<std::optional<Color>>::gen(r, d); return x; }
    static Node node(const Titled& v) { return Node::map({Node::str("the x"), Ty<int64_t>::node(v.x), Node::str("y"), Node::str(v.y), Node::str(""), Ty<std::optional<Color>>::node(v.z)}); }
    static bool same(const Titled& a, const Titled& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
    // fields in any order, others are ignored, missing ones stay
    static int accept(const Node& n, Titled& v) {
        if (n.k != Node::MAP) return NO;
        int rc = YES;
        std::set<std::string> seen;
        for (size_t i = 0; i < n.a.size(); i += 2) {
            if (n.a[i].k != Node::STR) return OPEN;
            if (!seen.insert(n.a[i].s).second) return OPEN;
            if (n.a[i].s == "the x") rc = combine(rc, Ty<int64_t>::accept(n.a[i + 1], v.x));
            else if (n.a[i].s == "y") rc = combine(rc, Ty<std::string>::accept(n.a[i + 1], v.y));
            else if (n.a[i].s == "") rc = combine(rc, OPEN);
        }
        return rc;
    }
    static Node near(Rng& r) {
        Node n = Node::map({});
        static const char* k[] = {"the x", "y", "", "x", "the x ", "Y"};
        for (uint64_t i = 0, c = r.below(5); i < c; i++) { std::string s = r.pick(k); n.a.push_back(Node::str(s)); n.a.push_back(s == "the x" ? Ty<int64_t>::near(r) : s == "y" ? Node::str(randStr(r)) : s == "" ? Node::integer(7) : randNode(r, 1)); }
        return n;
    }
};
// every member holds something before it is read
struct Filled {
    std::vector<bool> a{true, false}; std::vector<int> b{1, 2}; std::string c = "some"; std::map<int, bool> d{{1, true}}; std::optional<int> e = 7;
    std::set<int> f{3}; std::list<std::vector<bool>> g{{true}, {}}; std::vector<char> h{'x'}; std::shared_ptr<int> i = std::make_shared<int>(9);
    std::multimap<int, std::string> j{{1, "y"}}; std::wstring k = L"zz"; std::deque<std::string> l{"q", "r"}; std::unordered_map<int, int> m{{5, 6}}; std::array<std::vector<bool>, 2> n{{{true}, {false, true}}};
    MSGPACK_DEFINE(a, b, c, d, e, f, g, h, i, j, k, l, m, n);
};
struct FilledMap { std::vector<bool> a{true}; std::string b = "some"; std::vector<std::string> c{"p"}; MSGPACK_DEFINE_MAP(a, b, c); };
#define FILLED(X) X(a) X(b) X(c) X(d) X(e) X(f) X(g) X(h) X(i) X(j) X(k) X(l) X(m) X(n)
template <> struct Ty<Filled> {
    static Filled gen(Rng& r, int d) {
        Filled x;
#define X(q) x.q = r.chance(1, 3) ? decltype(x.q){} : Ty<decltype(x.q)>::gen(r, d - 1);
        FILLED(X)
#undef X
        return x;
    }
    static Node node(const Filled& x) {
        Node n = Node::arr({});
#define X(q) n.a.push_back(Ty<std::decay_t<decltype(x.q)>>::node(x.q));
        FILLED(X)
#undef X
        return n;
    }
    static bool same(const Filled& x, const Filled& y) {
        bool ok = true;
#define X(q) ok = ok && Ty<std::decay_t<decltype(x.q)>>::same(x.q, y.q);
        FILLED(X)
#undef X
        return ok;
    }
    static int accept(const Node& n, Filled&) { return n.k == Node::ARR ? OPEN : NO; }
};
template <> struct Ty<FilledMap> {
    static FilledMap gen(Rng& r, int d) { FilledMap x; x.a = r.chance(1, 2) ? std::vector<bool>{} : Ty<std::vector<bool>>::gen(r, d); x.b = Ty<std::string>::gen(r, d - 1); x.c = Ty<std::vector<std::string>>::gen(r, d - 1); return x; }
    static Node node(const FilledMap& v) { return Node::map({Node::str("a"), Ty<std::vector<bool>>::node(v.a), Node::str("b"), Node::str(v.b), Node::str("c"), Ty<std::vector<std::string>>::node(v.c)}); }
    static bool same(const FilledMap& x, const FilledMap& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
    static int accept(const Node& n, FilledMap&) { return n.k == Node::MAP ? OPEN : NO; }
};
enum class Wide : uint64_t { Lo = 0, Hi = UINT64_MAX };
MSGPACK_ADD_ENUM(Wide);
enum class Tiny : int8_t { Lo = -128, Hi = 127 };
MSGPACK_ADD_ENUM(Tiny);
enum Plainest : int { P0, P1 = 300, P2 = -40000 };
MSGPACK_ADD_ENUM(Plainest);
template <class E> struct EnumTy {
    using U = std::underlying_type_t<E>;
    static Node node(const E& v) { return Ty<U>::node((U)v); }
    static bool same(const E& a, const E& b) { return a == b; }
    static int accept(const Node& n, E&) { return n.k == Node::UINT || n.k == Node::NEG ? OPEN : NO; }
};
template <> struct Ty<Wide> : EnumTy<Wide> { static Wide gen(Rng& r, int) { return r.chance(1, 2) ? Wide::Lo : Wide::Hi; } };
template <> struct Ty<Tiny> : EnumTy<Tiny> { static Tiny gen(Rng& r, int) { return r.chance(1, 2) ? Tiny::Lo : Tiny::Hi; } };
template <> struct Ty<Plainest> {
    static Plainest gen(Rng& r, int) { static const Plainest p[] = {P0, P1, P2}; return r.pick(p); }
    static Node node(const Plainest& v) { return Node::integer((int)v); }
    static bool same(const Plainest& a, const Plainest& b) { return a == b; }
    static int accept(const Node& n, Plainest&) { return n.k == Node::UINT || n.k == Node::NEG ? OPEN : NO; }
};

using Clk = std::chrono::system_clock;
using Nano = std::chrono::time_point<Clk, std::chrono::nanoseconds>;
using Micro = std::chrono::time_point<Clk, std::chrono::microseconds>;
using Milli = std::chrono::time_point<Clk, std::chrono::milliseconds>;
using Secs = std::chrono::time_point<Clk, std::chrono::seconds>;
using Steady = std::chrono::steady_clock::time_point;
using UMM = std::unordered_multimap<int, std::string>;
using Assoc = mt::assoc_vector<std::string, int>;
using Arr5 = std::array<std::byte, 5>;
using Arr0 = std::array<int, 0>;
using Stamps = std::vector<Nano>;
static void registerAll() {
    REG(Nano); REG(Micro); REG(Milli); REG(Secs); REG(Steady); REG(timespec); REG(Stamps); REG(std::optional<Milli>);
    REG(mt::ext); REG(std::vector<mt::ext>); REG(mt::nil_t);
    REG(mt::fix_int8); REG(mt::fix_int16); REG(mt::fix_int32); REG(mt::fix_int64); REG(mt::fix_uint8); REG(mt::fix_uint16); REG(mt::fix_uint32); REG(mt::fix_uint64);
    REG(std::vector<std::byte>); REG(std::array<char, 1>); REG(std::array<unsigned char, 33>); REG(Arr5); REG(Arr0); REG(std::array<std::string, 3>);
    REG(std::unordered_multiset<int>); REG(UMM); REG(Assoc); REG(Derived); REG(Titled); REG(std::vector<Titled>);
    REG(Wide); REG(Tiny); REG(Plainest); REG(std::tuple<std::string>); REG(std::tuple<>); REG(Filled); REG(FilledMap);
}
