// C08: values of every supported type, as arguments and as results, checked at the receiver, at the caller and as they
// travel; and values that do not fit the receiving type.
#pragma once
#include "rpc.h"
#include "wire.h"
#include <array>
#include <complex>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <optional>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include "veigar/msgpack/adaptor/define.hpp"
using namespace vh;
namespace mt = veigar_msgpack::type;

struct Plain {
    int a = 0;
    std::string b;
    std::vector<double> c;
    MSGPACK_DEFINE(a, b, c);
};
struct Deep {
    Plain p;
    std::map<std::string, Plain> m;
    std::optional<int64_t> o;
    std::pair<bool, uint8_t> q;
    MSGPACK_DEFINE(p, m, o, q);
};
struct Named {
    int64_t x = 0;
    std::string y;
    MSGPACK_DEFINE_MAP(x, y);
};
struct Fixed {                             // arrays of fixed size
    int x[4] = {0, 0, 0, 0};
    char s[6] = {0, 0, 0, 0, 0, 0};
    unsigned char w[6] = {0, 0, 0, 0, 0, 0};
    std::array<char, 8> t{};
    std::array<unsigned char, 8> u{};
    MSGPACK_DEFINE(x, s, w, t, u);
};
enum class Color { Red = 0, Green = 7, Blue = -3 };
MSGPACK_ADD_ENUM(Color);

enum { NO = 0, YES = 1, OPEN = -1, MAYBE = -2 };    // OPEN: not laid down, any outcome goes; MAYBE: refused, or exactly this

template <class T, class = void> struct Ty;

template <class T> struct Ty<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    using L = std::numeric_limits<T>;
    static T gen(Rng& r, int) {
        switch (r.below(6)) {
            case 0: return L::max();
            case 1: return L::min();
            case 2: return (T)r.range(-2, 2);
            default: return r.chance(1, 2) ? (T)randBits(r) : (T)(0 - randBits(r));
        }
    }
    static Node node(const T& v) { return L::is_signed && v < 0 ? Node::integer((int64_t)v) : Node::uinteger((uint64_t)v); }
    static bool same(const T& a, const T& b) { return a == b; }
    static int accept(const Node& n, T& v) {
        if (n.k == Node::UINT) { if (n.u > (uint64_t)L::max()) return NO; v = (T)n.u; return YES; }
        if (n.k == Node::NEG) { if (!L::is_signed || (int64_t)n.u < (int64_t)L::min()) return NO; v = (T)(int64_t)n.u; return YES; }
        return NO;
    }
    // just inside and outside the range
    static Node near(Rng& r) {
        uint64_t mx = (uint64_t)L::max();
        switch (r.below(6)) {
            case 0: return Node::uinteger(mx);
            case 1: return mx == ~0ull ? Node::uinteger(mx) : Node::uinteger(mx + 1);
            case 2: return L::is_signed ? Node::integer((int64_t)L::min()) : Node::integer(0);
            case 3: return L::is_signed ? ((int64_t)L::min() == INT64_MIN ? Node::integer(INT64_MIN) : Node::integer((int64_t)L::min() - 1)) : Node::integer(-1);
            case 4: return Node::uinteger(randBits(r));
            default: return Node::integer(-(int64_t)(randBits(r) >> 1) - 1);
        }
    }
};
template <> struct Ty<bool> {
    static bool gen(Rng& r, int) { return r.chance(1, 2); }
    static Node node(const bool& v) { return Node::boolean(v); }
    static bool same(const bool& a, const bool& b) { return a == b; }
    static int accept(const Node& n, bool& v) { if (n.k != Node::BOOL) return NO; v = n.u; return YES; }
};
template <class T> struct Ty<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static T gen(Rng& r, int) {
        using L = std::numeric_limits<T>;
        switch (r.below(12)) {
            case 0: return L::infinity();
            case 1: return -L::infinity();
            case 2: return L::quiet_NaN();
            case 3: return L::max();
            case 4: return L::lowest();
            case 5: return L::denorm_min();
            case 6: return (T)-0.0;
            case 7: return (T)(int64_t)randBits(r);
            case 8: return (T)9223372036854775808.0 * (T)(r.chance(1, 2) ? 1 : 2) * (T)(r.chance(1, 2) ? 1 : -1);
            case 9: { T x; uint64_t b = r.next(); memcpy(&x, &b, sizeof x); return x; }
            default: return (T)((double)(int64_t)r.next() / 1e15);
        }
    }
    static Node node(const T& v) { return sizeof(T) == 4 ? Node::f32((float)v) : Node::f64((double)v); }
    static bool same(const T& a, const T& b) { return a == b || (a != a && b != b); }
    static int accept(const Node& n, T& v) {
        if (n.k == Node::F32) { float f; uint32_t b = (uint32_t)n.bits; memcpy(&f, &b, 4); v = f; return YES; }
        if (n.k == Node::F64) { double d; memcpy(&d, &n.bits, 8); v = (T)d; return sizeof(T) == 8 ? YES : OPEN; }
        return n.k == Node::UINT || n.k == Node::NEG ? OPEN : NO;
    }
};
static size_t genSize(Rng& r, int depth) {
    if (depth <= 0) return r.below(4);
    switch (r.below(60)) {
        case 0: return 15;
        case 1: return 16;
        case 2: return 17;
        case 3: return 255;
        case 4: return 256;
        case 5: return r.chance(1, 12) ? 65535 : 31;
        case 6: return r.chance(1, 12) ? 65536 : 32;
        case 7: return r.below(300);
        default: return r.below(6);
    }
}
template <> struct Ty<std::string> {
    static std::string gen(Rng& r, int d) { std::string s = randStr(r, 2000); if (d > 1 && r.chance(1, 60)) s.assign(r.chance(1, 2) ? 65535 + r.below(3) : r.below(1500000), (char)r.next()); return s; }
    static Node node(const std::string& v) { return Node::str(v); }
    static bool same(const std::string& a, const std::string& b) { return a == b; }
    static int accept(const Node& n, std::string& v) { if (n.k != Node::STR && n.k != Node::BIN) return NO; v = n.s; return YES; }
};
template <> struct Ty<std::wstring> {
    static std::wstring gen(Rng& r, int d) { std::wstring s(genSize(r, d), L'x'); for (auto& c : s) c = (wchar_t)r.below(0x110000); return s; }
    static Node node(const std::wstring& v) { Node n = Node::arr({}); for (auto c : v) n.a.push_back(Node::integer((int64_t)c)); return n; }
    static bool same(const std::wstring& a, const std::wstring& b) { return a == b; }
    static int accept(const Node& n, std::wstring& v) {
        if (n.k != Node::ARR) return NO;
        v.clear();
        for (auto& x : n.a) { wchar_t c = 0; if (Ty<wchar_t>::accept(x, c) == NO) return NO; v.push_back(c); }
        return YES;
    }
};
template <class B> struct BinTy {
    using T = std::vector<B>;
    static T gen(Rng& r, int d) { std::string s = Ty<std::string>::gen(r, d); return T((const B*)s.data(), (const B*)s.data() + s.size()); }
    static Node node(const T& v) { return Node::bin(std::string((const char*)v.data(), v.size())); }
    static bool same(const T& a, const T& b) { return a == b; }
    static int accept(const Node& n, T& v) { if (n.k != Node::STR && n.k != Node::BIN) return NO; v.assign((const B*)n.s.data(), (const B*)n.s.data() + n.s.size()); return YES; }
};
template <> struct Ty<std::vector<char>> : BinTy<char> {};
template <> struct Ty<std::vector<unsigned char>> : BinTy<unsigned char> {};

static int combine(int a, int b) { return a == NO || b == NO ? NO : a == OPEN || b == OPEN ? OPEN : a == MAYBE || b == MAYBE ? MAYBE : YES; }

template <class C> struct SeqTy {
    using E = typename C::value_type;
    static C gen(Rng& r, int d) {
        size_t n = genSize(r, d);
        if (sizeof(E) > 16 && n > 400) n = 400;
        std::vector<E> v;
        for (size_t i = 0; i < n; i++) v.push_back(Ty<E>::gen(r, d - 1));
        return C(v.begin(), v.end());
    }
    static Node node(const C& v) { Node n = Node::arr({}); for (const auto& x : v) n.a.push_back(Ty<E>::node(x)); return n; }
    static bool same(const C& a, const C& b) {
        auto i = a.begin(), j = b.begin();
        for (; i != a.end() && j != b.end(); ++i, ++j) if (!Ty<E>::same(*i, *j)) return false;
        return i == a.end() && j == b.end();
    }
    static int accept(const Node& n, C& v) {
        if (n.k != Node::ARR) return NO;
        int rc = YES;
        std::vector<E> t;
        for (auto& x : n.a) { E e{}; rc = combine(rc, Ty<E>::accept(x, e)); t.push_back(e); }
        v = C(t.begin(), t.end());
        return rc;
    }
};
template <class E> struct Ty<std::vector<E>, std::enable_if_t<!std::is_same<E, char>::value && !std::is_same<E, unsigned char>::value && !std::is_same<E, bool>::value>> : SeqTy<std::vector<E>> {};
template <class E> struct Ty<std::list<E>> : SeqTy<std::list<E>> {};
template <class E> struct Ty<std::deque<E>> : SeqTy<std::deque<E>> {};
template <class E> struct Ty<std::forward_list<E>> : SeqTy<std::forward_list<E>> {};
template <class E> struct Ty<std::set<E>> : SeqTy<std::set<E>> {};
template <class E> struct Ty<std::multiset<E>> : SeqTy<std::multiset<E>> {};
template <> struct Ty<std::vector<bool>> {
    using T = std::vector<bool>;
    static T gen(Rng& r, int d) { T v(genSize(r, d)); for (size_t i = 0; i < v.size(); i++) v[i] = r.chance(1, 2); return v; }
    static Node node(const T& v) { Node n = Node::arr({}); for (bool b : v) n.a.push_back(Node::boolean(b)); return n; }
    static bool same(const T& a, const T& b) { return a == b; }
    static int accept(const Node& n, T& v) {
        if (n.k != Node::ARR) return NO;
        v.clear();
        for (auto& x : n.a) { if (x.k != Node::BOOL) return NO; v.push_back(x.u); }
        return YES;
    }
};
template <class E> struct Ty<std::unordered_set<E>> {
    using T = std::unordered_set<E>;
    static T gen(Rng& r, int d) { auto v = Ty<std::vector<E>>::gen(r, d); return T(v.begin(), v.end()); }
    static Node node(const T& v) { Node n = Node::arr({}); for (auto& x : v) n.a.push_back(Ty<E>::node(x)); return n; }
    static bool same(const T& a, const T& b) { return a == b; }
    static int accept(const Node& n, T&) { return n.k == Node::ARR ? OPEN : NO; }
};
template <class C> struct MapTy {
    using K = std::remove_const_t<typename C::value_type::first_type>;
    using V = typename C::value_type::second_type;
    static C gen(Rng& r, int d) {
        size_t n = genSize(r, d);
        if (n > 300 && sizeof(V) > 16) n = 300;
        C m;
        for (size_t i = 0; i < n; i++) m.insert({Ty<K>::gen(r, 0), Ty<V>::gen(r, d - 1)});
        return m;
    }
    static Node node(const C& v) { Node n = Node::map({}); for (auto& x : v) { n.a.push_back(Ty<K>::node(x.first)); n.a.push_back(Ty<V>::node(x.second)); } return n; }
    static int accept(const Node& n, C& v) {
        if (n.k != Node::MAP) return NO;
        int rc = YES;
        for (size_t i = 0; i < n.a.size(); i += 2) {
            K k{};
            V e{};
            rc = combine(rc, combine(Ty<K>::accept(n.a[i], k), Ty<V>::accept(n.a[i + 1], e)));
            v.insert({k, e});
        }
        if (rc == YES && v.size() * 2 != n.a.size()) rc = OPEN;
        return rc;
    }
};
template <class C> struct OrdMapTy : MapTy<C> {
    using B = MapTy<C>;
    static bool same(const C& a, const C& b) {
        auto i = a.begin(), j = b.begin();
        for (; i != a.end() && j != b.end(); ++i, ++j) if (!Ty<typename B::K>::same(i->first, j->first) || !Ty<typename B::V>::same(i->second, j->second)) return false;
        return i == a.end() && j == b.end();
    }
};
template <class K, class V> struct Ty<std::map<K, V>> : OrdMapTy<std::map<K, V>> {};
template <class K, class V> struct Ty<std::multimap<K, V>> : OrdMapTy<std::multimap<K, V>> {
    static int accept(const Node& n, std::multimap<K, V>& v) { int rc = MapTy<std::multimap<K, V>>::accept(n, v); return rc == NO ? NO : OPEN; }
};
template <class K, class V> struct Ty<std::unordered_map<K, V>> : MapTy<std::unordered_map<K, V>> {
    static bool same(const std::unordered_map<K, V>& a, const std::unordered_map<K, V>& b) { return a == b; }
};
template <class E> struct Ty<std::unordered_multiset<E>> {
    using T = std::unordered_multiset<E>;
    static T gen(Rng& r, int d) { auto v = Ty<std::vector<E>>::gen(r, d); T t(v.begin(), v.end()); if (!v.empty()) t.insert(v[0]); return t; }
    static Node node(const T& v) { Node n = Node::arr({}); for (auto& x : v) n.a.push_back(Ty<E>::node(x)); return n; }
    static bool same(const T& a, const T& b) { return a == b; }
    static int accept(const Node& n, T&) { return n.k == Node::ARR ? OPEN : NO; }
};
template <class K, class V> struct Ty<std::unordered_multimap<K, V>> : MapTy<std::unordered_multimap<K, V>> {
    using T = std::unordered_multimap<K, V>;
    static bool same(const T& a, const T& b) { return a == b; }
    static int accept(const Node& n, T& v) { int rc = MapTy<T>::accept(n, v); return rc == NO ? NO : OPEN; }
};
template <class K, class V> struct Ty<mt::assoc_vector<K, V>> {
    using T = mt::assoc_vector<K, V>;
    // it sorts what it reads
    static T gen(Rng& r, int d) { T t; for (auto& x : Ty<std::map<K, V>>::gen(r, d)) t.push_back(x); return t; }
    static Node node(const T& v) { Node n = Node::map({}); for (auto& x : v) { n.a.push_back(Ty<K>::node(x.first)); n.a.push_back(Ty<V>::node(x.second)); } return n; }
    static bool same(const T& a, const T& b) { return a == b; }
    static int accept(const Node& n, T& v) {
        if (n.k != Node::MAP) return NO;
        int rc = YES;
        for (size_t i = 0; i < n.a.size(); i += 2) { K k{}; V e{}; rc = combine(rc, combine(Ty<K>::accept(n.a[i], k), Ty<V>::accept(n.a[i + 1], e))); v.push_back({k, e}); }
        return rc == NO ? NO : OPEN;
    }
};
template <class A, class B> struct Ty<std::pair<A, B>> {
    using T = std::pair<A, B>;
    static T gen(Rng& r, int d) { A a = Ty<A>::gen(r, d - 1); return T(a, Ty<B>::gen(r, d - 1)); }
    static Node node(const T& v) { return Node::arr({Ty<A>::node(v.first), Ty<B>::node(v.second)}); }
    static bool same(const T& a, const T& b) { return Ty<A>::same(a.first, b.first) && Ty<B>::same(a.second, b.second); }
    static int accept(const Node& n, T& v) {
        if (n.k != Node::ARR || n.a.size() != 2) return NO;
        return combine(Ty<A>::accept(n.a[0], v.first), Ty<B>::accept(n.a[1], v.second));
    }
    static Node near(Rng& r) { Node n = node(gen(r, 1)); if (r.chance(1, 2)) n.a.resize(r.below(2)); else n.a.push_back(n.a[0]); return n; }
};
template <class TUP, class... A> struct TupTy {
    using T = TUP;
    template <size_t... I> static void fill(T& t, Rng& r, int d, std::index_sequence<I...>) { ((std::get<I>(t) = Ty<A>::gen(r, d - 1)), ...); }
    template <size_t... I> static void nodes(const T& t, Node& n, std::index_sequence<I...>) { (n.a.push_back(Ty<A>::node(std::get<I>(t))), ...); }
    template <size_t... I> static bool sameI(const T& a, const T& b, std::index_sequence<I...>) { return (Ty<A>::same(std::get<I>(a), std::get<I>(b)) && ...); }
    using S = std::index_sequence_for<A...>;
    static T gen(Rng& r, int d) { T t; fill(t, r, d, S()); return t; }
    static Node node(const T& v) { Node n = Node::arr({}); nodes(v, n, S()); return n; }
    static bool same(const T& a, const T& b) { return sameI(a, b, S()); }
    template <size_t... I> static int acceptI(const Node& n, T& t, std::index_sequence<I...>) { int rc = YES; ((rc = combine(rc, Ty<A>::accept(n.a[I], std::get<I>(t)))), ...); return rc; }
    static int accept(const Node& n, T& v) {
        if (n.k != Node::ARR) return NO;
        if (n.a.size() < sizeof...(A)) return OPEN;
        int rc = acceptI(n, v, S());
        return n.a.size() > sizeof...(A) ? combine(rc, MAYBE) : rc;
    }
    static Node near(Rng& r) { Node n = node(gen(r, 1)); if (r.chance(1, 2)) n.a.resize(r.below(n.a.size() + 1)); else n.a.push_back(n.a.empty() || r.chance(1, 2) ? randNode(r, 1) : n.a[0]); return n; }
};
template <class... A> struct Ty<std::tuple<A...>> : TupTy<std::tuple<A...>, A...> {};
template <class E, size_t N> struct Ty<std::array<E, N>> {
    using T = std::array<E, N>;
    static T gen(Rng& r, int d) { T t; for (auto& x : t) x = Ty<E>::gen(r, d - 1); return t; }
    static Node node(const T& v) { Node n = Node::arr({}); for (auto& x : v) n.a.push_back(Ty<E>::node(x)); return n; }
    static bool same(const T& a, const T& b) { for (size_t i = 0; i < N; i++) if (!Ty<E>::same(a[i], b[i])) return false; return true; }
    static int accept(const Node& n, T& v) {
        if (n.k != Node::ARR || n.a.size() > N) return NO;
        if (n.a.size() < N) return OPEN;
        int rc = YES;
        for (size_t i = 0; i < N; i++) rc = combine(rc, Ty<E>::accept(n.a[i], v[i]));
        return rc;
    }
    static Node near(Rng& r) { Node n = node(gen(r, 1)); if (r.chance(1, 2)) n.a.resize(r.below(n.a.size() + 1)); else n.a.push_back(n.a.empty() ? Node::nil() : n.a[0]); return n; }
};
template <class E> struct Ty<std::optional<E>> {
    using T = std::optional<E>;
    static T gen(Rng& r, int d) { if (r.chance(1, 3)) return T(); return T(Ty<E>::gen(r, d)); }
    static Node node(const T& v) { return v ? Ty<E>::node(*v) : Node::nil(); }
    static bool same(const T& a, const T& b) { return (bool)a == (bool)b && (!a || Ty<E>::same(*a, *b)); }
    static int accept(const Node& n, T& v) { if (n.k == Node::NIL) { v.reset(); return YES; } E e{}; int rc = Ty<E>::accept(n, e); v = e; return rc; }
};
template <class E> struct Ty<std::shared_ptr<E>> {
    using T = std::shared_ptr<E>;
    static T gen(Rng& r, int d) { return r.chance(1, 3) ? T() : std::make_shared<E>(Ty<E>::gen(r, d)); }
    static Node node(const T& v) { return v ? Ty<E>::node(*v) : Node::nil(); }
    static bool same(const T& a, const T& b) { return (bool)a == (bool)b && (!a || Ty<E>::same(*a, *b)); }
    static int accept(const Node& n, T&) { E e{}; return n.k == Node::NIL ? OPEN : Ty<E>::accept(n, e) == NO ? NO : OPEN; }
};
template <> struct Ty<std::complex<double>> {
    using T = std::complex<double>;
    static T gen(Rng& r, int d) { double a = Ty<double>::gen(r, d); return T(a, Ty<double>::gen(r, d)); }
    static Node node(const T& v) { return Node::arr({Node::f64(v.real()), Node::f64(v.imag())}); }
    static bool same(const T& a, const T& b) { return Ty<double>::same(a.real(), b.real()) && Ty<double>::same(a.imag(), b.imag()); }
    static int accept(const Node& n, T&) { return n.k == Node::ARR && n.a.size() == 2 ? OPEN : NO; }
    static Node near(Rng& r) { Node n = node(gen(r, 1)); if (r.chance(1, 2)) n.a.resize(r.below(2)); else n.a.push_back(n.a.empty() ? Node::nil() : n.a[0]); return n; }
};
template <> struct Ty<Plain> {
    static Plain gen(Rng& r, int d) { Plain p; p.a = Ty<int>::gen(r, d); p.b = Ty<std::string>::gen(r, d - 1); p.c = Ty<std::vector<double>>::gen(r, d - 1); return p; }
    static Node node(const Plain& v) { return Node::arr({Ty<int>::node(v.a), Ty<std::string>::node(v.b), Ty<std::vector<double>>::node(v.c)}); }
    static bool same(const Plain& x, const Plain& y) { return x.a == y.a && x.b == y.b && Ty<std::vector<double>>::same(x.c, y.c); }
    static int accept(const Node& n, Plain& v) {
        if (n.k != Node::ARR) return NO;
        if (n.a.size() != 3) return OPEN;
        return combine(Ty<int>::accept(n.a[0], v.a), combine(Ty<std::string>::accept(n.a[1], v.b), Ty<std::vector<double>>::accept(n.a[2], v.c)));
    }
};
template <> struct Ty<Deep> {
    using M = std::map<std::string, Plain>;
    static Deep gen(Rng& r, int d) { Deep x; x.p = Ty<Plain>::gen(r, d); x.m = Ty<M>::gen(r, d - 1); x.o = Ty<std::optional<int64_t>>::gen(r, d); x.q = Ty<std::pair<bool, uint8_t>>::gen(r, d); return x; }
    static Node node(const Deep& v) { return Node::arr({Ty<Plain>::node(v.p), Ty<M>::node(v.m), Ty<std::optional<int64_t>>::node(v.o), Ty<std::pair<bool, uint8_t>>::node(v.q)}); }
    static bool same(const Deep& x, const Deep& y) { return Ty<Plain>::same(x.p, y.p) && Ty<M>::same(x.m, y.m) && x.o == y.o && x.q == y.q; }
    static int accept(const Node& n, Deep& v) {
        if (n.k != Node::ARR) return NO;
        if (n.a.size() != 4) return OPEN;
        return combine(combine(Ty<Plain>::accept(n.a[0], v.p), Ty<M>::accept(n.a[1], v.m)),
                       combine(Ty<std::optional<int64_t>>::accept(n.a[2], v.o), Ty<std::pair<bool, uint8_t>>::accept(n.a[3], v.q)));
    }
};
template <> struct Ty<Named> {
    static Named gen(Rng& r, int d) { Named x; x.x = Ty<int64_t>::gen(r, d); x.y = Ty<std::string>::gen(r, d); return x; }
    static Node node(const Named& v) { return Node::map({Node::str("x"), Ty<int64_t>::node(v.x), Node::str("y"), Node::str(v.y)}); }
    static bool same(const Named& a, const Named& b) { return a.x == b.x && a.y == b.y; }
    static int accept(const Node& n, Named&) { return n.k == Node::MAP ? OPEN : NO; }
};
template <> struct Ty<Fixed> {
    static Fixed gen(Rng& r, int) {
        Fixed f;
        for (auto& x : f.x) x = Ty<int>::gen(r, 0);
        for (size_t i = 0, l = r.below(7); i < l; i++) f.s[i] = (char)r.range(1, 255);   // a C string
        for (auto& c : f.w) c = (unsigned char)r.next();
        for (auto& c : f.t) c = (char)r.next();
        for (auto& c : f.u) c = (unsigned char)r.next();
        return f;
    }
    static Node node(const Fixed& f) {
        Node x = Node::arr({});
        for (int v : f.x) x.a.push_back(Node::integer(v));
        return Node::arr({x, Node::str(std::string(f.s, strnlen(f.s, sizeof f.s))), Node::bin(std::string((const char*)f.w, sizeof f.w)), Node::bin(std::string(f.t.data(), 8)), Node::bin(std::string((const char*)f.u.data(), 8))});
    }
    static bool same(const Fixed& a, const Fixed& b) { return !memcmp(a.x, b.x, sizeof a.x) && !memcmp(a.s, b.s, sizeof a.s) && !memcmp(a.w, b.w, sizeof a.w) && a.t == b.t && a.u == b.u; }
    // shorter ones leave the rest as it was, which is 0 here
    static int accept(const Node& n, Fixed& f) {
        if (n.k != Node::ARR) return NO;
        if (n.a.size() != 5) return OPEN;
        int rc = YES;
        auto bytes = [&](const Node& m, char* p, size_t z) {
            if ((m.k != Node::STR && m.k != Node::BIN) || m.s.size() > z) { rc = NO; return; }
            memset(p, 0, z);
            memcpy(p, m.s.data(), m.s.size());
        };
        if (n.a[0].k != Node::ARR || n.a[0].a.size() > 4) return NO;
        for (size_t i = 0; i < n.a[0].a.size(); i++) rc = combine(rc, Ty<int>::accept(n.a[0].a[i], f.x[i]));
        bytes(n.a[1], f.s, sizeof f.s);
        bytes(n.a[2], (char*)f.w, sizeof f.w);
        bytes(n.a[3], f.t.data(), 8);
        bytes(n.a[4], (char*)f.u.data(), 8);
        return rc;
    }
    static Node near(Rng& r) {
        Node n = node(gen(r, 0));
        for (int i = 0; i < 5; i++) {
            if (r.chance(1, 2)) continue;
            if (i == 0) { n.a[0].a.clear(); for (uint64_t k = 0, c = r.below(6); k < c; k++) n.a[0].a.push_back(Node::integer((int)r.next())); }
            else { std::string b = randStr(r, 9); if (r.chance(3, 4)) b = b.substr(0, 8); n.a[i] = r.chance(1, 2) ? Node::bin(b) : Node::str(b); }
        }
        return n;
    }
};
template <> struct Ty<Color> {
    static Color gen(Rng& r, int) { static const Color c[] = {Color::Red, Color::Green, Color::Blue}; return r.pick(c); }
    static Node node(const Color& v) { return Node::integer((int)v); }
    static bool same(const Color& a, const Color& b) { return a == b; }
    static int accept(const Node& n, Color&) { return n.k == Node::UINT || n.k == Node::NEG ? OPEN : NO; }
};

// ---------------------------------------------------------------------------------------------------------------------
template <class... A> static CallResult callStyle(Veigar& v, int style, const std::string& target, const std::string& fn, A... a) {
    if (style == 0) return v.syncCall(target, 60000, fn, a...);
    if (style == 1) {
        auto r = v.asyncCall(target, 60000, fn, a...);
        if (r->second.wait_for(std::chrono::seconds(60)) != std::future_status::ready) { CallResult c; c.errorMessage = "no completion"; return c; }
        CallResult c = r->second.get();
        v.releaseCall(r->first);
        return c;
    }
    auto p = std::make_shared<std::promise<CallResult>>();
    auto f = p->get_future();
    v.asyncCall([p](const CallResult& c) { p->set_value(toResult(c)); }, target, 60000, fn, a...);
    if (f.wait_for(std::chrono::seconds(60)) != std::future_status::ready) { CallResult c; c.errorMessage = "no completion"; return c; }
    return f.get();
}

struct World {
    Veigar srv, cli;
    std::string target;
    std::atomic<int64_t> ran{0};           // executions of any handler
    std::mutex m;
    Node reply;                            // what "any" returns
};

template <class T> struct Slot {
    std::mutex m;
    std::map<uint64_t, T> got, give;
    std::atomic<int> ran{0};
};

struct TypeTest {
    std::string name;
    std::function<void(World&)> bind;
    std::function<void(World&, Rng&, int)> match, mismatch;
};
static std::vector<TypeTest>& tests() { static auto* v = new std::vector<TypeTest>; return *v; }

static void mutate(Rng& r, Node& n, const Node& by) {
    if (!n.a.empty() && r.chance(3, 4)) mutate(r, n.a[r.below(n.a.size())], by);
    else n = by;
}
// packs a Node as the library's object
static veigar_msgpack::object_handle asObject(const Node& n) {
    std::string b = enc(n);
    return veigar_msgpack::unpack(b.data(), b.size());
}
template <class T, class = void> struct Near { static Node get(Rng& r) { return randNode(r, 2); } };
template <class T> struct Near<T, std::void_t<decltype(Ty<T>::near(std::declval<Rng&>()))>> { static Node get(Rng& r) { return Ty<T>::near(r); } };

template <class T> static void reg(const std::string& name) {
    auto slot = std::make_shared<Slot<T>>();
    TypeTest t;
    t.name = name;
    std::string fn = "echo " + name, fr = "ref " + name;
    t.bind = [=](World& w) {
        auto h = [slot](uint64_t tok, T v) -> T {
            std::lock_guard<std::mutex> lg(slot->m);
            slot->ran++;
            slot->got.emplace(tok, v);
            auto it = slot->give.find(tok);
            return it == slot->give.end() ? v : it->second;
        };
        auto hr = [slot](const uint64_t& tok, const T& v) {
            std::lock_guard<std::mutex> lg(slot->m);
            slot->ran++;
            slot->got.emplace(tok, v);
        };
        if (!w.srv.bind(fn, h) || !w.srv.bind(fr, hr)) viol("bind-refused", name, "C11,C08");
    };
    t.match = [=](World& w, Rng& r, int depth) {
        uint64_t tok = r.next() >> 1;
        T v = Ty<T>::gen(r, depth), back = Ty<T>::gen(r, depth);
        bool ref = r.chance(1, 5);
        { std::lock_guard<std::mutex> lg(slot->m); slot->give.emplace(tok, back); }
        CallResult c = callStyle(w.cli, (int)r.below(3), w.target, ref ? fr : fn, tok, v);
        eval();
        std::unique_lock<std::mutex> lg(slot->m);
        std::string what = name + " " + Ty<T>::node(v).show().substr(0, 200);
        if (!c.isSuccess()) { viol("value-refused:" + name, what + ": " + show(c), "C08"); return; }
        auto it = slot->got.find(tok);
        if (it == slot->got.end()) { viol("value-not-received:" + name, what, "C08,C02"); return; }
        if (!Ty<T>::same(it->second, v)) viol("argument-changed:" + name, what + " arrived as " + Ty<T>::node(it->second).show().substr(0, 200), "C08");
        slot->got.clear();
        slot->give.clear();
        lg.unlock();
        if (ref) {
            if (fromObj(c.obj.get()).k != Node::NIL) viol("void-result-not-nil", name, "C08,C21");
            return;
        }
        Node have = fromObj(c.obj.get());
        if (!sameValue(Ty<T>::node(back), have))
            viol("result-changed:" + name, Ty<T>::node(back).show().substr(0, 200) + " travelled as " + have.show().substr(0, 200), "C08");
        T x = Ty<T>::gen(r, 1);
        if (!c.convertObject(x)) viol("result-not-convertible:" + name, Ty<T>::node(back).show().substr(0, 200), "C08");
        else if (!Ty<T>::same(x, back)) viol("result-read-back-wrong:" + name, Ty<T>::node(back).show().substr(0, 200) + " as " + Ty<T>::node(x).show().substr(0, 200), "C08");
        if (r.chance(1, 3)) {
            // into something that holds another value already
            T y = Ty<T>::gen(r, depth);
            std::string was = Ty<T>::node(y).show().substr(0, 200);
            bool ok = true;
            try { c.obj.get().convert(y); } catch (std::exception&) { ok = false; }
            eval();
            if (!ok || !(Ty<T>::same(y, back) || sameValue(Ty<T>::node(y), Ty<T>::node(back))))
                viol("value-read-into-another-wrong:" + name, Ty<T>::node(back).show().substr(0, 200) + " into " + was + " gave " + (ok ? Ty<T>::node(y).show().substr(0, 200) : "an exception"), "C08");
        }
        if (r.chance(1, 3)) {
            bool ok = true;
            try { T z = c.obj.get().as<T>(); ok = Ty<T>::same(z, back) || sameValue(Ty<T>::node(z), Ty<T>::node(back)); } catch (std::exception&) { ok = false; }
            eval();
            if (!ok) viol("result-read-as-wrong:" + name, Ty<T>::node(back).show().substr(0, 200), "C08");
        }
        if (r.chance(1, 4)) {
            // how it travels as an argument
            c = callStyle(w.cli, (int)r.below(3), w.target, "obj", v);
            eval();
            if (!c.isSuccess()) viol("value-refused:" + name, what + " as an object: " + show(c), "C08");
            else if (!sameValue(Ty<T>::node(v), fromObj(c.obj.get()))) viol("argument-travels-as-another-kind:" + name, what + " travelled as " + fromObj(c.obj.get()).show().substr(0, 200), "C08,C21");
        }
        distinct(name + std::to_string(hashStr(enc(Ty<T>::node(v)))));
        if (r.chance(1, 400)) sample(what);
    };
    t.mismatch = [=](World& w, Rng& r, int depth) {
        Node n;
        switch (r.below(4)) {
            case 0: n = randNode(r, 2); break;
            case 1: n = Near<T>::get(r); break;
            case 2: n = Ty<T>::node(Ty<T>::gen(r, 1)); mutate(r, n, randNode(r, 1)); break;
            default: { auto& o = r.pick(tests()); (void)o; n = Ty<T>::node(Ty<T>::gen(r, 1)); mutate(r, n, Near<T>::get(r)); if (r.chance(1, 4) && n.k == Node::ARR) n.a.push_back(randNode(r, 1)); }
        }
        n = wired(n);
        T want{};
        int acc = Ty<T>::accept(n, want);
        auto obj = asObject(n);
        if (r.chance(1, 2)) {
            // as an argument
            uint64_t tok = r.next() >> 1;
            int before = slot->ran.load();
            CallResult c = callStyle(w.cli, (int)r.below(3), w.target, r.chance(1, 4) ? fr : fn, tok, obj.get());
            eval();
            std::lock_guard<std::mutex> lg(slot->m);
            int did = slot->ran.load() - before;
            std::string what = name + " given " + n.show().substr(0, 200);
            if (acc == NO && (c.isSuccess() || did)) viol("wrong-kind-accepted:" + name, what + fmt(": %s, function ran %d times", show(c).c_str(), did), "C08,C09");
            if (acc == NO && c.errorMessage.empty()) viol("error-without-message:" + name, what, "C08,C09");
            if (acc == YES && (!c.isSuccess() || did != 1)) viol("right-kind-refused:" + name, what + ": " + show(c), "C08");
            if (c.isSuccess() && did != 1) viol("success-without-run:" + name, what, "C08,C02");
            if ((acc == YES || acc == MAYBE) && did == 1 && !Ty<T>::same(slot->got.begin()->second, want)) viol("argument-changed:" + name, what + " arrived as " + Ty<T>::node(slot->got.begin()->second).show().substr(0, 200), "C08");
            slot->got.clear();
        }
        else {
            // as a result
            { std::lock_guard<std::mutex> lg(w.m); w.reply = n; }
            CallResult c = callStyle(w.cli, (int)r.below(3), w.target, "any");
            eval();
            std::string what = name + " read from " + n.show().substr(0, 200);
            if (!c.isSuccess()) { viol("object-result-refused", what + ": " + show(c), "C08"); return; }
            if (!sameValue(n, fromObj(c.obj.get()))) { viol("object-result-changed", what + " got " + fromObj(c.obj.get()).show(), "C08"); return; }
            T x{};
            bool ok = c.convertObject(x);
            if (acc == NO && ok) viol("wrong-kind-converted:" + name, what + " gave " + Ty<T>::node(x).show().substr(0, 200), "C08");
            if (acc == YES && !ok) viol("right-kind-not-converted:" + name, what, "C08");
            if ((acc == YES || acc == MAYBE) && ok && !Ty<T>::same(x, want)) viol("converted-wrong:" + name, what + " gave " + Ty<T>::node(x).show().substr(0, 200), "C08");
        }
        distinct("m" + name + std::to_string(acc) + std::to_string(hashStr(enc(n))));
        stat(acc == NO ? "mismatches" : acc == YES ? "matches_of_other_origin" : "open_conversions");
    };
    tests().push_back(t);
}

#define REG(...) reg<__VA_ARGS__>(#__VA_ARGS__)
static void registerAll();

SCENARIO(types) {
    registerAll();
    Rng r(args.seed);
    World w;
    World* p = &w;
    w.target = chan("types");
    for (auto& t : tests()) t.bind(w);
    static thread_local veigar_msgpack::object_handle keep;
    w.srv.bind("any", [p]() -> veigar_msgpack::object {
        std::lock_guard<std::mutex> lg(p->m);
        keep = asObject(p->reply);
        return keep.get();
    });
    std::string svGot;
    w.srv.bind("view", [&](std::string_view s) -> std::string_view { std::lock_guard<std::mutex> lg(p->m); svGot.assign(s.data(), s.size()); return s; });
    w.srv.bind("obj", [&](veigar_msgpack::object o) -> veigar_msgpack::object { return o; });
    std::atomic<int> zeros{0};
    w.srv.bind("zero", [&] { zeros++; });
    w.srv.bind("zeroInt", [&]() -> int { return -7; });
    Node manyGot;
    w.srv.bind("many", [&](int8_t a, std::string b, uint64_t c, double d, bool e, std::vector<int> f, std::map<std::string, int> g, std::optional<std::string> h, char i, Plain j) -> std::string {
        std::lock_guard<std::mutex> lg(p->m);
        manyGot = Node::arr({Ty<int8_t>::node(a), Node::str(b), Node::uinteger(c), Node::f64(d), Node::boolean(e), Ty<std::vector<int>>::node(f), Ty<std::map<std::string, int>>::node(g), Ty<std::optional<std::string>>::node(h), Ty<char>::node(i), Ty<Plain>::node(j)});
        return b;
    });
    if (!up(w.srv, w.target, 6, 4 << 20) || !up(w.cli, chan("typesc"), 6, 4 << 20)) { viol("init-failed", "", "C12,C18"); return; }
    // every type first, then at random
    for (auto& t : tests()) for (int i = 0; i < 6; i++) { beat("types"); t.match(w, r, 2); t.mismatch(w, r, 1); }
    int n = 900 * args.scale;
    for (int i = 0; i < n && !violated(); i++) {
        beat("types");
        auto& t = r.pick(tests());
        t.match(w, r, r.chance(1, 4) ? 3 : 2);
        if (i % 2) t.mismatch(w, r, 1);
        if (i % 8 == 0) {
            std::string s = Ty<std::string>::gen(r, 2);
            CallResult c = callStyle(w.cli, (int)r.below(3), w.target, "view", std::string_view(s));
            std::string_view v;
            if (!c.isSuccess()) viol("value-refused:string_view", show(c), "C08");
            else {
                if (svGot != s) viol("argument-changed:string_view", hex(s.data(), s.size()), "C08");
                if (!c.convertObject(v) || v != s) viol("result-read-back-wrong:string_view", hex(s.data(), s.size()), "C08");
            }
            std::string z = s.substr(0, s.find('\0'));
            c = w.cli.syncCall(w.target, 60000, "view", z.c_str());
            if (!c.isSuccess() || svGot != z) viol("argument-changed:char-pointer", hex(z.data(), z.size()), "C08");
            eval(2);
        }
        if (i % 8 == 1) {
            Node x = randNode(r, 4);
            if (r.chance(1, 10)) for (int k = 0; k < 150; k++) x = Node::arr({x});
            auto o = asObject(x);
            CallResult c = callStyle(w.cli, (int)r.below(3), w.target, "obj", o.get());
            if (!c.isSuccess() || !sameValue(x, fromObj(c.obj.get()))) viol("object-changed", x.show() + " came back as " + (c.isSuccess() ? fromObj(c.obj.get()).show() : show(c)), "C08");
            eval();
            distinct(enc(x));
        }
        if (i % 8 == 2) {
            int8_t a = Ty<int8_t>::gen(r, 0); std::string b = randStr(r); uint64_t cc = randBits(r); double d = Ty<double>::gen(r, 0); bool e = r.chance(1, 2);
            auto f = Ty<std::vector<int>>::gen(r, 1); auto g = Ty<std::map<std::string, int>>::gen(r, 1); auto h = Ty<std::optional<std::string>>::gen(r, 1); char ch = Ty<char>::gen(r, 0); Plain pl = Ty<Plain>::gen(r, 1);
            Node want = Node::arr({Ty<int8_t>::node(a), Node::str(b), Node::uinteger(cc), Node::f64(d), Node::boolean(e), Ty<std::vector<int>>::node(f), Ty<std::map<std::string, int>>::node(g), Ty<std::optional<std::string>>::node(h), Ty<char>::node(ch), Ty<Plain>::node(pl)});
            CallResult c = callStyle(w.cli, (int)r.below(3), w.target, "many", a, b, cc, d, e, f, g, h, ch, pl);
            std::string back;
            if (!c.isSuccess() || !c.convertObject(back) || back != b) viol("many-arguments-failed", show(c), "C08");
            else if (!sameValue(want, manyGot)) viol("many-arguments-changed", want.show() + " arrived as " + manyGot.show(), "C08");
            eval();
        }
        if (i % 8 == 3) {
            int z = zeros;
            CallResult c = w.cli.syncCall(w.target, 60000, "zero");
            int x = 0;
            if (!c.isSuccess() || zeros != z + 1) viol("zero-arguments-failed", show(c), "C08");
            c = w.cli.syncCall(w.target, 60000, "zeroInt");
            if (!c.isSuccess() || !c.convertObject(x) || x != -7) viol("zero-arguments-result", show(c), "C08");
            eval(2);
        }
    }
    w.cli.uninit();
    w.srv.uninit();
}
