// C20: the codec against an independent one: values, encodings, arbitrary bytes, chunks, limits, references.
#include "vh.h"
#include "wire.h"
#include "veigar/msgpack/vrefbuffer.hpp"
using namespace vh;
namespace mp = veigar_msgpack;

struct Lim {
    size_t array = 0xffffffff, map = 0xffffffff, str = 0xffffffff, bin = 0xffffffff, ext = 0xffffffff, depth = 0xffffffff;
    mp::unpack_limit get() const { return mp::unpack_limit(array, map, str, bin, ext, depth); }
};
// the specification with limits: 1 a value, 0 incomplete, -1 not MessagePack, -2 over a limit
static int model(const uint8_t* p, size_t n, size_t& off, Node& out, const Lim& L, int depth = 1) {
    auto need = [&](size_t k) { return n - off >= k; };
    if (!need(1)) return 0;
    uint8_t b = p[off];
    // containers: the limits are known with the header
    size_t o = off + 1, w = 0;
    uint64_t l = 0;
    bool arr = false, map = false;
    if (b >= 0x80 && b < 0x90) { map = true; l = b & 15; }
    else if (b >= 0x90 && b < 0xa0) { arr = true; l = b & 15; }
    else if (b >= 0xdc && b <= 0xdf) {
        arr = b <= 0xdd;
        map = !arr;
        w = b & 1 ? 4 : 2;
        if (n - o < w) return 0;
        for (size_t i = 0; i < w; i++) l = l << 8 | p[o + i];
    }
    if (arr || map) {
        if (l > (arr ? L.array : L.map) || (size_t)depth > L.depth) return -2;
        off = o + w;
        out = Node();
        out.k = arr ? Node::ARR : Node::MAP;
        for (uint64_t i = 0; i < (map ? 2 * l : l); i++) {
            Node x;
            int rc = model(p, n, off, x, L, depth + 1);
            if (rc != 1) return rc;
            out.a.push_back(std::move(x));
        }
        return 1;
    }
    int rc = decode(p, n, off, out);
    if (rc == 1 && out.k == Node::STR && out.s.size() > L.str) return -2;
    if (rc == 1 && out.k == Node::BIN && out.s.size() > L.bin) return -2;
    if (rc == 1 && out.k == Node::EXT && out.s.size() + 1 > L.ext) return -2;
    return rc;
}
static const char* rcName(int rc) { return rc == 1 ? "a value" : rc == 0 ? "incomplete" : rc == -1 ? "not MessagePack" : rc == -2 ? "over a limit" : "out of memory"; }

template <class F> static int guarded(F f) {
    try {
        return f();
    } catch (mp::insufficient_bytes&) {
        return 0;
    } catch (mp::parse_error&) {
        return -1;
    } catch (mp::size_overflow&) {
        return -2;
    } catch (std::bad_alloc&) {
        return -9;
    } catch (std::exception& e) {
        viol("other-exception", e.what(), "C20");
        return -8;
    }
}
static bool ref(mp::type::object_type, std::size_t s, void* d) { return s >= *(size_t*)d; }

// A copy in memory of exactly that size, so that an access beyond it is noticed.
struct Exact {
    char* p;
    size_t n;
    Exact(const std::string& s) : p((char*)malloc(s.size())), n(s.size()) { memcpy(p, s.data(), n); }
    ~Exact() { free(p); }
};
static bool hugeHeader(const std::string& b, const Lim& L) {    // a header asks for much memory, which is allowed to fail
    for (size_t i = 0; i + 5 <= b.size(); i++) {
        uint8_t c = (uint8_t)b[i];
        uint64_t l = (uint64_t)(uint8_t)b[i + 1] << 24 | (uint8_t)b[i + 2] << 16 | (uint8_t)b[i + 3] << 8 | (uint8_t)b[i + 4];
        if ((c == 0xdd && l > 300000 && l <= L.array) || (c == 0xdf && l > 300000 && l <= L.map)) return true;
    }
    return false;
}

struct CountVisitor : mp::null_visitor {
    int64_t scalars = 0, items = 0, depth = 0;
    bool bad = false;
    bool visit_nil() { scalars++; return true; }
    bool visit_boolean(bool) { scalars++; return true; }
    bool visit_positive_integer(uint64_t) { scalars++; return true; }
    bool visit_negative_integer(int64_t) { scalars++; return true; }
    bool visit_float32(float) { scalars++; return true; }
    bool visit_float64(double) { scalars++; return true; }
    bool visit_str(const char*, uint32_t) { scalars++; return true; }
    bool visit_bin(const char*, uint32_t) { scalars++; return true; }
    bool visit_ext(const char*, uint32_t) { scalars++; return true; }
    bool start_array(uint32_t) { depth++; return true; }
    bool end_array() { depth--; return true; }
    bool start_map(uint32_t) { depth++; return true; }
    bool end_map() { depth--; return true; }
    bool start_array_item() { items++; return true; }
    bool start_map_key() { items++; return true; }
    bool start_map_value() { items++; return true; }
    void parse_error(size_t, size_t) { bad = true; }
    void insufficient_bytes(size_t, size_t) { bad = true; }
};
static void countNode(const Node& n, int64_t& s, int64_t& i) {
    if (n.k != Node::ARR && n.k != Node::MAP) { s++; return; }
    for (auto& x : n.a) { i++; countNode(x, s, i); }
}

// What can be read from an object must follow from what it is, not from how it was encoded.
template <class T> static bool readAs(const mp::object& o, T& v) {
    try {
        v = o.as<T>();
        return true;
    } catch (mp::type_error&) {
        return false;
    }
}
static bool probe(const mp::object& o, const Node& n, Rng& r, int& budget) {
    if (--budget < 0) return true;
    auto integer = [&](auto t) {
        using X = decltype(t);
        X a{}, b{};
        bool got = readAs<X>(o, a);
        bool fits = n.k == Node::UINT ? n.u <= (uint64_t)std::numeric_limits<X>::max() : n.k == Node::NEG ? std::numeric_limits<X>::is_signed && (int64_t)n.u >= (int64_t)std::numeric_limits<X>::min() : false;
        if (got != fits || (fits && a != (X)n.u)) { viol("read-as-integer-differs", fmt("%s %s as %d bytes", n.show().c_str(), got ? "read" : "refused", (int)sizeof(X)), "C20,C08"); return false; }
        bool conv = true;
        try { o.convert(b); } catch (mp::type_error&) { conv = false; }
        if (conv != got || (conv && a != b)) { viol("convert-differs", n.show(), "C20,C08"); return false; }
        if (fits && !(o == mp::object(a))) { viol("object-not-equal-to-its-value", n.show(), "C20"); return false; }
        return true;
    };
    switch (r.below(8)) {
        case 0: if (!integer((int8_t)0)) return false; break;
        case 1: if (!integer((uint8_t)0)) return false; break;
        case 2: if (!integer((int16_t)0)) return false; break;
        case 3: if (!integer((uint16_t)0)) return false; break;
        case 4: if (!integer((int32_t)0)) return false; break;
        case 5: if (!integer((uint32_t)0)) return false; break;
        case 6: if (!integer((int64_t)0)) return false; break;
        default: if (!integer((uint64_t)0)) return false;
    }
    bool bo = false;
    if (readAs(o, bo) != (n.k == Node::BOOL) || (n.k == Node::BOOL && bo != (bool)n.u)) { viol("read-as-boolean-differs", n.show(), "C20,C08"); return false; }
    std::string st;
    if (readAs(o, st) != (n.k == Node::STR || n.k == Node::BIN) || st != (n.k == Node::STR || n.k == Node::BIN ? n.s : "")) { viol("read-as-string-differs", n.show(), "C20,C08"); return false; }
    if (o.is_nil() != (n.k == Node::NIL)) { viol("is-nil-differs", n.show(), "C20"); return false; }
    if ((n.k == Node::UINT && o.type != mp::type::POSITIVE_INTEGER) || (n.k == Node::NEG && o.type != mp::type::NEGATIVE_INTEGER)) { viol("sign-differs", n.show(), "C20"); return false; }
    if (n.k == Node::ARR) for (size_t i = 0; i < n.a.size(); i++) if (!probe(o.via.array.ptr[i], n.a[i], r, budget)) return false;
    if (n.k == Node::MAP) for (size_t i = 0; i < n.a.size(); i++) if (!probe(i % 2 ? o.via.map.ptr[i / 2].val : o.via.map.ptr[i / 2].key, n.a[i], r, budget)) return false;
    return true;
}

static void judge(const std::string& bytes, Rng& r, const Lim& L) {
    std::vector<Node> want;                 // all values in front
    std::vector<size_t> ends;
    size_t off = 0;
    int last = 0;
    for (;;) {
        size_t o = off;
        Node n;
        last = model((const uint8_t*)bytes.data(), bytes.size(), o, n, L);
        if (last != 1) break;
        off = o;
        want.push_back(n);
        ends.push_back(o);
        if (o == bytes.size()) { last = 0; break; }
    }
    std::string w = hex(bytes.data(), bytes.size(), 80);
    int firstRc = want.empty() ? (bytes.empty() ? 0 : last) : 1;
    eval();
    // at once, in the ways offered
    for (int form = 0; form < 4; form++) {
        Exact e(bytes);
        size_t o = 0, minRef = r.below(3) ? r.below(40) : 0;
        bool referenced = false;
        mp::object_handle h;
        mp::zone z;
        mp::object ob;
        bool got = false;
        int rc = guarded([&] {
            switch (form) {
                case 0: h = mp::unpack(e.p, e.n, o, nullptr, nullptr, L.get()); ob = h.get(); break;
                case 1: mp::unpack(h, e.p, e.n, o, referenced, ref, &minRef, L.get()); ob = h.get(); break;
                case 2: ob = mp::unpack(z, e.p, e.n, o, referenced, ref, &minRef, L.get()); break;
                default: ob = mp::unpack(z, e.p, e.n, o, nullptr, nullptr, L.get()); break;
            }
            got = true;
            return 1;
        });
        if (rc == -9 && hugeHeader(bytes, L)) { stat("out_of_memory"); continue; }
        if (rc != firstRc) { viol("acceptance-differs", fmt("form %d of %s: library: %s, specification: %s", form, w.c_str(), rcName(rc), rcName(firstRc)), "C20"); return; }
        if (rc == 1) {
            Node n = fromObj(ob);
            if (n != want[0]) { viol("value-differs", fmt("form %d of %s: %s, want %s", form, w.c_str(), n.show().c_str(), want[0].show().c_str()), "C20"); return; }
            if (o != ends[0]) { viol("length-differs", fmt("form %d of %s: %zu, want %zu", form, w.c_str(), o, ends[0]), "C20"); return; }
            int budget = 60;
            if (form == (int)(bytes.size() & 3) && !probe(ob, n, r, budget)) return;
            if (form == 0) {
                // copies and packing again
                mp::object_handle c = mp::clone(ob);
                h = mp::object_handle();
                if (fromObj(c.get()) != want[0]) { viol("copy-differs", w, "C20"); return; }
                mp::sbuffer sb;
                mp::pack(sb, c.get());
                Node back;
                size_t bo = 0;
                if (decode((const uint8_t*)sb.data(), sb.size(), bo, back) != 1 || bo != sb.size() || !sameValue(want[0], back)) { viol("packed-again-differs", w, "C20"); return; }
            }
        }
        else if (got || h.zone() || !h.get().is_nil() || (form >= 2 && !ob.is_nil())) { viol("object-from-rejected", w, "C20"); return; }
    }
    {
        // as visits
        Exact e(bytes);
        size_t o = 0;
        CountVisitor v;
        bool ok = mp::parse(e.p, e.n, o, v);
        // without limits
        size_t mo = 0;
        Node n;
        int rc = model((const uint8_t*)bytes.data(), bytes.size(), mo, n, Lim());
        if (rc != -2 && ok != (rc == 1)) {
            if (!(bytes.size() > 5 && rc == 0 && !ok)) { viol("visits-acceptance-differs", w + (ok ? " accepted" : " refused"), "C20"); return; }
        }
        if (ok) {
            int64_t s = 0, i = 0;
            countNode(n, s, i);
            if (o != mo || v.scalars != s || v.items != i || v.depth != 0) { viol("visits-differ", w + fmt(": %zu of %zu bytes, %" PRId64 " of %" PRId64 " values", o, mo, v.scalars, s), "C20"); return; }
        }
    }
    // streamed in chunks
    int modes = bytes.size() < 200 ? 3 : 2;
    for (int mode = 0; mode < modes; mode++) {
        size_t minRef = r.chance(1, 2) ? r.below(40) : SIZE_MAX;
        mp::unpacker u(ref, &minRef, r.chance(1, 2) ? (size_t)r.range(1, 64) : (size_t)64 * 1024, L.get());
        size_t fed = 0, k = 0;
        int rc = 0;
        std::vector<mp::object_handle> keep;        // must stay valid when the buffer moves on
        std::vector<size_t> keepIdx;
        while (rc == 0 && fed < bytes.size()) {
            size_t c = mode == 0 ? 1 : mode == 1 ? (size_t)r.range(1, 1 + bytes.size() / 2) : (size_t)r.range(1, 9);
            if (bytes.size() > 3000 && mode == 0) c = (size_t)r.range(1, 600);
            c = std::min(c, bytes.size() - fed);
            u.reserve_buffer(c + (r.chance(1, 4) ? r.below(40) : 0));
            if (u.buffer_capacity() < c) { viol("reserve-too-small", fmt("%zu of %zu", u.buffer_capacity(), c), "C20"); return; }
            memcpy(u.buffer(), bytes.data() + fed, c);
            u.buffer_consumed(c);
            fed += c;
            for (;;) {
                mp::object_handle h;
                bool had = false;
                rc = guarded([&] { had = u.next(h); return had ? 1 : 0; });
                if (rc != 1) {
                    if (h.zone() || !h.get().is_nil()) { viol("object-from-incomplete", w, "C20"); return; }
                    break;
                }
                if (k >= want.size()) { viol("stream-too-many", w + fmt(": object %zu, fed %zu", k, fed), "C20"); return; }
                Node n = fromObj(h.get());
                if (n != want[k]) { viol("stream-value-differs", w + fmt(": object %zu: ", k) + n.show() + ", want " + want[k].show(), "C20"); return; }
                if (fed - u.nonparsed_size() != ends[k]) { viol("stream-length-differs", w + fmt(": object %zu ends at %zu, want %zu", k, fed - u.nonparsed_size(), ends[k]), "C20"); return; }
                if (fed < ends[k]) { viol("stream-early", w, "C20"); return; }
                if (keep.size() < 40) { keep.push_back(std::move(h)); keepIdx.push_back(k); }
                k++;
                rc = 0;
            }
        }
        if (rc == -9 && hugeHeader(bytes, L)) { stat("out_of_memory"); continue; }
        int wantRc = last == 1 ? 0 : last;
        if (rc != wantRc || (k != want.size())) { viol("stream-acceptance-differs", w + fmt(" mode %d: %zu objects then %s, want %zu then %s", mode, k, rcName(rc), want.size(), rcName(wantRc)), "C20"); return; }
        for (size_t i = 0; i < keep.size(); i++) if (fromObj(keep[i].get()) != want[keepIdx[i]]) { viol("stream-object-changed-later", w, "C20"); return; }
        // after a rejected input it starts anew
        if (rc < 0 && r.chance(1, 2)) {
            u.reset();
            u.remove_nonparsed_buffer();
            u.reserve_buffer(3);
            memcpy(u.buffer(), "\x92\x01\x02", 3);
            u.buffer_consumed(3);
            mp::object_handle h;
            int rc2 = guarded([&] { return u.next(h) ? 1 : 0; });
            if (L.array >= 2 && L.depth >= 1 && (rc2 != 1 || fromObj(h.get()) != Node::arr({Node::uinteger(1), Node::uinteger(2)}))) { viol("stream-not-reset", w + " then [1,2]: " + rcName(rc2), "C20"); return; }
        }
    }
    stat(firstRc == 1 ? "accepted" : firstRc == 0 ? "incomplete" : firstRc == -1 ? "refused" : "over_limit");
    if (last == -1) stat("ends_refused");
    distinct(fmt("%d %zu ", last, std::min<size_t>(want.size(), 9)) + bytes.substr(0, 24));
}

static Lim randLim(Rng& r) {
    Lim l;
    if (r.chance(1, 2)) { l.array = l.map = 300000; return l; }
    l.array = r.below(20); l.map = r.below(20); l.str = r.below(300); l.bin = r.below(300); l.ext = r.below(300); l.depth = r.below(6);
    return l;
}
static std::string randBytes(Rng& r) {
    std::string b;
    switch (r.below(5)) {
        case 0: {
            size_t n = r.below(40);
            for (size_t i = 0; i < n; i++) b += (char)(r.chance(1, 2) ? r.range(0x80, 0xff) : r.next());
            return b;
        }
        case 1: {   // headers with odd sizes
            for (uint64_t i = 0, n = r.range(1, 4); i < n; i++) {
                b += (char)r.range(0xc0, 0xdf);
                static const char* sz[] = {"\xff\xff\xff\xff", "\x00\x00\x00\x05", "\x7f\xff\xff\xff", "\x80\x00\x00\x00", "\x00\x05\x00\x00", "\x01\x02\x03\x04", "\x00\x00\x00\x00"};
                b.append(r.pick(sz), 4);
                for (uint64_t k = r.below(20); k > 0; k--) b += (char)r.next();
            }
            return b;
        }
        default: {
            for (uint64_t i = 0, n = r.range(1, 4); i < n; i++) b += enc(randNode(r, (int)r.below(5)), r.chance(2, 3) ? &r : nullptr);
            if (r.chance(1, 20)) { size_t d = (size_t)r.range(5, 600); b.insert(0, std::string(d, r.chance(1, 2) ? '\x91' : '\x81')); }
            for (uint64_t m = r.below(4); m > 0 && !b.empty(); m--) switch (r.below(5)) {
                case 0: b.resize(r.below(b.size() + 1)); break;
                case 1: b[r.below(b.size())] ^= (char)(1 << r.below(8)); break;
                case 2: b[r.below(b.size())] = (char)r.next(); break;
                case 3: b.insert(r.below(b.size() + 1), 1, (char)r.next()); break;
                default: b.erase(r.below(b.size()), 1 + r.below(3)); break;
            }
            return b;
        }
    }
}

SCENARIO(codec) {
    Rng r(args.seed);
    int n = 4000 * args.scale;
    for (int i = 0; i < n && !violated(); i++) {
        beat("codec");
        Lim l = randLim(r);
        judge(randBytes(r), r, l);
    }
    // every first byte, with every amount of what follows
    for (int a = 0; a < 256 && !violated(); a++) for (int len = 0; len < 24; len++) {
        std::string b(1, (char)a);
        for (int i = 0; i < len; i++) b += (char)(r.chance(1, 3) ? 0 : r.chance(1, 3) ? r.below(8) : r.next());
        Lim l;
        l.array = l.map = 300000;
        judge(b, r, l);
        beat("codec");
    }
}

// every way of packing a value
template <class S> static void packBy(mp::packer<S>& p, const Node& n, Rng& r) {
    switch (n.k) {
        case Node::NIL: if (r.chance(1, 2)) p.pack_nil(); else p.pack(mp::type::nil_t()); break;
        case Node::BOOL: if (r.chance(1, 2)) p.pack((bool)n.u); else if (n.u) p.pack_true(); else p.pack_false(); break;
        case Node::UINT: {
            bool done = false;
            auto as = [&](auto t) { using X = decltype(t); if (!done && r.chance(1, 4) && n.u <= (uint64_t)std::numeric_limits<X>::max()) { p.pack((X)n.u); done = true; } };
            as((uint8_t)0); as((uint16_t)0); as((uint32_t)0); as((int8_t)0); as((int16_t)0); as((int32_t)0); as((int64_t)0); as((char)0); as((short)0); as((long)0); as((unsigned long long)0); as((wchar_t)0);
            auto fix = [&](int w) {
                if (done || !r.chance(1, 4)) return;
                done = true;
                switch (w) {
                    case 0: if (n.u <= 0xff) { p.pack_fix_uint8((uint8_t)n.u); return; } break;
                    case 1: if (n.u <= 0xffff) { p.pack_fix_uint16((uint16_t)n.u); return; } break;
                    case 2: if (n.u <= 0xffffffff) { p.pack_fix_uint32((uint32_t)n.u); return; } break;
                    case 3: p.pack_fix_uint64(n.u); return;
                    case 4: if (n.u <= 0x7f) { p.pack_fix_int8((int8_t)n.u); return; } break;
                    case 5: if (n.u <= 0x7fff) { p.pack_fix_int16((int16_t)n.u); return; } break;
                    case 6: if (n.u <= 0x7fffffff) { p.pack_fix_int32((int32_t)n.u); return; } break;
                    default: if (n.u <= INT64_MAX) { p.pack_fix_int64((int64_t)n.u); return; }
                }
                done = false;
            };
            for (int w = 0; w < 8; w++) fix(w);
            if (!done) p.pack_uint64(n.u);
            break;
        }
        case Node::NEG: {
            int64_t v = (int64_t)n.u;
            bool done = false;
            auto as = [&](auto t) { using X = decltype(t); if (!done && r.chance(1, 3) && v >= (int64_t)std::numeric_limits<X>::min()) { p.pack((X)v); done = true; } };
            as((int8_t)0); as((int16_t)0); as((int32_t)0); as((int64_t)0); as((short)0); as((long long)0);
            if (!done && r.chance(1, 3)) { if (v >= INT8_MIN) p.pack_fix_int8((int8_t)v); else if (v >= INT16_MIN) p.pack_fix_int16((int16_t)v); else if (v >= INT32_MIN) p.pack_fix_int32((int32_t)v); else p.pack_fix_int64(v); done = true; }
            if (!done) p.pack_int64(v);
            break;
        }
        case Node::F32: { float f; uint32_t b = (uint32_t)n.bits; memcpy(&f, &b, 4); p.pack(f); break; }
        case Node::F64: { double d; memcpy(&d, &n.bits, 8); p.pack(d); break; }
        case Node::STR: if (r.chance(1, 2)) p.pack(n.s); else { p.pack_str((uint32_t)n.s.size()); p.pack_str_body(n.s.data(), (uint32_t)n.s.size()); } break;
        case Node::BIN: if (std::is_same<S, mp::sbuffer>::value & r.chance(1, 2)) p.pack(std::vector<char>(n.s.begin(), n.s.end())); else { p.pack_bin((uint32_t)n.s.size()); p.pack_bin_body(n.s.data(), (uint32_t)n.s.size()); } break;
        case Node::EXT: p.pack_ext(n.s.size(), n.ext); p.pack_ext_body(n.s.data(), (uint32_t)n.s.size()); break;
        case Node::ARR: p.pack_array((uint32_t)n.a.size()); for (auto& x : n.a) packBy(p, x, r); break;
        default: p.pack_map((uint32_t)n.a.size() / 2); for (auto& x : n.a) packBy(p, x, r); break;
    }
}
static Node bigNode(Rng& r) {
    static const size_t edge[] = {15, 16, 17, 31, 32, 33, 255, 256, 257, 8191, 8192, 8193, 65535, 65536, 65537, 200000};
    size_t l = r.pick(edge);
    switch (r.below(5)) {
        case 0: return Node::str(std::string(l, 's'));
        case 1: return Node::bin(std::string(l, (char)r.next()));
        case 2: return Node::extn((int8_t)r.next(), std::string(l, 'e'));
        case 3: { Node n = Node::arr({}); for (size_t i = 0; i < l; i++) n.a.push_back(Node::uinteger(i)); return n; }
        default: { Node n = Node::map({}); l = std::min<size_t>(l, 65537); for (size_t i = 0; i < l; i++) { n.a.push_back(Node::uinteger(i)); n.a.push_back(Node::boolean(i & 1)); } return n; }
    }
}

SCENARIO(codec_pack) {
    Rng r(args.seed);
    int n = 8000 * args.scale;
    for (int i = 0; i < n && !violated(); i++) {
        beat("codec_pack");
        Node v = r.chance(1, 60) ? bigNode(r) : randNode(r, (int)r.below(5));
        mp::sbuffer sb(r.chance(1, 2) ? 1 + r.below(64) : 8192);
        mp::packer<mp::sbuffer> p(sb);
        if (r.chance(1, 10)) { p.pack(std::string("first")); sb.clear(); }
        uint64_t sd = r.next();
        { Rng q(sd); packBy(p, v, q); }
        std::string b(sb.data(), sb.size());
        Node back;
        size_t off = 0;
        eval();
        int rc = decode((const uint8_t*)b.data(), b.size(), off, back);
        if (rc != 1 || off != b.size()) { viol("packed-not-valid", v.show() + " as " + hex(b.data(), b.size()), "C20,C21"); break; }
        if (!sameValue(v, back)) { viol("packed-differs", v.show() + " became " + back.show() + ": " + hex(b.data(), b.size()), "C20,C21"); break; }
        // other buffers
        if (r.chance(1, 4)) {
            mp::vrefbuffer vb(r.range(1, 64), r.range(64, 9000));
            mp::packer<mp::vrefbuffer> vp(vb);
            Rng q(sd);
            packBy(vp, v, q);
            std::string c;
            for (size_t k = 0; k < vb.vector_size(); k++) c.append((const char*)vb.vector()[k].iov_base, vb.vector()[k].iov_len);
            // bodies given by pointer are referenced: v is still there
            bool byValue = false;
            (void)byValue;
            Node vback;
            size_t vo = 0;
            if (c.size() != b.size()) { viol("other-buffer-differs", v.show(), "C20"); break; }
            if (decode((const uint8_t*)c.data(), c.size(), vo, vback) != 1 || vo != c.size()) { viol("other-buffer-invalid", v.show(), "C20"); break; }
        }
        Lim l;
        l.array = l.map = 300000;
        if (b.size() < 70000 || r.chance(1, 4)) judge(b, r, l);
        if (r.chance(1, 600)) sample(v.show());
    }
}

#ifdef VH_FUZZ
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t* data, size_t size));
static int fuzzOne(const uint8_t* d, size_t n) {
    beat("codec_fuzz");
    Rng r(hashBytes(d, n));
    Lim l;
    l.array = l.map = 300000;
    if (n && (d[0] & 3) == 3) { Rng q(d[0]); l = randLim(q); }
    judge(std::string((const char*)d + (n ? 1 : 0), n ? n - 1 : 0), r, l);
    if (violated()) { flush(); _exit(0); }
    return 0;
}
SCENARIO(codec_fuzz) {
    atexit(flush);
    std::string runs = fmt("-runs=%d", 60000 * args.scale), seed = fmt("-seed=%u", (unsigned)(args.seed & 0x7fffffff) | 1);
    std::string tmax = fmt("-max_total_time=%d", 30 * args.scale);
    std::vector<std::string> a = {"fuzz", runs, seed, tmax, "-max_len=256", "-len_control=20", "-print_final_stats=0", "-verbosity=0", "-handle_segv=0", "-handle_abrt=0", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-timeout=100", "-detect_leaks=0"};
    std::vector<char*> av;
    for (auto& x : a) av.push_back(&x[0]);
    av.push_back(nullptr);
    int argc = (int)a.size();
    char** argv = av.data();
    LLVMFuzzerRunDriver(&argc, &argv, fuzzOne);
    flush();
}
#endif
