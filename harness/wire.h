// An encoder and decoder of MessagePack written from its specification, independent of the library's, and a peer that
// speaks the library's protocol through raw queues.
#pragma once
#include <cmath>
#include "vh.h"
#include "message_queue.h"
#include "veigar/msgpack.hpp"
namespace vh {
struct Node {
    enum K { NIL, BOOL, UINT, NEG, F32, F64, STR, BIN, EXT, ARR, MAP } k = NIL;
    uint64_t u = 0;         // BOOL, UINT; NEG: the bits of the negative number
    uint64_t bits = 0;      // F32, F64
    std::string s;          // STR, BIN, EXT
    int8_t ext = 0;
    std::vector<Node> a;    // ARR; MAP: key, value, key, value...
    static Node nil() { return Node(); }
    static Node boolean(bool b) { Node n; n.k = BOOL; n.u = b; return n; }
    static Node integer(int64_t v) { Node n; n.k = v < 0 ? NEG : UINT; n.u = (uint64_t)v; return n; }
    static Node uinteger(uint64_t v) { Node n; n.k = UINT; n.u = v; return n; }
    static Node f64(double d) { Node n; n.k = F64; memcpy(&n.bits, &d, 8); return n; }
    static Node f32(float d) { Node n; n.k = F32; uint32_t b; memcpy(&b, &d, 4); n.bits = b; return n; }
    static Node str(const std::string& s) { Node n; n.k = STR; n.s = s; return n; }
    static Node bin(const std::string& s) { Node n; n.k = BIN; n.s = s; return n; }
    static Node extn(int8_t t, const std::string& s) { Node n; n.k = EXT; n.ext = t; n.s = s; return n; }
    static Node arr(std::vector<Node> v) { Node n; n.k = ARR; n.a = std::move(v); return n; }
    static Node map(std::vector<Node> v) { Node n; n.k = MAP; n.a = std::move(v); return n; }
    bool nan() const { return k == F32 ? (bits & 0x7fffffffu) > 0x7f800000u : k == F64 && (bits & ~(1ull << 63)) > 0x7ff0000000000000ull; }
    // which NaN it is does not count: converting between float and double quiets one
    bool operator==(const Node& o) const { return k == o.k && u == o.u && (bits == o.bits || (nan() && o.nan())) && s == o.s && ext == o.ext && a == o.a; }
    bool operator!=(const Node& o) const { return !(*this == o); }
    std::string show(int depth = 0) const {
        switch (k) {
            case NIL: return "nil";
            case BOOL: return u ? "true" : "false";
            case UINT: return fmt("%" PRIu64, u);
            case NEG: return fmt("%" PRId64, (int64_t)u);
            case F32: return fmt("f32:%08" PRIx64, bits);
            case F64: return fmt("f64:%016" PRIx64, bits);
            case STR: return s.size() > 60 ? fmt("str[%zu]", s.size()) : "\"" + s + "\"";
            case BIN: return fmt("bin[%zu]:", s.size()) + hex(s.data(), s.size(), 12);
            case EXT: return fmt("ext%d[%zu]:", ext, s.size()) + hex(s.data(), s.size(), 12);
            default: {
                std::string r = k == ARR ? "[" : "{";
                for (size_t i = 0; i < a.size() && r.size() < 300; i++) r += (i ? "," : "") + (depth > 6 ? std::string("...") : a[i].show(depth + 1));
                return r + (k == ARR ? "]" : "}");
            }
        }
    }
};

// the value a peer sees: a whole number given as floating point may travel as an integer
inline bool sameValue(const Node& want, const Node& got) {
    if (want.a.size() != got.a.size()) return false;
    for (size_t i = 0; i < want.a.size(); i++) if (!sameValue(want.a[i], got.a[i])) return false;
    if (want.k == Node::F32 || want.k == Node::F64) {
        double d, g;
        auto num = [](const Node& n, double& x) {
            if (n.k == Node::F64) memcpy(&x, &n.bits, 8);
            else if (n.k == Node::F32) { float f; uint32_t b = (uint32_t)n.bits; memcpy(&f, &b, 4); x = f; }
            else if (n.k == Node::UINT) x = (double)n.u;
            else if (n.k == Node::NEG) x = (double)(int64_t)n.u;
            else return false;
            return true;
        };
        return num(want, d) && num(got, g) && (d == g || (d != d && g != g));
    }
    if (want.a.empty()) return want == got;
    return want.k == got.k;
}

// the form in which a value travels when the library packs it
inline Node wired(Node n) {
    for (auto& x : n.a) x = wired(x);
    if (n.k != Node::F32 && n.k != Node::F64) return n;
    double d;
    if (n.k == Node::F64) memcpy(&d, &n.bits, 8);
    else { float f; uint32_t b = (uint32_t)n.bits; memcpy(&f, &b, 4); d = f; }
    if (d >= 0 && d < 18446744073709551616.0 && d == (double)(uint64_t)d) return Node::uinteger((uint64_t)d);
    if (d < 0 && d >= -9223372036854775808.0 && d == (double)(int64_t)d) return Node::integer((int64_t)d);
    return n;
}

inline void be(std::string& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) o += (char)(uint8_t)(v >> (8 * i)); }

// r: choose any of the valid encodings, otherwise the shortest one
inline void encode(const Node& n, std::string& o, Rng* r = nullptr) {
    auto width = [&](int least, int most) { return r && r->chance(1, 2) ? (int)r->range(least, most) : least; };
    switch (n.k) {
        case Node::NIL: o += '\xc0'; break;
        case Node::BOOL: o += n.u ? '\xc3' : '\xc2'; break;
        case Node::UINT: {
            int w = width(n.u < 128 ? 0 : n.u < 256 ? 1 : n.u < 65536 ? 2 : n.u < 4294967296ull ? 3 : 4, 4);
            if (w == 0) o += (char)n.u;
            else {
                // the signed formats can hold it as well
                bool sg = r && r->chance(1, 4) && n.u < (1ull << ((8 << (w - 1)) - 1));
                o += (char)((sg ? 0xd0 : 0xcc) + w - 1);
                be(o, n.u, 1 << (w - 1));
            }
            break;
        }
        case Node::NEG: {
            int64_t v = (int64_t)n.u;
            int w = width(v >= -32 ? 0 : v >= -128 ? 1 : v >= -32768 ? 2 : v >= -2147483648ll ? 3 : 4, 4);
            if (w == 0) o += (char)v;
            else { o += (char)(0xd0 + w - 1); be(o, n.u, 1 << (w - 1)); }
            break;
        }
        case Node::F32: o += '\xca'; be(o, n.bits, 4); break;
        case Node::F64: o += '\xcb'; be(o, n.bits, 8); break;
        case Node::STR: {
            size_t l = n.s.size();
            int w = width(l < 32 ? 0 : l < 256 ? 1 : l < 65536 ? 2 : 3, 3);
            if (w == 0) o += (char)(0xa0 + l); else { o += (char)(0xd9 + w - 1); be(o, l, 1 << (w - 1)); }
            o += n.s;
            break;
        }
        case Node::BIN: {
            size_t l = n.s.size();
            int w = width(l < 256 ? 1 : l < 65536 ? 2 : 3, 3);
            o += (char)(0xc4 + w - 1); be(o, l, 1 << (w - 1));
            o += n.s;
            break;
        }
        case Node::EXT: {
            size_t l = n.s.size();
            bool fix = l == 1 || l == 2 || l == 4 || l == 8 || l == 16;
            int w = width(fix ? 0 : l < 256 ? 1 : l < 65536 ? 2 : 3, 3);
            if (w == 0) o += (char)(l == 1 ? 0xd4 : l == 2 ? 0xd5 : l == 4 ? 0xd6 : l == 8 ? 0xd7 : 0xd8);
            else { o += (char)(0xc7 + w - 1); be(o, l, 1 << (w - 1)); }
            o += (char)n.ext;
            o += n.s;
            break;
        }
        case Node::ARR:
        case Node::MAP: {
            bool m = n.k == Node::MAP;
            size_t l = m ? n.a.size() / 2 : n.a.size();
            int w = width(l < 16 ? 0 : l < 65536 ? 1 : 2, 2);
            if (w == 0) o += (char)((m ? 0x80 : 0x90) + l);
            else { o += (char)((m ? 0xde : 0xdc) + w - 1); be(o, l, w == 1 ? 2 : 4); }
            for (auto& x : n.a) encode(x, o, r);
            break;
        }
    }
}
inline std::string enc(const Node& n, Rng* r = nullptr) { std::string o; encode(n, o, r); return o; }

// 1: an object, off is behind it. 0: the bytes end inside an object. -1: not MessagePack.
inline int decode(const uint8_t* p, size_t n, size_t& off, Node& out, int depth = 0) {
    auto need = [&](size_t k) { return n - off >= k; };
    auto rd = [&](int k) { uint64_t v = 0; for (int i = 0; i < k; i++) v = v << 8 | p[off + i]; off += k; return v; };
    if (!need(1)) return 0;
    uint8_t b = p[off++];
    out = Node();
    auto bytes = [&](Node::K k, uint64_t l) -> int {
        if (!need(l)) return 0;
        out.k = k;
        out.s.assign((const char*)p + off, l);
        off += l;
        return 1;
    };
    auto items = [&](Node::K k, uint64_t l) -> int {
        out.k = k;
        uint64_t c = k == Node::MAP ? 2 * l : l;
        for (uint64_t i = 0; i < c; i++) {
            Node x;
            int rc = decode(p, n, off, x, depth + 1);
            if (rc != 1) return rc;
            out.a.push_back(std::move(x));
        }
        return 1;
    };
    if (b < 0x80) { out = Node::uinteger(b); return 1; }
    if (b >= 0xe0) { out = Node::integer((int8_t)b); return 1; }
    if (b < 0x90) return items(Node::MAP, b & 15);
    if (b < 0xa0) return items(Node::ARR, b & 15);
    if (b < 0xc0) return bytes(Node::STR, b & 31);
    switch (b) {
        case 0xc0: return 1;
        case 0xc1: return -1;
        case 0xc2: case 0xc3: out = Node::boolean(b == 0xc3); return 1;
        case 0xc4: case 0xc5: case 0xc6: { int w = 1 << (b - 0xc4); if (!need(w)) return 0; uint64_t l = rd(w); return bytes(Node::BIN, l); }
        case 0xc7: case 0xc8: case 0xc9: {
            int w = 1 << (b - 0xc7);
            if (!need(w)) return 0;
            uint64_t l = rd(w);
            if (!need(1)) return 0;
            int8_t t = (int8_t)p[off++];
            int rc = bytes(Node::EXT, l);
            out.ext = t;
            return rc;
        }
        case 0xca: if (!need(4)) return 0; out.k = Node::F32; out.bits = rd(4); return 1;
        case 0xcb: if (!need(8)) return 0; out.k = Node::F64; out.bits = rd(8); return 1;
        case 0xcc: case 0xcd: case 0xce: case 0xcf: { int w = 1 << (b - 0xcc); if (!need(w)) return 0; out = Node::uinteger(rd(w)); return 1; }
        case 0xd0: if (!need(1)) return 0; out = Node::integer((int8_t)rd(1)); return 1;
        case 0xd1: if (!need(2)) return 0; out = Node::integer((int16_t)rd(2)); return 1;
        case 0xd2: if (!need(4)) return 0; out = Node::integer((int32_t)rd(4)); return 1;
        case 0xd3: if (!need(8)) return 0; out = Node::integer((int64_t)rd(8)); return 1;
        case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: {
            if (!need(1)) return 0;
            int8_t t = (int8_t)p[off++];
            int rc = bytes(Node::EXT, 1u << (b - 0xd4));
            out.ext = t;
            return rc;
        }
        case 0xd9: case 0xda: case 0xdb: { int w = 1 << (b - 0xd9); if (!need(w)) return 0; uint64_t l = rd(w); return bytes(Node::STR, l); }
        case 0xdc: case 0xdd: { int w = b == 0xdc ? 2 : 4; if (!need(w)) return 0; uint64_t l = rd(w); return items(Node::ARR, l); }
        default: { int w = b == 0xde ? 2 : 4; if (!need(w)) return 0; uint64_t l = rd(w); return items(Node::MAP, l); }
    }
}

inline Node fromObj(const veigar_msgpack::object& o) {
    using namespace veigar_msgpack::type;
    switch (o.type) {
        case NIL: return Node::nil();
        case BOOLEAN: return Node::boolean(o.via.boolean);
        case POSITIVE_INTEGER: return Node::uinteger(o.via.u64);
        case NEGATIVE_INTEGER: return Node::integer(o.via.i64);
        case FLOAT32: return Node::f32((float)o.via.f64);
        case FLOAT64: return Node::f64(o.via.f64);
        case STR: return Node::str(std::string(o.via.str.ptr, o.via.str.size));
        case BIN: return Node::bin(std::string(o.via.bin.ptr, o.via.bin.size));
        case EXT: return Node::extn(o.via.ext.type(), std::string(o.via.ext.data(), o.via.ext.size));
        case ARRAY: { Node n; n.k = Node::ARR; for (uint32_t i = 0; i < o.via.array.size; i++) n.a.push_back(fromObj(o.via.array.ptr[i])); return n; }
        default: {
            Node n;
            n.k = Node::MAP;
            for (uint32_t i = 0; i < o.via.map.size; i++) { n.a.push_back(fromObj(o.via.map.ptr[i].key)); n.a.push_back(fromObj(o.via.map.ptr[i].val)); }
            return n;
        }
    }
}

inline uint64_t randBits(Rng& r) {
    uint64_t v = r.next();
    int b = (int)r.below(65);
    v = b == 64 ? v : v & ((1ull << b) - 1);
    switch (r.below(6)) {
        case 0: return b == 0 ? 0 : b == 64 ? ~0ull : (1ull << b) - 1;
        case 1: return b == 64 ? 0 : (1ull << b);
        default: return v;
    }
}
inline std::string randStr(Rng& r, size_t most = 300) {
    static const size_t edge[] = {0, 1, 2, 4, 8, 15, 16, 17, 31, 32, 33, 255, 256, 257};
    size_t l = r.chance(1, 3) ? (size_t)r.pick(edge) : r.below(40);
    if (r.chance(1, 40)) l = r.below(most);
    if (l > most) l = most;
    std::string s(l, 0);
    for (auto& c : s) c = r.chance(1, 3) ? (char)r.next() : (char)('a' + r.below(26));
    return s;
}
inline Node randNode(Rng& r, int depth = 3, size_t most = 300) {
    switch (r.below(depth > 0 ? 12 : 9)) {
        case 0: return Node::nil();
        case 1: return Node::boolean(r.chance(1, 2));
        case 2: case 3: return Node::uinteger(randBits(r));
        case 4: { int64_t v = (int64_t)randBits(r); return Node::integer(v < 0 ? v : -v); }
        case 5: { Node n; n.k = Node::F64; double d = r.chance(1, 2) ? (double)(int64_t)r.next() / 77 : r.chance(1, 2) ? INFINITY : -0.0; memcpy(&n.bits, &d, 8); return n; }
        case 6: return Node::f32((float)(int32_t)r.next() / 3);
        case 7: return Node::str(randStr(r, most));
        case 8: return r.chance(1, 2) ? Node::bin(randStr(r, most)) : Node::extn((int8_t)r.next(), randStr(r, most));
        case 9: case 10: { Node n; n.k = Node::ARR; for (uint64_t i = 0, c = r.chance(1, 8) ? 14 + r.below(5) : r.below(5); i < c; i++) n.a.push_back(randNode(r, depth - 1, most)); return n; }
        default: { Node n; n.k = Node::MAP; for (uint64_t i = 0, c = r.chance(1, 8) ? 14 + r.below(5) : r.below(4); i < c; i++) { n.a.push_back(randNode(r, depth - 1, most)); n.a.push_back(randNode(r, depth - 1, most)); } return n; }
    }
}

// ---- raw access to queues ----------------------------------------------------------------------------------------
struct RawQueue {
    std::unique_ptr<veigar::MessageQueue> q;
    bool create(const std::string& name, int cap, int sz) { q.reset(new veigar::MessageQueue(cap, sz)); return q->create(name); }
    bool open(const std::string& name) { q.reset(new veigar::MessageQueue(1, 1)); return q->open(name); }
    ~RawQueue() { if (q) q->close(); }
    // 1 done, 0 no space for 10 s, -1 never fits
    int push(const std::string& b, bool signal = true) {
        int res = 0;
        waitUntil([&] {
            if (!q->processRWLock(10000)) return false;
            bool waitable = false;
            if (q->checkSpaceSufficient((int64_t)b.size(), waitable)) {
                res = q->pushBack(b.data(), (int64_t)b.size()) ? 1 : -1;
                if (signal) q->notifyRead();
            }
            else if (!waitable) res = -1;
            q->processRWUnlock();
            return res != 0;
        }, 10000);
        return res;
    }
    // 1 a message, 0 none within ms
    int pop(std::string& b, int64_t ms) {
        if (!q->waitForRead(ms)) return 0;
        if (!q->processRWLock(20000)) { q->notifyRead(); return 0; }
        int rc = 0;
        if (q->msgNumber() > 0) {
            int64_t w = 0;
            char c;
            q->popFront(&c, 0, w);      // asks for the size
            if (w > 0) {
                b.resize((size_t)w);
                if (q->popFront(&b[0], w, w)) { b.resize((size_t)w); rc = 1; }
            }
        }
        q->processRWUnlock();
        return rc;
    }
};
// a peer without the library's call layer
struct RawPeer {
    std::string name;
    RawQueue call, resp;
    bool create(const std::string& n, int cap = 500, int sz = 4000) { name = n; return call.create(n + "_call", cap, sz) && resp.create(n + "_resp", cap, sz); }
};
inline bool checkNode(const std::string& b, Node& m) {
    size_t off = 0;
    return decode((const uint8_t*)b.data(), b.size(), off, m) == 1 && m.k == Node::ARR;
}
inline Node callNode(const std::string& id, const std::string& caller, const std::string& fn, std::vector<Node> args) {
    return Node::arr({Node::uinteger(0), Node::str(id), Node::str(caller), Node::str(fn), Node::arr(std::move(args))});
}
inline Node respNode(const std::string& id, const Node& err, const Node& res) { return Node::arr({Node::uinteger(1), Node::str(id), err, res}); }
}  // namespace vh
