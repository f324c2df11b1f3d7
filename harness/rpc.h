// Callees with a log of what they executed, and the checks of an outcome against it.
#pragma once
#include "vh.h"
#include "proc.h"
#include "veigar/veigar.h"
namespace vh {
using veigar::CallResult;
using veigar::ErrorCode;
// Each of these must return, whatever the other threads of the process achieve meanwhile.
struct Veigar : veigar::Veigar {
    Veigar() noexcept = default;
    Veigar(Veigar&& o) noexcept : veigar::Veigar(std::move(static_cast<veigar::Veigar&>(o))) {}
    Veigar& operator=(Veigar&& o) noexcept {
        veigar::Veigar::operator=(std::move(static_cast<veigar::Veigar&>(o)));
        return *this;
    }
    template <class... A> bool init(A&&... a) {
        Within w("init", 90000);
        return veigar::Veigar::init(std::forward<A>(a)...);
    }
    void uninit() {
        Within w("uninit", 90000);
        veigar::Veigar::uninit();
    }
    template <class... A> CallResult syncCall(const std::string& target, uint32_t timeoutMs, const std::string& fn, A... args) {
        Within w("syncCall", (int64_t)timeoutMs + 60000);
        return veigar::Veigar::syncCall(target, timeoutMs, fn, args...);
    }
};

constexpr int kMaxTok = 1 << 20;
struct ExecLog {
    std::atomic<uint32_t> next;             // tokens handed out
    std::atomic<int> go, ready, done, stop;
    std::atomic<int64_t> block;             // handlers "block" wait while set
    std::atomic<uint8_t> n[kMaxTok];        // executions per token
};
inline ExecLog* localLog() {
    return new (mmap(nullptr, sizeof(ExecLog), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) ExecLog;
}

inline uint64_t expectNum(uint64_t tok, uint64_t a, int chanId, int fid) {
    return mix64(mix64(tok * 31 + a) ^ ((uint64_t)chanId << 32) ^ (uint64_t)(fid + 1));
}
inline std::string expectStr(uint64_t tok, const std::string& s, int chanId) {
    return "c" + std::to_string(chanId) + ":" + std::to_string(tok) + ":" + s;
}
inline std::vector<uint8_t> expectVec(uint64_t tok, const std::vector<uint8_t>& v, int chanId) {
    std::vector<uint8_t> r(v.rbegin(), v.rend());
    for (int i = 0; i < 8; i++) r.push_back((uint8_t)(tok >> (8 * i)));
    r.push_back((uint8_t)chanId);
    return r;
}
// Function names that are easily confused with each other or with parts of a call id.
inline const std::vector<std::string>& numFuncs() {
    static const std::vector<std::string> v = {"f", "f1", "f11", "1", "-", "f-1", "1-f", "-1-f", "f%s%n", "F", "f ", std::string(200, 'f'), std::string(200, 'f') + "g", "0-f", "f\xc3\xa9"};
    return v;
}

struct Callee {
    Veigar* v = nullptr;
    int chanId = 0;
    ExecLog* log = nullptr;
    std::atomic<int> running{0}, maxRunning{0};
    void enter(uint64_t tok) {
        int r = running.fetch_add(1) + 1;
        int m = maxRunning.load();
        while (r > m && !maxRunning.compare_exchange_weak(m, r)) {}
        if (tok < kMaxTok) log->n[tok].fetch_add(1);
    }
    void leave() { running.fetch_sub(1); }
    struct In {
        Callee* c;
        In(Callee* c, uint64_t t) : c(c) { c->enter(t); }
        ~In() { c->leave(); }
    };
    bool bindAll() {
        bool ok = true;
        Callee* me = this;
        auto& names = numFuncs();
        for (int i = 0; i < (int)names.size(); i++)
            ok = v->bind(names[i], [me, i](uint64_t tok, uint64_t a) -> uint64_t { In in(me, tok); return expectNum(tok, a, me->chanId, i); }) && ok;
        ok = v->bind("str", [me](uint64_t tok, std::string s) -> std::string { In in(me, tok); return expectStr(tok, s, me->chanId); }) && ok;
        ok = v->bind("vec", [me](uint64_t tok, std::vector<uint8_t> d) -> std::vector<uint8_t> { In in(me, tok); return expectVec(tok, d, me->chanId); }) && ok;
        ok = v->bind("void", [me](uint64_t tok) { In in(me, tok); }) && ok;
        ok = v->bind("slow", [me](uint64_t tok, int ms) -> uint64_t { In in(me, tok); sleepMs(ms); return expectNum(tok, ms, me->chanId, 100); }) && ok;
        ok = v->bind("block", [me](uint64_t tok) -> uint64_t {
            In in(me, tok);
            if (me->log->block.load()) waitUntil([&] { return me->log->block.load() == 0; }, 600000);
            return expectNum(tok, 0, me->chanId, 101);
        }) && ok;
        ok = v->bind("throw", [me](uint64_t tok) -> int { In in(me, tok); throw std::runtime_error("boom-" + std::to_string(tok) + "-"); return 0; }) && ok;
        ok = v->bind("throwInt", [me](uint64_t tok) -> int { In in(me, tok); throw 42; return 0; }) && ok;
        ok = v->bind("nest", [me](uint64_t tok, std::string target, int tid, uint64_t tok2) -> uint64_t {
            In in(me, tok);
            CallResult r = me->v->syncCall(target, 20000, "f", tok2, (uint64_t)7);
            uint64_t x = 0;
            if (!r.isSuccess()) throw std::runtime_error("nested call failed: " + r.errorMessage);
            r.convertObject(x);
            if (x != expectNum(tok2, 7, tid, 0)) viol("nested-result-wrong", fmt("token %" PRIu64, tok2), "C01");
            return expectNum(tok, x, me->chanId, 102);
        }) && ok;
        return ok;
    }
};

inline const char* ecName(ErrorCode e) { return e == ErrorCode::SUCCESS ? "SUCCESS" : e == ErrorCode::TIMEOUT ? "TIMEOUT" : e == ErrorCode::FAILED ? "FAILED" : "?"; }
inline std::string show(const CallResult& r) { return fmt("%s \"%s\"", ecName(r.errCode), r.errorMessage.substr(0, 150).c_str()); }
inline CallResult toResult(const CallResult& r) {   // a copy that outlives a callback
    CallResult c;
    c.errCode = r.errCode;
    c.errorMessage = r.errorMessage;
    if (r.obj.zone() || !r.obj.get().is_nil()) c.obj = veigar_msgpack::clone(r.obj.get());
    return c;
}
// initialise; the lock timeout is large so that no call fails for it
inline bool up(Veigar& v, const std::string& name, uint32_t cap = 200, uint32_t sz = 10240, uint32_t lockMs = 20000) {
    v.setTimeoutOfRWLock(lockMs);
    return v.init(name, cap, sz);
}
}  // namespace vh
