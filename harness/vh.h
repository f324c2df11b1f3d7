// Common machinery of the harnesses: random numbers, the event/verdict stream, deadlines that count progress of a
// canary thread rather than wall time alone, the hang watchdog, resource counters.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <iterator>
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {

// ---- random ---------------------------------------------------------------------------------------------------
inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x5851f42d4c957f2dull)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    template <class V> auto& pick(V& v) { return v[below(std::size(v))]; }
};
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return mix64(h);
}
inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

// ---- time -----------------------------------------------------------------------------------------------------
int64_t nowUs();                       // monotonic
inline int64_t nowMs() { return nowUs() / 1000; }
inline void sleepMs(int64_t ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
inline void sleepUs(int64_t us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }

// Milliseconds during which this process really made progress: a thread that sleeps 5 ms at a time adds 5 for each
// time it wakes up, however late. On a starved machine this clock slows down with the code under test.
int64_t canaryMs();
struct Deadline {
    int64_t endC, endW;
    explicit Deadline(int64_t ms) : endC(canaryMs() + ms), endW(nowMs() + ms) {}
    bool passed() const { return nowMs() >= endW && canaryMs() >= endC; }
};
template <class F> bool waitUntil(F f, int64_t ms) {
    Deadline d(ms);
    int n = 0;
    while (!f()) {
        if (d.passed()) return f();
        if (++n < 50) std::this_thread::yield(); else sleepUs(n < 500 ? 200 : 1000);
    }
    return true;
}

// ---- verdict stream -------------------------------------------------------------------------------------------
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string jesc(const std::string& s);
std::string hex(const void* p, size_t n, size_t max = 48);
// A violation. key: stable identity (no addresses, no numbers of the run); msg: the witness.
void viol(const std::string& key, const std::string& msg, const char* prop = "*");
// The verdict rests on wall-clock time: the orchestrator repeats the unit and wants to see it again.
void tviol(const std::string& key, const std::string& msg, const char* prop = "*");
// A violation after which the scenario goes on (for those that KNOWN_FINDINGS lists).
void finding(const std::string& key, const std::string& msg, const char* prop = "*");
void inconc(const std::string& msg);   // not decided, never an alarm
void fatal(const std::string& msg);    // the harness itself is broken: error exit
void sample(const std::string& s);     // a few are kept
void eval(int64_t n = 1);
void distinct(uint64_t h);
inline void distinct(const std::string& s) { distinct(hashStr(s)); }
void stat(const std::string& name, int64_t n = 1);
void statMax(const std::string& name, int64_t n);
bool violated();                       // any so far in this process
void flush();                          // write the counters

// ---- watchdog -------------------------------------------------------------------------------------------------
void beat(const char* where = nullptr);        // progress
void setHangLimit(int64_t ms);                 // default 60000 (canary ms without beat)
// An operation that must return; when it takes longer (by the canary's clock) the process reports a hang and ends.
struct Within {
    int slot = -1;
    Within(const char* what, int64_t ms);
    ~Within();
};
void startThreads();                           // canary + watchdog (call after any early fork)
void afterFork();                              // in a child: restart them

// ---- names and resources --------------------------------------------------------------------------------------
std::string chan(const std::string& s);        // name unique to this run
// The same with a filler in front, often long: names of up to about 220 bytes can be used.
std::string filler(Rng& r);
std::string longChan(Rng& r, const std::string& s);
const std::string& prefix();
std::vector<std::string> shmEntries(const std::string& containing);   // names in /dev/shm
int threadCount();
int fdCount();
int64_t mapCount(const std::string& containing = "");
int64_t heapBytes();
void cleanShm(const std::string& namePrefix);

// f() should become v; measured again for a while, since threads that end or start hold resources for a moment
template <class F> bool settles(F f, int64_t v) { return waitUntil([&] { return (int64_t)f() == v; }, 3000); }

// ---- perturbation and faults (perturb.cpp; linked with --wrap) --------------------------------------------------
void perturb(int level, uint64_t seed);        // 0 = off; 1..3
int64_t perturbEvents();
enum FaultOp { F_SHM_OPEN, F_FTRUNCATE, F_FALLOCATE, F_MMAP, F_SEM_OPEN, F_PTHREAD_CREATE, F_FSTAT, F_COUNT };
void faultArm(int op, int k, int err);         // the k-th (0-based) call of op from now on fails with err; -1 = off
bool faultFired();
int faultCalls(int op);                        // calls since armed
// crash points: at the k-th counted operation of this process raise SIGKILL
void crashArm(int64_t k);
int64_t crashOps();
// How many inter-process locks (semaphores whose name ends in _rwlock) this process may hold now, kept up to date for a
// parent to read: [0] others' locks, [1] those whose name contains lockOwnPrefix. Set before the first lock is opened.
extern std::atomic<int>* lockDepthShared;
extern std::string* lockOwnPrefix;
void guardMaps(bool on);                       // surround later mmaps of shm by inaccessible pages

// ---- scenarios ------------------------------------------------------------------------------------------------
struct Args {
    std::string name;
    uint64_t seed = 1;
    int scale = 1;                             // 1 = quick; thorough uses more
    std::vector<std::string> rest;
};
typedef void (*ScenFn)(Args&);
struct Scen { Scen(const char* n, ScenFn f); };
#define SCENARIO(n) static void scen_##n(vh::Args&); static vh::Scen reg_##n(#n, scen_##n); static void scen_##n(vh::Args& args)

// runs f(i) in n threads, joins
template <class F> void parallel(int n, F f) {
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++) ts.emplace_back([&f, i] { f(i); });
    for (auto& t : ts) t.join();
}
}  // namespace vh
