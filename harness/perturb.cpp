// Link-time wrappers (-Wl,--wrap=...) around the synchronisation and resource calls of the library: seeded delays,
// failing system calls, crash points, guard pages. Everything is off until a scenario switches it on.
#include "vh.h"
#include <semaphore.h>
#include <sched.h>
#include <pthread.h>

extern "C" {
int __real_sem_wait(sem_t*);
int __real_sem_timedwait(sem_t*, const struct timespec*);
int __real_sem_post(sem_t*);
sem_t* __real_sem_open(const char*, int, ...);
int __real_sem_close(sem_t*);
int __real_shm_open(const char*, int, mode_t);
int __real_shm_unlink(const char*);
int __real_ftruncate(int, off_t);
int __real_posix_fallocate(int, off_t, off_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
}

namespace vh {
static std::atomic<int> g_level{0};
static std::atomic<uint64_t> g_seed{1};
static std::atomic<uint64_t> g_tid{0};
static std::atomic<int64_t> g_pevents{0};
void perturb(int level, uint64_t seed) { g_seed = seed; g_level = level; }
int64_t perturbEvents() { return g_pevents.load(); }

static std::atomic<int> g_fop{-1}, g_fk{0}, g_ferr{0};
static std::atomic<bool> g_ffired{false};
static std::atomic<int> g_fcalls[F_COUNT];
void faultArm(int op, int k, int err) {
    g_fop = -1;
    for (auto& c : g_fcalls) c = 0;
    g_ffired = false;
    g_fk = k;
    g_ferr = err;
    g_fop = op;
}
bool faultFired() { return g_ffired; }
int faultCalls(int op) { return g_fcalls[op]; }
static bool fault(int op) {
    int n = g_fcalls[op].fetch_add(1, std::memory_order_relaxed);
    if (g_fop.load(std::memory_order_relaxed) == op && n == g_fk.load(std::memory_order_relaxed)) {
        g_ffired = true;
        errno = g_ferr;
        return true;
    }
    return false;
}

static std::atomic<int64_t> g_crashAt{-1}, g_ops{0};
std::atomic<int>* lockDepthShared = nullptr;
std::string* lockOwnPrefix = new std::string;
void crashArm(int64_t k) { g_ops = 0; g_crashAt = k; }
int64_t crashOps() { return g_ops; }
static void crashPoint() {
    int64_t n = g_ops.fetch_add(1, std::memory_order_relaxed);   // no order between threads: TSan would miss races
    int64_t k = g_crashAt.load(std::memory_order_relaxed);
    if (k >= 0 && n == k) {
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
}

static std::atomic<bool> g_guard{false};
void guardMaps(bool on) { g_guard = on; }

static inline void maybeDelay(int kind) {
    int l = g_level.load(std::memory_order_relaxed);
    if (!l) return;
    static thread_local uint64_t st = 0;
    if (!st) st = mix64(g_seed.load(std::memory_order_relaxed) * 1000003 + g_tid.fetch_add(1, std::memory_order_relaxed)) | 1;
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    uint64_t r = st >> 16;
    g_pevents.fetch_add(1, std::memory_order_relaxed);
    // kind 0: semaphore operations (few), 1: mutex operations (many)
    unsigned p = kind == 0 ? (l == 1 ? 10 : l == 2 ? 35 : 60) : (l == 1 ? 1 : l == 2 ? 4 : 12);
    if (r % 100 >= p) return;
    r /= 100;
    unsigned w = r % 10;
    r /= 10;
    int e = errno;
    if (w < 5) sched_yield();
    else if (w < 9) { timespec t = {0, (long)(r % 120000)}; nanosleep(&t, nullptr); }
    else { timespec t = {0, (long)(r % (l >= 3 ? 1500000 : 600000))}; nanosleep(&t, nullptr); }
    errno = e;
}
}  // namespace vh
using namespace vh;

// Which semaphores are locks: those opened by a name that ends in _rwlock.
static std::mutex* g_lm = new std::mutex;
static std::map<sem_t*, int>* g_locks = new std::map<sem_t*, int>;
static std::atomic<int> g_dummy{0};
// glibc guards its table of named semaphores with a lock that TSan cannot see
static std::mutex* g_semTree = new std::mutex;
static std::atomic<int>& depth(sem_t* s) {
    if (!lockDepthShared) return g_dummy;
    std::lock_guard<std::mutex> lg(*g_lm);
    auto it = g_locks->find(s);
    return it == g_locks->end() ? g_dummy : lockDepthShared[it->second];
}
// Counted from before the wait until after the post: 0 means surely not held.
struct MayHold {
    std::atomic<int>& d;
    explicit MayHold(sem_t* s) : d(depth(s)) { if (lockDepthShared) d.fetch_add(1); }
    void result(int r) { if (r != 0 && lockDepthShared) { int e = errno; d.fetch_sub(1); errno = e; } }
};

extern "C" {
int __wrap_sem_wait(sem_t* s) {
    crashPoint();
    maybeDelay(0);
    MayHold h(s);
    int r = __real_sem_wait(s);
    h.result(r);
    if (r == 0) crashPoint();
    maybeDelay(0);
    return r;
}
int __wrap_sem_timedwait(sem_t* s, const struct timespec* t) {
    crashPoint();
    maybeDelay(0);
    MayHold h(s);
    int r = __real_sem_timedwait(s, t);
    h.result(r);
    if (r == 0) { crashPoint(); maybeDelay(0); }
    return r;
}
int __wrap_sem_post(sem_t* s) {
    crashPoint();
    maybeDelay(0);
    std::atomic<int>& d = depth(s);
    int r = __real_sem_post(s);
    if (r == 0 && lockDepthShared) d.fetch_sub(1);
    crashPoint();
    maybeDelay(0);
    return r;
}
sem_t* __wrap_sem_open(const char* n, int f, mode_t m, unsigned v) {
    crashPoint();
    if (fault(F_SEM_OPEN)) return SEM_FAILED;
    sem_t* s;
    {
        std::lock_guard<std::mutex> lg(*g_semTree);
        s = (f & O_CREAT) ? __real_sem_open(n, f, m, v) : __real_sem_open(n, f);
    }
    if (s != SEM_FAILED && lockDepthShared) {
        std::lock_guard<std::mutex> lg(*g_lm);
        bool lock = strlen(n) > 7 && !strcmp(n + strlen(n) - 7, "_rwlock");
        if (lock) (*g_locks)[s] = !lockOwnPrefix->empty() && strstr(n, lockOwnPrefix->c_str()) ? 1 : 0;
        else g_locks->erase(s);
    }
    crashPoint();
    maybeDelay(0);
    return s;
}
int __wrap_sem_close(sem_t* s) {
    std::lock_guard<std::mutex> lg(*g_semTree);
    return __real_sem_close(s);
}
int __wrap_shm_open(const char* n, int f, mode_t m) {
    crashPoint();
    if (fault(F_SHM_OPEN)) return -1;
    int r = __real_shm_open(n, f, m);
    crashPoint();
    maybeDelay(0);
    return r;
}
int __wrap_shm_unlink(const char* n) {
    crashPoint();
    maybeDelay(0);
    int r = __real_shm_unlink(n);
    crashPoint();
    return r;
}
int __wrap_ftruncate(int fd, off_t l) {
    crashPoint();
    if (fault(F_FTRUNCATE)) return -1;
    int r = __real_ftruncate(fd, l);
    crashPoint();
    return r;
}
int __wrap_posix_fallocate(int fd, off_t o, off_t l) {
    crashPoint();
    if (fault(F_FALLOCATE)) return errno;
    int r = __real_posix_fallocate(fd, o, l);
    crashPoint();
    return r;
}
static std::map<void*, size_t>* g_gm = new std::map<void*, size_t>;
static std::atomic<bool> g_anyGuarded{false};
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
    crashPoint();
    if (fd >= 0 && (flags & MAP_SHARED) && fault(F_MMAP)) return MAP_FAILED;
    if (g_guard.load() && fd >= 0 && (flags & MAP_SHARED) && !a) {
        size_t pg = 4096, full = (len + pg - 1) / pg * pg;
        uint8_t* base = (uint8_t*)__real_mmap(nullptr, full + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) return base;
        void* r = __real_mmap(base + pg, len, prot, flags | MAP_FIXED, fd, off);
        if (r == MAP_FAILED) { __real_munmap(base, full + 2 * pg); return r; }
        std::lock_guard<std::mutex> lg(*g_lm);
        (*g_gm)[r] = full;
        g_anyGuarded = true;
        return r;
    }
    void* r = __real_mmap(a, len, prot, flags, fd, off);
    crashPoint();
    return r;
}
int __wrap_munmap(void* p, size_t len) {
    if (g_anyGuarded.load(std::memory_order_relaxed)) {
        std::lock_guard<std::mutex> lg(*g_lm);
        auto it = g_gm->find(p);
        if (it != g_gm->end()) {
            size_t full = it->second, want = (len + 4095) / 4096 * 4096;
            g_gm->erase(it);
            if (want == full) return __real_munmap((uint8_t*)p - 4096, full + 8192);
        }
    }
    crashPoint();
    return __real_munmap(p, len);
}
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (fault(F_PTHREAD_CREATE)) return errno;
    return __real_pthread_create(t, at, fn, arg);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    maybeDelay(1);
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    maybeDelay(1);
    return r;
}
}
