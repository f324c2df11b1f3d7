#include "vh.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#endif
#ifdef VH_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace vh {
int64_t nowUs() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (int64_t)ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}

static std::atomic<int64_t> g_canary{0};
int64_t canaryMs() { return g_canary.load(std::memory_order_relaxed); }

static std::atomic<int64_t> g_beat{0};
static std::atomic<const char*> g_where{"start"};
static std::atomic<int64_t> g_hangLimit{60000};
static std::atomic<bool> g_threads{false};

std::string fmt(const char* f, ...) {
    va_list a;
    va_start(a, f);
    char buf[2048];
    vsnprintf(buf, sizeof buf, f, a);
    va_end(a);
    return buf;
}
std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
std::string hex(const void* p, size_t n, size_t max) {
    std::string r;
    char b[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(b, sizeof b, "%02x", ((const uint8_t*)p)[i]); r += b; }
    if (n > max) r += fmt("..(%zu)", n);
    return r;
}

static int g_out = -1;
static std::mutex& om() { static std::mutex* m = new std::mutex; return *m; }
static void emit(const std::string& line) {
    std::string l = line + "\n";
    if (g_out >= 0) { ssize_t r = ::write(g_out, l.data(), l.size()); (void)r; }
    else fputs(l.c_str(), stderr);
}
struct Counters {
    std::map<std::string, int64_t> sums, maxs;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    int64_t evals = 0;
    int64_t nsamples = 0;
};
static Counters& C() { static Counters* c = new Counters; return *c; }
// Counted per thread and added up when the thread ends: a common lock would order the threads under test, and hide
// their races from TSan.
struct Local {
    Counters c;
    void merge() {
        std::lock_guard<std::mutex> lg(om());
        Counters& a = C();
        for (auto& k : c.sums) a.sums[k.first] += k.second;
        for (auto& k : c.maxs) { auto& x = a.maxs[k.first]; if (k.second > x) x = k.second; }
        for (auto h : c.distinct) if (a.distinct.size() < 60000) a.distinct.insert(h);
        for (auto& x : c.samples) if (a.nsamples++ < 6) a.samples.push_back(x);
        a.evals += c.evals;
        c = Counters();
    }
    ~Local() { merge(); }
};
static Local& local() { static thread_local Local l; return l; }
static Counters& L() { return local().c; }
static std::atomic<int> g_viols{0};

static void violation(const char* t, const std::string& key, const std::string& msg, const char* prop) {
    int n = g_viols.fetch_add(1);
    if (n < 40) {
        std::lock_guard<std::mutex> lg(om());
        emit(std::string("{\"t\":\"") + t + "\",\"prop\":\"" + prop + "\",\"key\":\"" + jesc(key.substr(0, 200)) + "\",\"msg\":\"" + jesc(msg.substr(0, 1000)) + "\"}");
    }
}
void viol(const std::string& key, const std::string& msg, const char* prop) { violation("viol", key, msg, prop); }
void tviol(const std::string& key, const std::string& msg, const char* prop) { violation("tviol", key, msg, prop); }
void finding(const std::string& key, const std::string& msg, const char* prop) {
    static std::set<std::string>* seen = new std::set<std::string>;
    {
        std::lock_guard<std::mutex> lg(om());
        if (!seen->insert(key).second) return;
    }
    violation("viol", key, msg, prop);
    g_viols.fetch_sub(1);
}
void inconc(const std::string& msg) {
    std::lock_guard<std::mutex> lg(om());
    emit(std::string("{\"t\":\"inconc\",\"msg\":\"") + jesc(msg.substr(0, 1000)) + "\"}");
}
void fatal(const std::string& msg) {
    {
        std::lock_guard<std::mutex> lg(om());
        emit(std::string("{\"t\":\"fatal\",\"msg\":\"") + jesc(msg.substr(0, 1000)) + "\"}");
    }
    _exit(98);
}
bool violated() { return g_viols.load(std::memory_order_relaxed) > 0; }
void sample(const std::string& s) { if (L().nsamples++ < 6) L().samples.push_back(s.substr(0, 300)); }
void eval(int64_t n) { L().evals += n; g_beat.store(canaryMs(), std::memory_order_relaxed); }
void distinct(uint64_t h) { auto& d = L().distinct; if (d.size() < 60000) d.insert(h); }
void stat(const std::string& n, int64_t v) { L().sums[n] += v; }
void statMax(const std::string& n, int64_t v) { auto& x = L().maxs[n]; if (v > x) x = v; }
void flush() {
    local().merge();
    std::lock_guard<std::mutex> lg(om());
    Counters& c = C();
    std::string l = fmt("{\"t\":\"cov\",\"evals\":%" PRId64 ",\"sums\":{", c.evals);
    bool first = true;
    for (auto& k : c.sums) { l += fmt("%s\"%s\":%" PRId64, first ? "" : ",", jesc(k.first).c_str(), k.second); first = false; }
    l += "},\"maxs\":{";
    first = true;
    for (auto& k : c.maxs) { l += fmt("%s\"%s\":%" PRId64, first ? "" : ",", jesc(k.first).c_str(), k.second); first = false; }
    l += "},\"samples\":[";
    first = true;
    for (auto& s : c.samples) { l += std::string(first ? "" : ",") + "\"" + jesc(s) + "\""; first = false; }
    l += "],\"distinct\":\"";
    for (auto h : c.distinct) { char b[20]; snprintf(b, sizeof b, "%012" PRIx64, h & 0xffffffffffffull); l += b; }
    l += "\"}";
    emit(l);
    c = Counters();
}

void beat(const char* where) {
    g_beat.store(canaryMs(), std::memory_order_relaxed);
    if (where) g_where.store(where, std::memory_order_relaxed);
}
void setHangLimit(int64_t ms) { g_hangLimit.store(ms); }
static struct { std::atomic<int64_t> due{0}; std::atomic<const char*> what{""}; } g_within[512];
Within::Within(const char* what, int64_t ms) {
    int64_t due = canaryMs() + ms + 1;
    for (int i = 0; i < 512; i++) {
        int64_t none = 0;
        if (g_within[i].due.load(std::memory_order_relaxed) == 0 && g_within[i].due.compare_exchange_strong(none, INT64_MAX, std::memory_order_relaxed)) {
            g_within[i].what.store(what, std::memory_order_relaxed);
            g_within[i].due.store(due, std::memory_order_relaxed);
            slot = i;
            return;
        }
    }
}
Within::~Within() { if (slot >= 0) g_within[slot].due.store(0, std::memory_order_relaxed); }
void startThreads() {
    if (g_threads.exchange(true)) return;
    g_beat.store(canaryMs());
    sigset_t all, old;
    sigfillset(&all);
    pthread_sigmask(SIG_BLOCK, &all, &old);
    std::thread([] {
        for (;;) {
            std::this_thread::sleep_for(std::chrono::milliseconds(5));
            int64_t c = g_canary.fetch_add(5) + 5;
            if (c - g_beat.load() > g_hangLimit.load()) {
                emit(fmt("{\"t\":\"hang\",\"where\":\"%s\"}", g_where.load()));
                _exit(97);
            }
            if (c % 1000 == 0)
                for (auto& w : g_within) {
                    int64_t due = w.due.load(std::memory_order_relaxed);
                    if (due && c > due) {
                        emit(fmt("{\"t\":\"hang\",\"where\":\"%s, which does not return\"}", w.what.load()));
                        _exit(97);
                    }
                }
        }
    }).detach();
    pthread_sigmask(SIG_SETMASK, &old, nullptr);
    // a starting thread may have a file open for a moment (sanitizers)
    int64_t c = g_canary.load();
    while (g_canary.load() == c) std::this_thread::sleep_for(std::chrono::milliseconds(1));
}
void afterFork() {
    g_threads.store(false);
    C() = Counters();
    g_viols.store(0);
    for (auto& w : g_within) w.due.store(0);
    startThreads();
}

static std::string g_prefix;
const std::string& prefix() { return g_prefix; }
std::string chan(const std::string& s) { return g_prefix + s; }
std::string filler(Rng& r) { return std::string(r.chance(1, 2) ? 0 : 1 + r.below(180), '_'); }
std::string longChan(Rng& r, const std::string& s) { return chan(filler(r) + s); }
std::vector<std::string> shmEntries(const std::string& containing) {
    std::vector<std::string> r;
    DIR* d = opendir("/dev/shm");
    if (!d) return r;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != ".." && n.find(containing) != std::string::npos) r.push_back(n);
    }
    closedir(d);
    return r;
}
static int countDir(const char* p) {
    int n = 0;
    DIR* d = opendir(p);
    if (!d) return -1;
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++;
    closedir(d);
    return n;
}
int threadCount() { return countDir("/proc/self/task"); }
int fdCount() { return countDir("/proc/self/fd") - 1; }
int64_t mapCount(const std::string& containing) {
    FILE* f = fopen("/proc/self/maps", "r");
    if (!f) return -1;
    char line[1024];
    int64_t n = 0;
    while (fgets(line, sizeof line, f)) if (containing.empty() || strstr(line, containing.c_str())) n++;
    fclose(f);
    return n;
}
int64_t heapBytes() {
#ifdef VH_ASAN
    return (int64_t)__sanitizer_get_current_allocated_bytes();
#else
    struct mallinfo2 m = mallinfo2();
    return (int64_t)m.uordblks + (int64_t)m.hblkhd;
#endif
}
void cleanShm(const std::string& p) {
    if (p.size() < 4) return;
    for (auto& n : shmEntries(p)) {
        if (n.compare(0, p.size(), p) == 0) shm_unlink(("/" + n).c_str());
        else if (n.compare(0, 4 + p.size(), "sem." + p) == 0) shm_unlink(("/" + n).c_str());
    }
}

static std::map<std::string, ScenFn>& scens() { static std::map<std::string, ScenFn>* m = new std::map<std::string, ScenFn>; return *m; }
Scen::Scen(const char* n, ScenFn f) { scens()[n] = f; }
}  // namespace vh

int main(int argc, char** argv) {
    using namespace vh;
    if (argc < 2) {
        for (auto& s : scens()) puts(s.first.c_str());
        return 0;
    }
    Args a;
    a.name = argv[1];
    if (argc > 2) a.seed = strtoull(argv[2], nullptr, 10);
    if (argc > 3) a.scale = atoi(argv[3]);
    for (int i = 4; i < argc; i++) a.rest.push_back(argv[i]);
    const char* o = getenv("VH_OUT");
    if (o) g_out = open(o, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    const char* p = getenv("VH_PREFIX");
    g_prefix = p ? p : fmt("vh%d_", getpid());
    if (!getenv("VH_KEEP_STDOUT")) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        close(n);
    }
    signal(SIGPIPE, SIG_IGN);
    auto it = scens().find(a.name);
    if (it == scens().end()) { fprintf(stderr, "no scenario %s\n", a.name.c_str()); return 98; }
    if (!getenv("VH_NO_THREADS")) startThreads();
    it->second(a);
    beat("exit");
    flush();
    if (!p) cleanShm(g_prefix);
    return 0;
}
