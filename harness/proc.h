// Child processes of a scenario, and memory shared with them.
#pragma once
#include "vh.h"
#include <spawn.h>
extern char** environ;
namespace vh {
inline std::string workDir() {
    const char* w = getenv("VH_WORK");
    return w ? w : "/tmp";
}
template <class T> T* sharedFile(const std::string& name, bool create) {
    std::string p = workDir() + "/" + name;
    int fd = open(p.c_str(), O_RDWR | (create ? O_CREAT | O_TRUNC : 0) | O_CLOEXEC, 0644);
    if (fd < 0) fatal("open " + p);
    if (create && ftruncate(fd, sizeof(T)) != 0) fatal("ftruncate " + p);
    void* m = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED) fatal("mmap " + p);
    return (T*)m;
}
// runs another scenario of this binary in a new process
inline pid_t spawn(const std::string& scen, uint64_t seed, int scale, const std::vector<std::string>& rest) {
    std::vector<std::string> a = {"/proc/self/exe", scen, std::to_string(seed), std::to_string(scale)};
    for (auto& x : rest) a.push_back(x);
    std::vector<char*> av;
    for (auto& x : a) av.push_back((char*)x.c_str());
    av.push_back(nullptr);
    pid_t pid = -1;
    int rc = posix_spawn(&pid, "/proc/self/exe", nullptr, nullptr, av.data(), environ);
    if (rc != 0) fatal(fmt("posix_spawn: %d", rc));
    return pid;
}
// exit status of the child; kills it when it takes longer. -1000 = had to be killed
inline int reap(pid_t pid, int64_t ms) {
    Deadline d(ms);
    for (;;) {
        int st = 0;
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
        if (r < 0) return -2000;
        if (d.passed()) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return -1000;
        }
        beat();
        sleepMs(1);
    }
}
// A child that ended on its own accord must have ended well.
inline void expectExit(int st, const std::string& who, const char* prop = "*") {
    if (st == 0) return;
    if (st == -1000) tviol("child-hang:" + who, "child " + who + " did not finish", prop);
    else if (st == 97) tviol("child-hang:" + who, "child " + who + " hung", prop);
    else if (st == 98) fatal("child " + who + " failed");
    else if (st == 99) viol("child-sanitizer:" + who, "sanitizer report in child " + who, prop);
    else viol("child-crash:" + who, fmt("child %s ended with %d", who.c_str(), st), prop);
}
}  // namespace vh
