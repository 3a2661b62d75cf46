// What a function prints and how the process that runs it ends.
#ifndef MC_CHILD_HPP
#define MC_CHILD_HPP
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <functional>
#include <string>
#include "engine.hpp"

namespace mc {

inline std::string child(std::function<void()> f) {
    int p[2];
    if (pipe(p) != 0) { return "pipe failed"; }
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        alarm(60);
        dup2(p[1], 1);
        dup2(p[1], 2);
        close(p[0]);
        f();
        _exit(77);
    }
    close(p[1]);
    std::string r;
    char buf[4096];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof(buf))) > 0) { r.append(buf, n); }
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    return r + "status " + str(st);
}

} // namespace mc
#endif
