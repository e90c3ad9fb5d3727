// runs fn under every schedule (up to a number of them), each in a process of its own; any that fails ends the demonstration
#pragma once
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <utility>
#include <sys/wait.h>
#include <unistd.h>
static std::vector<int> script_;
static size_t at_;
static int pipe_[2];
static const char *why_ = "";
extern "C" void vf_assert(int c, const char *l)
{
    if (!c) { std::fprintf(stderr, "FAILED: %s\n", l); _exit(1); }
}
extern "C" int vf_choice(const char *, int n)
{
    int v = at_ < script_.size() ? script_[at_] : 0;
    at_++;
    int r[2] = {v, n};
    if (write(pipe_[1], r, sizeof r) != sizeof r) _exit(3);
    return v < n ? v : 0;
}
static void schedules(void (*fn)(), int most = 200)
{
    for (int k = 0; k < most; k++) {
        if (pipe(pipe_)) exit(3);
        std::fflush(NULL);
        at_ = 0;
        pid_t p = fork();
        if (!p) { close(pipe_[0]); alarm(60); fn(); std::fflush(NULL); _exit(0); }
        close(pipe_[1]);
        std::vector<std::pair<int, int> > t;
        int r[2], s;
        while (read(pipe_[0], r, sizeof r) == sizeof r) t.push_back(std::make_pair(r[0], r[1]));
        close(pipe_[0]);
        waitpid(p, &s, 0);
        if (!WIFEXITED(s) || WEXITSTATUS(s)) { std::fprintf(stderr, "schedule %d fails\n", k); exit(1); }
        while (t.size() && t.back().first + 1 >= t.back().second) t.pop_back();
        if (t.empty()) return;
        script_.clear();
        for (size_t i = 0; i < t.size(); i++) script_.push_back(t[i].first);
        script_.back()++;
    }
}
