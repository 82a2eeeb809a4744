// C35: independent objects may be used from several threads at once.
//
// Built with ThreadSanitizer.  A case prepares a handful of jobs, each of
// which creates its own streams over its own data and condenses all that they
// deliver.  One child process runs them one after the other, another one runs
// them at the same time; every child is fresh, so whatever the library sets
// up at first use is set up there.
#include "jobs.h"
#include <atomic>
#include <errno.h>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace Strigi;
using namespace pbt;

extern "C" const char* __tsan_default_options() {
    return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:die_after_fork=0:symbolize=1";
}
// the dynamic loader and iconv synchronise in ways that are not seen
extern "C" const char* __tsan_default_suppressions() {
    return "called_from_lib:ld-linux-x86-64.so\nrace:ld-linux-x86-64.so\n";
}

namespace {
struct Result {
    std::vector<Bytes> out;
    std::string complaint;
    int status = 0;
};
// runs the jobs in a fresh process: one after the other, or at the same time
Result runJobs(const std::vector<Job>& jobs, bool together) {
    int fds[2], err[2];
    REQUIRE(pipe(fds) == 0 && pipe(err) == 0, "harness: no pipe");
    pid_t pid = fork();
    REQUIRE(pid >= 0, "harness: cannot fork");
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGALRM, SIG_DFL);
        alarm(20);
        close(fds[0]);
        close(err[0]);
        dup2(err[1], 2);
        std::vector<Bytes> out(jobs.size());
        auto work = [&](size_t i) {
            try { out[i] = jobs[i].run(); } catch (std::exception& e) { out[i] = std::string("exception: ") + e.what(); }
        };
        if (together) {
            std::atomic<int> ready(0);
            std::vector<std::thread> threads;
            for (size_t i = 0; i < jobs.size(); i++)
                threads.emplace_back([&, i] {
                    ready++;
                    while (ready < (int)jobs.size()) {}
                    work(i);
                });
            for (auto& t : threads) t.join();
        } else for (size_t i = 0; i < jobs.size(); i++) work(i);
        for (auto& o : out) {
            uint64_t n = o.size();
            Bytes b((const char*)&n, sizeof n);
            b += o;
            for (size_t k = 0; k < b.size();) {
                ssize_t w = write(fds[1], b.data() + k, b.size() - k);
                if (w <= 0) _exit(67);
                k += w;
            }
        }
        _exit(0);
    }
    close(fds[1]);
    close(err[1]);
    Bytes data;
    Result r;
    struct pollfd p[2] = { { fds[0], POLLIN, 0 }, { err[0], POLLIN, 0 } };
    for (int open = 2; open;) {
        if (poll(p, 2, -1) < 0) { if (errno == EINTR) continue; break; }
        for (int i = 0; i < 2; i++) if (p[i].fd >= 0 && p[i].revents) {
            char buf[65536];
            ssize_t n = read(p[i].fd, buf, sizeof buf);
            if (n > 0) (i ? r.complaint : data).append(buf, n);
            else if (n == 0 || errno != EINTR) { p[i].fd = -1; open--; }
        }
    }
    close(fds[0]);
    close(err[0]);
    while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) {}
    for (size_t at = 0; at + 8 <= data.size();) {
        uint64_t n;
        memcpy(&n, data.data() + at, 8);
        r.out.push_back(data.substr(at + 8, n));
        at += 8 + n;
    }
    return r;
}
void finished(const Result& r, size_t jobs, const char* how) {
    if (r.complaint.find("ThreadSanitizer: data race") != Bytes::npos)
        fail("used from several threads at once, independent objects race: %s", r.complaint.substr(r.complaint.find("WARNING"), 1500).c_str());
    REQUIRE(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "run %s, the jobs %s %d: %s", how, WIFSIGNALED(r.status) ? "died of signal" : "ended with exit code",
        WIFSIGNALED(r.status) ? WTERMSIG(r.status) : WEXITSTATUS(r.status), r.complaint.substr(0, 1500).c_str());
    REQUIRE(r.out.size() == jobs, "harness: %zu results of %zu jobs", r.out.size(), jobs);
}
void c35(Choices& c) {
    std::vector<std::shared_ptr<JobFile> > files;
    std::vector<Job> jobs;
    int different = 1 + (int)c.draw(3), threads = 2 + (int)c.draw(3);
    for (int i = 0; i < different; i++) {
        jobs.push_back(genJob(c, files));
        c.note("job %d: %s", i, jobs.back().desc.c_str());
    }
    // the same work is done by several threads as well: their objects are still their own
    while ((int)jobs.size() < threads) jobs.push_back(jobs[c.draw(different)]);
    Result one = runJobs(jobs, false);
    finished(one, jobs.size(), "one after the other");
    for (int round = 0; round < (confirming ? 20 : 1); round++) {
        Result all = runJobs(jobs, true);
        finished(all, jobs.size(), "at the same time");
        for (size_t i = 0; i < jobs.size(); i++)
            if (one.out[i] != all.out[i])
                fail("%s: at the same time as the others it results in %s, on its own in %s", jobs[i].desc.c_str(), show(all.out[i], 300).c_str(), show(one.out[i], 300).c_str());
    }
    for (auto& j : jobs) c.label(j.desc);
    c.evaluations = jobs.size();
    c.nontrivial();
}
Register r35({ "C35", c35,
    "2 to 4 jobs (decoding, archives of all kinds, nested archives, the archive reader, character sets, files, compression, searching, events; intact and damaged) are run in a fresh "
    "process one after the other and in another one by as many threads at the same time; ThreadSanitizer watches and the results must be the same. Non-trivial: all jobs were completed both ways",
    1200, 40000, 0, 120, 0 });
}
