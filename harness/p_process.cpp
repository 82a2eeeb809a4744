// C30: process streams against what the command's script must write.
#include "common.h"
#include <strigi/processinputstream.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <ctime>

using namespace Strigi;
using pbt::fail;
using pbt::show;

namespace {
std::set<int> openFds() {
    std::set<int> r;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return r;
    int own = dirfd(d);
    while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.' && atoi(e->d_name) != own) r.insert(atoi(e->d_name));
    closedir(d);
    return r;
}
// a process that must not be affected
struct Bystander {
    pid_t pid;
    Bystander() {
        pid = fork();
        if (pid == 0) {
            for (;;) pause();
        }
    }
    bool alive() const {
        int status;
        return pid > 0 && waitpid(pid, &status, WNOHANG) == 0;
    }
    ~Bystander() {
        if (pid > 0) {
            kill(pid, SIGKILL);
            int status;
            while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        }
    }
};
struct Run {
    std::vector<std::string> args;
    Bytes input, output;
    std::unique_ptr<Source> src;
    std::unique_ptr<ProcessInputStream> s;
    bool mustFail = false, mayFail = false, stubborn = false, earlyExit = false;
    int64_t pos = 0;
    std::string desc;
};
int64_t genAmount(Choices& c) {
    // around and beyond what a pipe holds
    static const std::vector<int64_t> near = { 0, 1, 4096, 65535, 65536, 65537, 131072, 200000, 262144 };
    switch (c.weighted({ 6, 3, 1 })) {
    case 0: return c.size(3000);
    case 1: return std::max<int64_t>(0, c.pick(near) + c.range(-2, 2));
    default: return c.size(700000);
    }
}
void script(Choices& c, Run& r) {
    const char* helper = getenv("VERIF_HELPER_child");
    REQUIRE(helper, "harness: no helper");
    bool hasInput = !c.chance(1, 6);
    if (hasInput) {
        int64_t n = genAmount(c);
        if (n > 100000 && c.flip()) {
            r.input.resize((size_t)n);
            for (int64_t i = 0; i < n; i++) r.input[(size_t)i] = (char)(i * 31 + i / 253);
        } else {
            r.input = genBytesOfSize(c, n);
        }
    }
    int kind = c.weighted({ 12, 1, 1, 1, 1 });
    if (kind == 1) { r.args = { "/bin/cat" }; r.output = r.input; r.desc = "cat"; if (!hasInput) r.output.clear(); }
    else if (kind == 2) {
        int64_t n = c.size(5000);
        r.args = { "/bin/sh", "-c", "head -c " + std::to_string(n) };
        r.output = r.input.substr(0, (size_t)n);
        r.earlyExit = n < (int64_t)r.input.size();
        r.desc = "head";
    } else if (kind == 3) {
        r.args = { "/bin/sh", "-c", "printf '%s|' \"$@\"", "sh", "a b", "", "*", "'\"\\" };
        r.output = "a b||*|'\"\\|";
        r.earlyExit = true;
        r.desc = "arguments";
        if (c.flip()) {
            // and the environment of its parent
            static unsigned told = 0; // each command of a case has its own
            std::string v = genName(c, 30), name = "VERIF_SAID" + std::to_string(told++ % 8);
            setenv(name.c_str(), v.c_str(), 1);
            r.args = { "/bin/sh", "-c", "printf '%s|' \"$" + name + "\"" };
            r.output = v + "|";
            r.desc = "environment";
            c.label("environment");
        }
    } else if (kind == 4) {
        r.args = { pbt::scratchDir() + "/no-such-command" };
        r.earlyExit = true;
        r.desc = "no such command";
    } else {
        r.args.push_back(helper);
        int n = 1 + (int)c.size(7);
        bool in = hasInput, out = true;
        uint64_t written = 0;
        size_t at = 0;
        int slept = 0;
        bool sawEnd = false;
        for (int i = 0; i < n; i++) {
            int op = c.weighted({ 6, 3, 5, 2, 2, 1, 1, 1, 1 });
            switch (op) {
            case 0: case 1: {
                int64_t k = c.chance(2, 3) ? -1 : genAmount(c);
                r.args.push_back((op == 0 ? "e" : "d") + std::to_string(k));
                if (!in) break;
                size_t m = k < 0 ? r.input.size() - at : std::min<size_t>((size_t)k, r.input.size() - at);
                if (k < 0 || (int64_t)m < k) sawEnd = true;
                Bytes got = r.input.substr(at, m);
                at += m;
                if (op == 0 && !got.empty()) {
                    if (!out) { n = 0; break; } // its write fails: it ends
                    for (char& ch : got) ch = (char)(ch ^ 0x55);
                    r.output += got;
                }
                break;
            }
            case 2: {
                int64_t k = genAmount(c);
                r.args.push_back("w" + std::to_string(k));
                if (k > 0 && !out) { n = 0; break; }
                for (int64_t j = 0; j < k; j++, written++) r.output += (char)(written * 7 + written / 251);
                break;
            }
            case 3: if (slept < 4) { slept++; r.args.push_back("s" + std::to_string(c.size(3000))); } break;
            case 4: r.args.push_back("b" + std::to_string(c.flip() ? 512 + c.draw(65024) : 1 + c.draw(9000))); break;
            case 5: r.args.push_back("i"); in = false; break;
            case 6: if (c.chance(1, 3)) { r.args.push_back("o"); out = false; } break;
            case 7: if (c.chance(1, 12)) { r.args.push_back("T"); r.stubborn = true; } break;
            default: if (c.flip()) { r.args.push_back(c.flip() ? "k" : "x" + std::to_string(c.draw(256))); n = 0; } break;
            }
        }
        r.earlyExit = hasInput && !sawEnd;
        for (size_t i = 1; i < r.args.size(); i++) r.desc += r.args[i] + " ";
        // an input that fails
        if (hasInput && c.chance(1, 8)) {
            Delivery d = genDelivery(c);
            d.failAt = c.size((int64_t)r.input.size());
            if (d.failAt < (int64_t)r.input.size()) {
                r.mayFail = true;
                // does the command wait for what never comes?
                r.mustFail = out && (sawEnd || (int64_t)at > d.failAt);
                r.src.reset(new Source);
                r.src->chunk = new ChunkStream(r.input, d);
                r.src->owned.emplace_back(r.src->chunk);
                r.src->desc = "fails at " + std::to_string(d.failAt);
                c.label("input fails");
            }
        }
    }
    if (hasInput && !r.src) {
        r.src = genAnySource(c, r.input);
        // the input may have been used before
        if (kind == 0 && c.chance(1, 8) && !r.input.empty()) c.label("input");
    }
    c.note("command: %s; input %s, output %zu bytes%s", r.desc.c_str(), hasInput ? (std::to_string(r.input.size()) + " bytes from " + r.src->desc).c_str() : "none", r.output.size(),
        r.mustFail ? " (its input fails)" : "");
    if (r.output.size() > 65536) c.label("output beyond a pipe's capacity");
    if (r.input.size() > 65536) c.label("input beyond a pipe's capacity");
    if (r.earlyExit && !r.input.empty()) c.label("does not read all of its input");
    if (!hasInput) c.label("no input");
}
void start(Run& r) { r.s.reset(new ProcessInputStream(r.args, r.src ? r.src->top() : nullptr)); }
// one read; false at the end
bool step(Choices& c, Run& r) {
    int64_t left = (int64_t)r.output.size() - r.pos;
    const char* d = nullptr;
    int32_t min = c.flip() ? 1 : 1 + (int32_t)c.size(100000), max = c.chance(2, 3) ? 0 : min + (int32_t)c.size(3000);
    int32_t n = r.s->read(d, min, max);
    if (r.mayFail && r.s->status() == Error) return false;
    REQUIRE(r.s->position() == r.pos + std::max(n, 0), "position %lld after %d bytes at %lld", (long long)r.s->position(), n, (long long)r.pos);
    if (left == 0) {
        REQUIRE(n < 1, "read gave %d bytes behind the %zu of the output", n, r.output.size());
        REQUIRE(r.s->status() == Eof, "status %s behind the end of the output: %s", statusName(r.s->status()), r.s->error() ? r.s->error() : "");
        REQUIRE(r.s->size() == (int64_t)r.output.size(), "size %lld at the end of %zu bytes", (long long)r.s->size(), r.output.size());
        return false;
    }
    REQUIRE(n >= std::min<int64_t>(min, left), "read(%d, %d) at %lld of %zu gave %d, status %s: %s", min, max, (long long)r.pos, r.output.size(), n,
        statusName(r.s->status()), r.s->error() ? r.s->error() : "");
    REQUIRE(n <= left, "%d bytes where %lld are left", n, (long long)left);
    REQUIRE(max < min || n <= max, "read(%d, %d) gave %d", min, max, n);
    REQUIRE(memcmp(d, r.output.data() + r.pos, (size_t)n) == 0, "wrong bytes at %lld", (long long)r.pos);
    r.pos += n;
    REQUIRE(r.s->size() == -1 || r.s->size() == (int64_t)r.output.size(), "size %lld of %zu bytes", (long long)r.s->size(), r.output.size());
    if (c.chance(1, 4)) {
        int64_t back = c.size(n);
        REQUIRE(r.s->reset(r.pos - back) == r.pos - back, "reset by %lld into the last read failed", (long long)back);
        r.pos -= back;
    }
    return true;
}
void sameSignals(const sigset_t& before) {
    sigset_t now;
    sigprocmask(SIG_SETMASK, nullptr, &now);
    for (int s = 1; s < 32; s++) REQUIRE(sigismember(&now, s) == sigismember(&before, s), "the mask of signal %d was changed", s);
    sigset_t pending;
    sigpending(&pending);
    REQUIRE(!sigismember(&pending, SIGPIPE), "SIGPIPE is pending");
}
// what the commands would read if they were given the standard input of this process
void ownInput() {
    std::string f = pbt::scratchDir() + "/stdin" + std::to_string(getpid());
    int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    REQUIRE(fd >= 0 && write(fd, "not for the command", 19) == 19, "harness: no file");
    lseek(fd, 0, SEEK_SET);
    unlink(f.c_str());
    if (fd != 0) { dup2(fd, 0); close(fd); }
}
void c30(Choices& c) {
    ownInput();
    bool bystander = c.chance(1, 3);
    std::set<int> fds = openFds();
    std::unique_ptr<Bystander> by;
    if (bystander) by.reset(new Bystander);
    sigset_t before;
    sigprocmask(SIG_SETMASK, nullptr, &before);
    {
        std::vector<std::unique_ptr<Run> > runs;
        int n = c.chance(1, 4) ? 2 : 1;
        for (int i = 0; i < n; i++) {
            runs.emplace_back(new Run);
            script(c, *runs.back());
        }
        std::set<int> had = openFds();
        for (auto& r : runs) start(*r);
        if (n > 1) c.label("two at a time");
        while (!runs.empty()) {
            size_t k = c.draw(runs.size());
            Run& r = *runs[k];
            int what = c.weighted({ 8, 2, 1 });
            bool gone = false;
            if (what == 0) {
                // read to the end
                if (c.chance(1, 3) && r.pos == 0 && !r.mayFail) {
                    ContractOptions o;
                    o.full = false;
                    o.maxOps = 20;
                    exercise(c, *r.s, r.output, o, "process");
                    r.pos = (int64_t)r.output.size();
                } else {
                    while (step(c, r)) {}
                }
                if (r.s->status() == Error) {
                    REQUIRE(r.mayFail, "error: %s", r.s->error());
                    const char* d;
                    REQUIRE(r.s->read(d, 1, 0) < 0 && r.s->status() == Error, "the error did not last");
                } else {
                    REQUIRE(!r.mustFail, "the input failed, but the output ended cleanly after %lld bytes", (long long)r.pos);
                    if (r.input.size() > 60000 || r.output.size() > 60000 || (r.earlyExit && !r.input.empty())) c.nontrivial();
                }
                gone = true;
            } else if (what == 1) {
                for (int i = 1 + (int)c.size(3); i > 0; i--) if (!step(c, r)) break;
            } else {
                gone = true;
                c.label(r.pos ? "destroyed in the middle" : "destroyed before it was read");
                if (r.pos < (int64_t)r.output.size()) c.nontrivial();
            }
            if (!gone) continue;
            // the end of a stream ends its process, and no other
            r.s.reset();
            runs.erase(runs.begin() + (long)k);
            if (by) REQUIRE(by->alive(), "another process was affected");
            if (runs.empty()) {
                std::set<int> now = openFds();
                for (int f : now) REQUIRE(had.count(f), "descriptor %d was left open", f);
                if (!by) {
                    int status;
                    pid_t p = waitpid(-1, &status, WNOHANG);
                    REQUIRE(p == -1 && errno == ECHILD, p == 0 ? "a command is still running" : "a command was not reaped (%d)", (int)p);
                }
            }
        }
        if (by) {
            // only the bystander is left
            REQUIRE(by->alive(), "another process was affected");
            by.reset();
            int status;
            pid_t p = waitpid(-1, &status, WNOHANG);
            REQUIRE(p == -1 && errno == ECHILD, p == 0 ? "a command is still running" : "a command was not reaped (%d)", (int)p);
        }
        sameSignals(before);
    }
    for (int f : fds) REQUIRE(openFds().count(f), "descriptor %d was closed", f);
}
}
static pbt::Register r30({ "C30", c30,
    "commands (a scripted helper that copies, swallows, writes, sleeps, closes its ends, exits early or ignores SIGTERM; cat, head, a shell, a command that does not exist) over "
    "random input from any kind of stream, failing ones included; one or two at a time, next to a process that must not be affected; read in random pieces and rewound, and destroyed "
    "at any moment. Non-trivial: input or output near or beyond a pipe's capacity, input left unread, or destroyed before the end", 3000, 200000, 25, 20, 20 });
