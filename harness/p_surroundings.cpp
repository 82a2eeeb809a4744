// C38: results depend on nothing but the input.
//
// The same work is done twice in one process: as it is, and with everything
// around it changed that must not matter - the contents of fresh memory and of
// the stack, locales, the time zone, the directory, the environment, errno,
// descriptors that are taken or free, signals, and other work done before.
#include "jobs.h"
#include <alloca.h>
#include <errno.h>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <locale.h>
#include <sanitizer/allocator_interface.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
using namespace Strigi;
using namespace pbt;

namespace {
int fillByte = -1; // what fresh memory contains
__attribute__((no_sanitize("address"))) void onMalloc(const volatile void* p, size_t n) {
    if (fillByte >= 0 && p && n <= 65536) memset((void*)p, fillByte, n);
}
void onFree(const volatile void*) {}
struct Hooks { Hooks() { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); } } hooks;

__attribute__((noinline, no_sanitize("address"))) void fillStack(int byte) {
    volatile char b[100000];
    for (size_t i = 0; i < sizeof b; i += 1) b[i] = (char)byte;
}

struct Grouping : std::numpunct<char> {
    std::string g;
    explicit Grouping(const std::string& g_) : g(g_) {}
    char do_thousands_sep() const { return '.'; }
    char do_decimal_point() const { return ','; }
    std::string do_grouping() const { return g; }
    std::string do_truename() const { return "wahr"; }
    std::string do_falsename() const { return "falsch"; }
};

// changes made to the process, undone in reverse order
struct Changes {
    std::vector<std::function<void()> > undo;
    ~Changes() { for (size_t i = undo.size(); i--;) undo[i](); }
};
void setVariable(Changes& ch, const std::string& name, const char* value) {
    const char* old = getenv(name.c_str());
    std::string was = old ? old : "";
    bool had = old != nullptr;
    if (value) setenv(name.c_str(), value, 1);
    else unsetenv(name.c_str());
    ch.undo.push_back([=] { if (had) setenv(name.c_str(), was.c_str(), 1); else unsetenv(name.c_str()); });
}
void c38(Choices& c) {
    std::vector<std::shared_ptr<JobFile> > files;
    std::cerr.rdbuf(nullptr);
    Job job = genJob(c, files, c.chance(1, 6) ? 14 : 4);
    c.note("%s", job.desc.c_str());
    c.label(job.desc);
    fillByte = 0;
    fillStack(0);
    const Bytes first = job.run();
    fillByte = -1;
    std::vector<Job> before;
    for (int i = (int)c.draw(3); i > 0; i--) {
        before.push_back(genJob(c, files));
        c.note("after %s", before.back().desc.c_str());
    }
    Bytes second;
    {
        Changes ch;
        for (int i = 1 + (int)c.draw(4); i > 0; i--) {
            switch (c.draw(9)) {
            case 0: {
                static const std::vector<std::string> groups = { "\1", "\2", "\3", "\1\2" };
                std::locale old = std::locale::global(std::locale(std::locale::classic(), new Grouping(c.pick(groups))));
                ch.undo.push_back([old] { std::locale::global(old); });
                c.note("in a C++ locale that groups digits");
                c.label("locale");
                break; }
            case 1: {
                std::string old = setlocale(LC_ALL, nullptr);
                setlocale(LC_ALL, c.flip() ? "C.UTF-8" : "POSIX");
                ch.undo.push_back([old] { setlocale(LC_ALL, old.c_str()); });
                c.note("in the locale %s", setlocale(LC_ALL, nullptr));
                break; }
            case 2: {
                if (job.localTime) break;
                static const std::vector<const char*> zones = { "XYZ-11:45", "ABC12", "CET-1CEST,M3.5.0,M10.5.0/3", ":/nonexistent" };
                const char* z = c.pick(zones);
                setVariable(ch, "TZ", z);
                tzset();
                ch.undo.push_back([] {});
                c.note("in the time zone %s", z);
                c.label("time zone");
                break; }
            case 3: {
                int old = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
                if (old < 0) break;
                if (chdir(c.flip() ? "/" : scratchDir().c_str()) != 0) { close(old); break; }
                ch.undo.push_back([old] { if (fchdir(old) != 0) abort(); close(old); });
                c.note("in another directory");
                break; }
            case 4: {
                static const std::vector<const char*> names = { "LANG", "LC_ALL", "POSIXLY_CORRECT", "PATH", "HOME", "TMPDIR", "CHARSET", "LANGUAGE", "USER", "OUTPUT_CHARSET", "LOCPATH", "GCONV_PATH" };
                const char* n = c.pick(names);
                static const std::vector<const char*> values = { "", "1", "de_DE.UTF-8", "/nonexistent", "ISO-8859-1" };
                const char* v = c.chance(1, 4) ? nullptr : c.pick(values);
                setVariable(ch, n, v);
                c.note("with %s %s", n, v ? v : "not set");
                break; }
            case 5: { // descriptors below are taken
                struct rlimit l;
                int want = c.chance(1, 3) ? 1030 : 1 + (int)c.size(60);
                if (getrlimit(RLIMIT_NOFILE, &l) != 0 || l.rlim_cur < 1200) want = std::min(want, 60);
                std::vector<int> fds;
                for (int k = 0; k < want; k++) {
                    int fd = fcntl(1, F_DUPFD_CLOEXEC, 0);
                    if (fd < 0) break;
                    fds.push_back(fd);
                }
                ch.undo.push_back([fds] { for (int fd : fds) close(fd); });
                c.note("with %zu more descriptors in use", fds.size());
                c.label(want > 1000 ? "more than 1024 descriptors" : "more descriptors");
                break; }
            case 6: { // descriptors 0 and 1 are free
                int in = c.flip() ? fcntl(0, F_DUPFD_CLOEXEC, 100) : -1, out = c.flip() ? fcntl(1, F_DUPFD_CLOEXEC, 100) : -1;
                if (in >= 0) close(0);
                if (out >= 0) close(1);
                ch.undo.push_back([in, out] {
                    if (in >= 0) { dup2(in, 0); close(in); }
                    if (out >= 0) { dup2(out, 1); close(out); }
                });
                c.note("with descriptors closed:%s%s", in >= 0 ? " 0" : "", out >= 0 ? " 1" : "");
                c.label("standard descriptors closed");
                break; }
            case 7: { // signals
                static const std::vector<int> sigs = { SIGPIPE, SIGCHLD, SIGUSR1, SIGHUP };
                int sig = c.pick(sigs);
                if (c.flip()) {
                    auto old = signal(sig, c.flip() ? SIG_IGN : SIG_DFL);
                    ch.undo.push_back([sig, old] { signal(sig, old); });
                    c.note("with the action of signal %d set", sig);
                } else {
                    sigset_t s, old;
                    sigemptyset(&s);
                    sigaddset(&s, sig);
                    sigprocmask(SIG_BLOCK, &s, &old);
                    ch.undo.push_back([old] { sigprocmask(SIG_SETMASK, &old, nullptr); });
                    c.note("with signal %d blocked", sig);
                }
                break; }
            default: {
                mode_t old = umask((mode_t)c.draw(01000));
                ch.undo.push_back([old] { umask(old); });
                c.note("with another umask");
            }
            }
        }
        for (Job& b : before) b.run();
        int fill = c.flip() ? 0xff : 1 + (int)c.draw(255);
        c.note("with fresh memory full of %02x", fill);
        fillByte = fill;
        fillStack(fill);
        static const std::vector<int> errors = { EILSEQ, E2BIG, EINTR, ERANGE, EAGAIN, EINVAL, ENOENT, EPIPE, EOVERFLOW };
        errno = c.pick(errors);
        second = job.run();
        fillByte = -1;
    }
    tzset();
    if (first != second) {
        size_t i = 0;
        while (i < first.size() && i < second.size() && first[i] == second[i]) i++;
        size_t from = i > 40 ? i - 40 : 0;
        fail("%s: with other surroundings the result is different from byte %zu of %zu on: ...%s instead of ...%s", job.desc.c_str(), i, first.size(),
            show(second.substr(std::min(from, second.size()), 100)).c_str(), show(first.substr(std::min(from, first.size()), 100)).c_str());
    }
    if (first.size() > 30) c.nontrivial();
}
Register r38({ "C38", c38,
    "a piece of work (decoding, archives of all formats, nested archives, the archive reader, character sets, files, compression, searching, commands, events; intact and damaged data) is done "
    "as it is and again with fresh memory and the stack filled otherwise and up to four of: a C++ locale that groups digits, another C locale, time zone (not for zip), directory, environment variable, "
    "descriptors taken or free, signals ignored or blocked, umask; and after up to two other pieces of work. The condensed results must be the same. Non-trivial: the result has more than 30 bytes",
    15000, 600000, 25, 20, 0 });
}
