// C41: reading leaves everything else as it was.
//
// A piece of work is done; the process around it (signals, directory, mask of
// permissions, locales, environment, rounding, timers, standard descriptors,
// children, threads), what it wrote, the files it read and the memory it was
// given are compared before and after.
#include "jobs.h"
#include "../lib/base64inputstream.h"
#include "../lib/mmapfileinputstream.h"
#include <strigi/archivereader.h>
#include <strigi/bz2inputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/inputstreamreader.h>
#include <strigi/kmpsearcher.h>
#include <strigi/processinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/subinputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/textutils.h>
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <iostream>
#include <locale>
#include <locale.h>
#include <map>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace Strigi;
using namespace pbt;
extern char** environ;

namespace {
typedef std::map<std::string, std::string> World;
std::string num(int64_t n) { return std::to_string(n); }
std::string namesIn(const std::string& dir) {
    std::vector<std::string> names;
    DIR* d = opendir(dir.c_str());
    if (!d) return "cannot be read";
    while (struct dirent* e = readdir(d)) names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    std::string out;
    for (auto& n : names) if (n[0] != '.' || n.size() > 2) out += n + " ";
    return out;
}
std::string slurp(const std::string& path) {
    std::string out;
    int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
    char b[8192];
    for (ssize_t n; fd >= 0 && (n = read(fd, b, sizeof b)) > 0;) out.append(b, n);
    if (fd >= 0) close(fd);
    return out;
}
void onSignal(int) {}
World lookAround(const std::string& dir, const std::vector<std::string>& files) {
    World w;
    for (int s = 1; s < NSIG; s++) {
        struct sigaction a;
        if (sigaction(s, nullptr, &a) == 0) w["the action of signal " + num(s)] = num((int64_t)(intptr_t)a.sa_handler) + " " + num(a.sa_flags);
    }
    sigset_t mask, pending;
    sigprocmask(SIG_BLOCK, nullptr, &mask);
    sigpending(&pending);
    std::string m, p;
    for (int s = 1; s < NSIG; s++) {
        if (sigismember(&mask, s) == 1) m += num(s) + " ";
        if (sigismember(&pending, s) == 1 && s != SIGCHLD) p += num(s) + " ";
    }
    w["the blocked signals"] = m;
    w["the pending signals"] = p;
    char cwd[4096];
    w["the directory"] = getcwd(cwd, sizeof cwd) ? cwd : "none";
    mode_t u = umask(0);
    umask(u);
    w["the umask"] = num(u);
    w["the C locale"] = setlocale(LC_ALL, nullptr);
    w["the C++ locale"] = std::locale().name();
    std::string env;
    for (char** e = environ; e && *e; e++) env += *e + std::string("\n");
    w["the environment"] = env;
    w["the rounding mode"] = num(fegetround());
    for (int r = 0; r < (int)RLIM_NLIMITS; r++) {
        struct rlimit l;
        if (getrlimit((__rlimit_resource)r, &l) == 0) w["limit " + num(r)] = num((int64_t)l.rlim_cur) + " " + num((int64_t)l.rlim_max);
    }
    struct itimerval t;
    if (getitimer(ITIMER_REAL, &t) == 0) w["the alarm"] = t.it_value.tv_sec || t.it_value.tv_usec ? "set" : "none";
    w["the interval of the alarm"] = num(t.it_interval.tv_sec * 1000000 + t.it_interval.tv_usec);
    for (int fd = 0; fd < 3; fd++) {
        struct stat s;
        w["descriptor " + num(fd)] = fstat(fd, &s) ? "closed" : num((int64_t)s.st_dev) + " " + num((int64_t)s.st_ino) + " " + num(fcntl(fd, F_GETFL)) + " " + num(fcntl(fd, F_GETFD));
    }
    errno = 0;
    w["a child"] = waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD ? "none" : "one is left";
    w["the threads"] = namesIn("/proc/self/task");
    w["the format of cerr"] = num((int64_t)std::cerr.flags()) + " " + num(std::cerr.precision()) + " " + num(std::cerr.width()) + " " + num(std::cerr.fill());
    w["the format of cout"] = num((int64_t)std::cout.flags()) + " " + num(std::cout.precision()) + " " + num(std::cout.width()) + " " + num(std::cout.fill()) + " " + num(std::cout.rdstate());
    w["the files in the directory"] = namesIn(dir);
    w["the files in the directory for temporary files"] = namesIn(dir + "/tmp");
    for (auto& f : files) {
        struct stat s;
        std::string name = "the file " + f.substr(f.rfind('/') + 1);
        if (lstat(f.c_str(), &s)) w[name] = "missing";
        else w[name] = num(s.st_mode) + " " + num(s.st_size) + " " + num(s.st_mtim.tv_sec) + "." + num(s.st_mtim.tv_nsec) + " " + num(s.st_ctim.tv_sec) + "." + num(s.st_ctim.tv_nsec) + " "
            + num((int64_t)s.st_nlink) + " " + num((int64_t)s.st_ino) + " " + num(crc32Of(slurp(f)));
    }
    return w;
}

// memory that can only be read
struct ReadOnly {
    char* p;
    size_t n, mapped;
    explicit ReadOnly(const Bytes& b) : n(b.size()), mapped(b.size() / 4096 * 4096 + 8192) {
        p = (char*)mmap(nullptr, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) discard();
        memcpy(p, b.data(), n);
        mprotect(p, mapped, PROT_READ);
    }
    ReadOnly(const ReadOnly&) = delete;
    ~ReadOnly() { munmap(p, mapped); }
};
struct Sink : DataEventHandler {
    int64_t n = 0;
    bool handleData(const char*, uint32_t k) { n += k; return n < 3000; }
    void handleEnd() {}
};
void damage(Choices& c, Bytes& b) {
    if (b.empty() || !c.chance(1, 3)) return;
    if (c.chance(1, 3)) b.resize(c.draw(b.size()));
    else for (int i = 1 + (int)c.draw(3); i; i--) b[c.draw(b.size())] = (char)c.draw(256);
}
// reads a part or all
void use(InputStream& s, const ReadPlan& plan, int limit) {
    for (int i = 0; i < limit && s.status() == Ok; i++) {
        auto q = plan.reqs[i % plan.reqs.size()];
        const char* d;
        int64_t was = s.position();
        int32_t n = s.read(d, q.first, q.second);
        if (n > 1 && i % 3 == 0) s.reset(was + n / 2);
        else if (i % 7 == 6) s.skip(q.first);
    }
}
void iterate(SubStreamProvider& p, const ReadPlan& plan, int limit) {
    for (int i = 0; i < limit; i++) {
        InputStream* s = p.nextEntry();
        if (!s) break;
        use(*s, plan, i % 3 == 1 ? 1 : 1000);
    }
}
struct Work {
    std::string desc;
    std::function<void()> run;
};
// work on memory that must not be written to
Work onMemory(Choices& c) {
    Work w;
    ReadPlan plan = genPlan(c);
    const int limit = c.flip() ? 10000 : 1 + (int)c.size(20);
    GenOpts o;
    o.maxSize = 2000;
    Bytes b;
    int what = (int)c.draw(8), kind = 0;
    switch (what) {
    case 0: case 1: case 6:
        kind = (int)c.draw(KindCount);
        b = genArchive(c, kind, o).bytes;
        break;
    case 2:
        kind = (int)c.draw(CodecCount);
        b = genEncoded(c, kind, 2000).bytes;
        break;
    case 3: b = base64Of(genBytes(c, 300)); break;
    default: b = genBytes(c, c.chance(1, 4) ? 20000 : 2000);
    }
    damage(c, b);
    auto mem = std::make_shared<ReadOnly>(b);
    static const std::vector<const char*> descs = { "iterating an archive", "choosing a provider", "decoding", "decoding base64", "searching", "converting", "checking headers", "windows and events" };
    w.desc = std::string(descs[what]) + " in memory";
    Bytes query = what == 4 ? (b.size() && c.flip() ? b.substr(c.draw(b.size()), 1 + c.draw(5)) : genBytes(c, 6) + "x") : Bytes();
    static const std::vector<const char*> sets = { "UTF-16", "SHIFT_JIS", "UTF-7", "", "no-such-set", nullptr };
    const char* set = c.pick(sets);
    int64_t at = (int64_t)c.draw(b.size() + 1);
    w.run = [=] {
        StringInputStream in(mem->p, (int32_t)mem->n, false);
        switch (what) {
        case 0: {
            std::unique_ptr<SubStreamProvider> p(makeProvider(kind, &in));
            iterate(*p, plan, limit);
            break; }
        case 1: {
            SubStreamProviderProvider spp;
            std::unique_ptr<SubStreamProvider> p(spp.subStreamProvider(&in));
            if (p) iterate(*p, plan, limit);
            break; }
        case 2: {
            std::unique_ptr<InputStream> d(makeDecoder(kind, &in));
            use(*d, plan, limit);
            break; }
        case 3: Base64InputStream::decode(mem->p, mem->n); break;
        case 4: {
            KmpSearcher s(query);
            s.search(mem->p, (int32_t)mem->n);
            StringTerminatedSubStream t(&in, query);
            use(t, plan, limit);
            break; }
        case 5: {
            if (limit % 2) {
                EncodingInputStream e(&in, set);
                use(e, plan, limit);
            } else {
                InputStreamReader r(&in, set);
                const wchar_t* d;
                for (int i = 0; i < limit && r.read(d, 1, 0) > 0; i++) {}
            }
            char need = 0;
            checkUtf8(mem->p, (int32_t)mem->n, need);
            break; }
        case 6:
            for (int f = 0; f < KindCount; f++) headerAccepts(f, mem->p, (int32_t)mem->n);
            GZipInputStream::checkHeader(mem->p, (int32_t)mem->n);
            BZ2InputStream::checkHeader(mem->p, (int32_t)mem->n);
            LZMAInputStream::checkHeader(mem->p, (int32_t)mem->n);
            break;
        default: {
            Sink sink;
            in.skip(at);
            SubInputStream sub(&in, (int64_t)mem->n - at);
            DataEventInputStream ev(&sub, sink);
            use(ev, plan, limit); }
        }
    };
    return w;
}
// commands that do not do what is expected of them
Work command(Choices& c) {
    static const std::vector<std::vector<std::string> > cmds = { { "/bin/cat" }, { "/bin/true" }, { "/usr/bin/head", "-c", "10" }, { "/bin/sh", "-c", "exec <&-; echo x" }, { "/nonexistent" },
        { "/bin/sh", "-c", "kill -9 $$" }, { "/bin/sleep", "100" } };
    std::vector<std::string> cmd = c.pick(cmds);
    auto input = std::make_shared<Bytes>(genBytesOfSize(c, c.flip() ? c.size(300000) : c.size(3000)));
    int limit = cmd[0] == "/bin/sleep" ? 0 : c.flip() ? 10000 : (int)c.draw(4);
    bool with = c.draw(4) != 0;
    ReadPlan plan = genPlan(c);
    Work w;
    w.desc = "the command " + cmd[0].substr(cmd[0].rfind('/') + 1) + (with ? " with input" : "");
    // without input of its own it would have the input of this process
    if (!with && (cmd[0] == "/bin/cat" || cmd[0] == "/usr/bin/head")) cmd = std::vector<std::string>(1, "/bin/true");
    w.run = [=] {
        StringInputStream in(input->data(), (int32_t)input->size(), false);
        ProcessInputStream p(cmd, with ? &in : nullptr);
        use(p, plan, limit);
    };
    return w;
}

// files and directories that are not there
Work missing(Choices& c, const std::string& home) {
    static const std::vector<std::string> names = { "/none", "/none/none", "/tmp/none", "/tmp", "", "/tmp/", "/none.tar/none", "/\xe9" };
    std::string path = home + c.pick(names);
    if (c.chance(1, 4)) path = path.substr(home.size() ? home.size() + 1 <= path.size() ? home.size() + 1 : home.size() : 0); // in the present directory
    int how = (int)c.draw(5);
    ReadPlan plan = genPlan(c);
    Work w;
    w.desc = "what is not a file, way " + num(how);
    w.run = [=] {
        switch (how) {
        case 0: case 1: case 2: {
            std::unique_ptr<InputStream> s(how == 0 ? (InputStream*)new FileInputStream(path.c_str()) : how == 1 ? (InputStream*)new MMapFileInputStream(path.c_str()) : FileInputStream::open(path.c_str()));
            if (s) use(*s, plan, 10);
            break; }
        default: {
            ArchiveReader r;
            FileStreamOpener o;
            r.addStreamOpener(&o);
            EntryInfo e;
            if (how == 3) {
                r.stat(path, e);
                ArchiveReader::DirLister l = r.dirEntries(path);
                for (int i = 0; i < 10 && l.nextEntry(e); i++) {}
            } else {
                InputStream* s = r.openStream(path);
                if (s) {
                    use(*s, plan, 10);
                    r.closeStream(s);
                }
            } }
        }
    };
    return w;
}
// changes made to the process, undone in reverse order
struct Changes {
    std::vector<std::function<void()> > undo;
    ~Changes() { for (size_t i = undo.size(); i--;) undo[i](); }
};
void c41(Choices& c) {
    static const std::string home = [] {
        std::string d = scratchDir() + "/w" + num(getpid());
        mkdir(d.c_str(), 0700);
        mkdir((d + "/tmp").c_str(), 0700);
        return d;
    }();
    static const int cerrOff = (std::cerr.rdbuf(nullptr), 0);
    (void)cerrOff;
    std::vector<std::shared_ptr<JobFile> > jobFiles;
    std::vector<Work> works;
    for (int i = 1 + (int)c.draw(3); i > 0; i--) {
        Work w;
        switch (c.weighted({ 8, 8, 2, 1 })) {
        case 0: w = onMemory(c); break;
        case 1: {
            Job j = genJob(c, jobFiles);
            w.desc = j.desc;
            w.run = [j] { j.run(); };
            break; }
        case 2: w = command(c); break;
        default: w = missing(c, home);
        }
        c.note("%s", w.desc.c_str());
        c.label(w.desc);
        works.push_back(w);
    }
    std::vector<std::string> files;
    for (auto& f : jobFiles) {
        files.push_back(f->path);
        files.push_back(f->path + ".none"); // never there
    }
    World before, after;
    std::string printed;
    {
        Changes ch;
        // a directory of its own, and what is printed goes to a file in it
        int old = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
        if (old < 0 || chdir(home.c_str()) != 0) discard();
        ch.undo.push_back([old] { if (fchdir(old) != 0) abort(); close(old); });
        const char* tmp = getenv("TMPDIR");
        std::string wasTmp = tmp ? tmp : "";
        bool had = tmp != nullptr;
        setenv("TMPDIR", (home + "/tmp").c_str(), 1);
        ch.undo.push_back([=] { if (had) setenv("TMPDIR", wasTmp.c_str(), 1); else unsetenv("TMPDIR"); });
        for (int i = (int)c.draw(4); i > 0; i--) {
            switch (c.draw(8)) {
            case 0: {
                static const std::vector<int> sigs = { SIGPIPE, SIGCHLD, SIGUSR1, SIGTERM, SIGALRM, SIGHUP };
                int sig = c.pick(sigs), how = (int)c.draw(3);
                if (sig == SIGCHLD && how == 1) how = 2; // children would not have a status
                auto o = signal(sig, how == 0 ? SIG_DFL : how == 1 ? SIG_IGN : onSignal);
                ch.undo.push_back([sig, o] { signal(sig, o); });
                c.note("with signal %d %s", sig, how == 0 ? "as usual" : how == 1 ? "ignored" : "handled");
                break; }
            case 1: {
                static const std::vector<int> sigs = { SIGPIPE, SIGUSR1, SIGHUP };
                int sig = c.pick(sigs);
                sigset_t s, o;
                sigemptyset(&s);
                sigaddset(&s, sig);
                sigprocmask(SIG_BLOCK, &s, &o);
                bool pending = c.flip();
                if (pending) raise(sig);
                ch.undo.push_back([=] {
                    auto action = signal(sig, SIG_IGN); // what is pending is dropped
                    sigprocmask(SIG_SETMASK, &o, nullptr);
                    signal(sig, action);
                });
                c.note("with signal %d blocked%s", sig, pending ? " and pending" : "");
                c.label("blocked signals");
                break; }
            case 2: {
                mode_t o = umask((mode_t)c.draw(01000));
                ch.undo.push_back([o] { umask(o); });
                c.note("with another umask");
                break; }
            case 3: {
                std::string o = setlocale(LC_ALL, nullptr);
                setlocale(LC_ALL, "C.UTF-8");
                ch.undo.push_back([o] { setlocale(LC_ALL, o.c_str()); });
                c.note("in the locale C.UTF-8");
                break; }
            case 4: {
                static const std::vector<int> modes = { FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
                fesetround(c.pick(modes));
                ch.undo.push_back([] { fesetround(FE_TONEAREST); });
                c.note("with another rounding mode");
                break; }
            case 5: {
                struct rlimit l, less;
                if (getrlimit(RLIMIT_CORE, &l) != 0) break;
                less = l;
                less.rlim_cur = 0;
                setrlimit(RLIMIT_CORE, &less);
                ch.undo.push_back([l] { setrlimit(RLIMIT_CORE, &l); });
                break; }
            case 6:
                if (getenv("LC_ALL")) break;
                setenv("LC_ALL", "C.UTF-8", 1); // what the user has set, and the program has not asked for
                ch.undo.push_back([] { unsetenv("LC_ALL"); });
                c.note("with a locale in the environment");
                break;
            default:
                if (c.flip()) { // none
                    const char* z = getenv("TZ");
                    std::string wasZone = z ? z : "";
                    unsetenv("TZ");
                    tzset();
                    ch.undo.push_back([=] { if (wasZone.size()) setenv("TZ", wasZone.c_str(), 1); tzset(); });
                } else {
                    const char* z = getenv("TZ");
                    std::string wasZone = z ? z : "";
                    setenv("TZ", "XYZ-11:45", 1);
                    tzset();
                    ch.undo.push_back([=] { if (wasZone.size()) setenv("TZ", wasZone.c_str(), 1); else unsetenv("TZ"); tzset(); });
                }
                c.note("in another time zone");
            }
        }
        fflush(stdout);
        int out = open((home + "/out").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600), was = fcntl(1, F_DUPFD_CLOEXEC, 100);
        if (out < 0 || was < 0) discard();
        unlink((home + "/out").c_str());
        dup2(out, 1);
        ch.undo.push_back([=] { fflush(stdout); dup2(was, 1); close(was); close(out); });
        before = lookAround(home, files);
        for (auto& w : works) w.run();
        after = lookAround(home, files);
        fflush(stdout);
        std::cout.flush();
        printed.resize((size_t)lseek(out, 0, SEEK_END));
        if (pread(out, &printed[0], printed.size(), 0) < 0) discard();
    }
    for (auto& p : before) if (after[p.first] != p.second) fail("%s was %s and is %s afterwards", p.first.c_str(), show(p.second, 60).c_str(), show(after[p.first], 60).c_str());
    for (auto& p : after) if (!before.count(p.first)) fail("%s is new: %s", p.first.c_str(), show(p.second, 60).c_str());
    REQUIRE(printed.empty(), "something is written to the standard output: %s", show(printed, 60).c_str());
    c.nontrivial();
}
Register r41({ "C41", c41,
    "one to three pieces of work (those of C38; all parsers, decoders, converters, searches and header checks on memory that can only be read; commands that end early, do not read or are killed; files that are not there; "
    "whole or in part, intact or damaged data) are done in a process with random settings (actions of signals, signals blocked and pending, umask, locale, rounding, limits, time zone, environment) in an empty "
    "directory; the settings, standard descriptors, children, threads, the files that were read (content, times, mode), the directories and the standard output are compared before and after. "
    "Non-trivial: all", 14000, 500000, 25, 20, 0 });
}
