#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:"
           "allocator_may_return_null=0:max_allocation_size_mb=3072:"
           "max_malloc_fill_size=1048576:malloc_context_size=8:"
           "quarantine_size_mb=32:detect_stack_use_after_return=0:"
           "allow_user_segv_handler=0:symbolize=0:print_legend=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:symbolize=0"; }

// ---- coverage counters of the instrumented library ------------------------
namespace {
std::vector<std::pair<uint8_t*, uint8_t*> >& covRanges() {
    static std::vector<std::pair<uint8_t*, uint8_t*> > v;
    return v;
}
}
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* start, uint8_t* stop) {
    if (start == stop) return;
    for (auto& r : covRanges()) if (r.first == start) return;
    covRanges().push_back(std::make_pair(start, stop));
}

namespace pbt {

std::vector<Property>& properties() {
    static std::vector<Property> v;
    return v;
}

bool confirming = false;
static std::string g_scratch;
const std::string& scratchDir() { return g_scratch; }

uint64_t Choices::draw(uint64_t n) {
    uint32_t i = *m_count;
    if (i >= MaxChoices) throw Discard();
    uint64_t v;
    if (m_prefix && i < m_prefix->size()) v = (*m_prefix)[i];
    else v = m_zeroTail ? 0 : m_rng.next();
    if (n) v %= n;
    m_buf[i] = v;
    *m_count = i + 1;
    return v;
}
int64_t Choices::size(int64_t max) {
    if (max <= 0) return 0;
    int bits = 0;
    while ((1ll << bits) <= max && bits < 62) bits++;
    int b = (int)draw(bits + 1);
    if (b == 0) return 0;
    int64_t hi = std::min<int64_t>(max, (1ll << b) - 1);
    int64_t lo = 1ll << (b - 1);
    if (lo > hi) lo = hi;
    return range(lo, hi);
}
int Choices::weighted(const std::vector<int>& w) {
    int total = 0;
    for (int x : w) total += x;
    int v = (int)draw(total);
    for (size_t i = 0; i < w.size(); i++) {
        if (v < w[i]) return (int)i;
        v -= w[i];
    }
    return 0;
}
static std::string vformat(const char* fmt, va_list ap) {
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    std::string s(n, 0);
    vsnprintf(&s[0], n + 1, fmt, ap);
    return s;
}
void Choices::note(const char* fmt, ...) {
    if (!m_dumping || notes.size() > 20000) return;
    va_list ap;
    va_start(ap, fmt);
    std::string line = vformat(fmt, ap);
    notes += line;
    va_end(ap);
    notes += '\n';
    if (getenv("PBT_LIVE")) fprintf(stderr, "%s\n", line.c_str());
}
void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    Fail f;
    f.msg = vformat(fmt, ap);
    va_end(ap);
    throw f;
}
std::string show(const std::string& s, size_t max) {
    std::string o = "\"";
    char b[8];
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        size_t run = 1;
        while (i + run < s.size() && s[i + run] == s[i]) run++;
        if (run > 12) {
            snprintf(b, sizeof b, "\\x%02x", c);
            o += "[" + (c < 32 || c > 126 ? std::string(b) : std::string(1, (char)c)) + " x " + std::to_string(run) + "]";
            i += run - 1;
            max += run - 1;
            continue;
        }
        if (c == '\n') o += "\\n";
        else if (c == '\r') o += "\\r";
        else if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    o += '"';
    if (s.size() > max) { snprintf(b, sizeof b, "..."); o += b; }
    o += "(" + std::to_string(s.size()) + " bytes)";
    return o;
}

// ---- shared state between a worker and the parent -------------------------
struct Shared {
    volatile uint32_t count;
    volatile uint32_t started;   // number of cases started
    volatile uint32_t finished;  // 1: worker ran its budget
    volatile uint32_t verdict;   // 0 running, 1 passed, 2 failed, 3 hang
    volatile double caseStart;   // monotonic seconds
    char msg[4096];
    uint64_t evals, cases, discards, covEdges, corpus;
    uint64_t choices[Choices::MaxChoices];
};

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static Shared* g_cur = nullptr;
static volatile bool g_armed = false;

static void onHang(int) {
    if (g_cur && g_armed) {
        g_cur->verdict = 3;
        const char m[] = "the case did not finish within its CPU limit (hang)";
        memcpy(g_cur->msg, m, sizeof m);
    }
    _exit(78);
}
static void armCpu(double s) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (time_t)s;
    it.it_value.tv_usec = (suseconds_t)((s - floor(s)) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
    g_armed = s > 0;
}
void allowCpu(double seconds) { if (g_armed) armCpu(seconds); }
static uint64_t fnv(const uint64_t* p, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}

// runs one case; returns 1 passed, 2 failed, 0 discarded
static int runCase(const Property& p, Choices& c, Shared* sh) {
    try {
        p.run(c);
    } catch (const Fail& f) {
        snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
        sh->verdict = 2;
        return 2;
    } catch (const Discard&) {
        return 0;
    } catch (const std::exception& e) {
        snprintf(sh->msg, sizeof sh->msg, "uncaught exception: %s", e.what());
        sh->verdict = 2;
        return 2;
    } catch (...) {
        snprintf(sh->msg, sizeof sh->msg, "uncaught exception of unknown type");
        sh->verdict = 2;
        return 2;
    }
    return 1;
}

struct WorkerResult {
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> distinct; // hashes of non-trivial cases
    std::vector<std::vector<uint64_t> > samples;
};

static std::string workerFile(int w) { return g_scratch + "/result." + std::to_string(w); }

static void saveResult(int w, const WorkerResult& r) {
    FILE* f = fopen(workerFile(w).c_str(), "wb");
    if (!f) return;
    fprintf(f, "%zu\n", r.labels.size());
    for (auto& l : r.labels) fprintf(f, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
    fprintf(f, "%zu\n", r.distinct.size());
    for (uint64_t h : r.distinct) fprintf(f, "%llx\n", (unsigned long long)h);
    fprintf(f, "%zu\n", r.samples.size());
    for (auto& s : r.samples) {
        fprintf(f, "%zu", s.size());
        for (uint64_t v : s) fprintf(f, " %llu", (unsigned long long)v);
        fprintf(f, "\n");
    }
    fclose(f);
}
static void loadResult(int w, WorkerResult& r) {
    std::ifstream f(workerFile(w).c_str());
    size_t n;
    if (!(f >> n)) return;
    for (size_t i = 0; i < n; i++) {
        uint64_t k; std::string l;
        f >> k; f.ignore(1); std::getline(f, l);
        r.labels[l] += k;
    }
    if (!(f >> n)) return;
    for (size_t i = 0; i < n; i++) { std::string h; f >> h; r.distinct.push_back(strtoull(h.c_str(), nullptr, 16)); }
    if (!(f >> n)) return;
    for (size_t i = 0; i < n; i++) {
        size_t k; f >> k;
        std::vector<uint64_t> s(k);
        for (auto& v : s) f >> v;
        r.samples.push_back(s);
    }
}

static void mutate(std::vector<uint64_t>& s, const std::vector<std::vector<uint64_t> >& corpus, Rng& r) {
    int steps = 1 + (int)r.below(1 + r.below(6));
    while (steps--) {
        size_t n = s.size();
        switch (r.below(8)) {
        case 0: case 1: // replace one
            if (n) s[r.below(n)] = r.below(3) ? r.next() : r.below(20);
            break;
        case 2: // +-1
            if (n) { uint64_t& v = s[r.below(n)]; v = r.below(2) ? v + 1 : (v ? v - 1 : 0); }
            break;
        case 3: // delete a block
            if (n > 1) { size_t a = r.below(n), l = 1 + r.below(std::min<size_t>(n - a, 8));
                s.erase(s.begin() + a, s.begin() + std::min(n, a + l)); }
            break;
        case 4: { // insert random
            size_t a = r.below(n + 1), l = 1 + r.below(6);
            std::vector<uint64_t> ins;
            while (l--) ins.push_back(r.below(2) ? r.next() : r.below(20));
            s.insert(s.begin() + a, ins.begin(), ins.end());
            break; }
        case 5: // duplicate a block
            if (n) { size_t a = r.below(n), l = 1 + r.below(std::min<size_t>(n - a, 16)), b = r.below(n + 1);
                std::vector<uint64_t> blk(s.begin() + a, s.begin() + std::min(n, a + l));
                s.insert(s.begin() + b, blk.begin(), blk.end()); }
            break;
        case 6: // splice with another
            if (n && !corpus.empty()) {
                const std::vector<uint64_t>& o = corpus[r.below(corpus.size())];
                size_t a = r.below(n);
                s.resize(a);
                if (a < o.size()) s.insert(s.end(), o.begin() + a, o.end()); }
            break;
        default: // truncate: a fresh random tail
            if (n) s.resize(r.below(n));
        }
    }
    if (s.size() > Choices::MaxChoices) s.resize(Choices::MaxChoices);
}

static void worker(const Property& p, Shared* sh, int w, uint64_t seed, uint64_t first, uint64_t ncases,
        double deadline) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_cur = sh;
    signal(SIGPROF, onHang);
    signal(SIGPIPE, SIG_IGN);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0); dup2(nul, 1);
    std::string err = g_scratch + "/stderr." + std::to_string(w);
    int e = open(err.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(e, 2);
    WorkerResult res;
    std::unordered_set<uint64_t> seen;
    std::vector<std::vector<uint64_t> > corpus;
    std::vector<uint8_t> best;
    size_t ncov = 0;
    for (auto& r : covRanges()) ncov += r.second - r.first;
    best.assign(ncov, 0);
    uint64_t edges = 0;
    for (uint64_t i = first; i < ncases; i++) {
        if ((i & 7) == 0) { if (now() > deadline) break; if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET); }
        uint64_t cs = seed ^ ((uint64_t)w << 56) ^ (i * 0x9E3779B97F4A7C15ull);
        Rng r(cs);
        std::vector<uint64_t> prefix;
        bool mut = !corpus.empty() && (int)r.below(100) < p.mutatePercent;
        if (mut) {
            // favour recent additions
            size_t k = corpus.size();
            size_t idx = r.below(2) ? r.below(k) : k - 1 - r.below(std::min<size_t>(k, 16));
            prefix = corpus[idx];
            mutate(prefix, corpus, r);
        }
        if (p.mutatePercent)
            for (auto& cr : covRanges()) memset(cr.first, 0, cr.second - cr.first);
        Choices c(sh->choices, &sh->count, mut ? &prefix : nullptr, r.next(), false, false);
        sh->caseStart = now();
        sh->verdict = 0;
        sh->started = (uint32_t)(i + 1);
        armCpu(p.caseCpuSeconds);
        int v = runCase(p, c, sh);
        armCpu(0);
        if (v == 2) { saveResult(w, res); _exit(77); }
        sh->cases++;
        if (v == 0) { sh->discards++; continue; }
        sh->evals += c.evaluations;
        for (auto& l : c.labels()) res.labels[l]++;
        if (c.isNontrivial()) {
            uint64_t h = fnv(sh->choices, sh->count);
            if (seen.insert(h).second) {
                res.distinct.push_back(h);
                if (res.samples.size() < 2 && sh->count < 4000 && res.distinct.size() % 7 == 3)
                    res.samples.push_back(std::vector<uint64_t>(sh->choices, sh->choices + sh->count));
            }
        }
        if (p.mutatePercent) {
            bool fresh = false;
            size_t k = 0;
            for (auto& cr : covRanges())
                for (uint8_t* q = cr.first; q != cr.second; q++, k++) {
                    if (!*q) continue;
                    uint8_t b = *q;
                    uint8_t bucket = b == 1 ? 1 : b == 2 ? 2 : b == 3 ? 4 : b < 8 ? 8 : b < 16 ? 16 : b < 32 ? 32 : b < 128 ? 64 : 128;
                    if (!(best[k] & bucket)) { if (!best[k]) edges++; best[k] |= bucket; fresh = true; }
                }
            if (fresh && sh->count < 20000) {
                corpus.push_back(std::vector<uint64_t>(sh->choices, sh->choices + sh->count));
                if (corpus.size() > 3000) corpus.erase(corpus.begin(), corpus.begin() + 500);
            }
            sh->covEdges = edges;
            sh->corpus = corpus.size();
        }
    }
    sh->caseStart = 0;
    sh->finished = 1;
    saveResult(w, res);
    _exit(0);
}

// ---- running one sequence in a child --------------------------------------
struct Outcome { bool failed; bool hang; std::string msg, notes, err; std::vector<uint64_t> used; };

static Shared* mapShared() {
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared*)m;
}

static std::string slurp(const std::string& path, size_t max = 1 << 16) {
    std::ifstream f(path.c_str(), std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > max) s.resize(max);
    return s;
}

static Outcome runOne(const Property& p, const std::vector<uint64_t>& seq, bool dump, double cpu) {
    static Shared* sh = mapShared();
    memset((void*)sh, 0, offsetof(Shared, choices));
    std::string err = g_scratch + "/one.err", notes = g_scratch + "/one.notes";
    unlink(notes.c_str());
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        g_cur = sh;
        confirming = true;
        signal(SIGPROF, onHang);
        signal(SIGPIPE, SIG_IGN);
        int nul = open("/dev/null", O_RDWR);
        dup2(nul, 0); dup2(nul, 1);
        int e = open(err.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        dup2(e, 2);
        Choices c(sh->choices, &sh->count, &seq, 0, true, dump);
        armCpu(cpu);
        int v = runCase(p, c, sh);
        armCpu(0);
        if (dump) {
            std::ofstream f(notes.c_str(), std::ios::binary);
            f << c.notes;
        }
        _exit(v == 2 ? 77 : 0);
    }
    Outcome o;
    o.failed = o.hang = false;
    double t0 = now();
    int st = 0;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        double el = now() - t0;
        if (p.caseWallSeconds > 0 && el > p.caseWallSeconds) {
            kill(-pid, SIGKILL); kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            o.failed = o.hang = true;
            o.msg = "the case did not finish: blocked";
            break;
        }
        usleep(el < 0.02 ? 300 : 2000);
    }
    kill(-pid, SIGKILL);
    o.used.assign(sh->choices, sh->choices + sh->count);
    o.err = slurp(err);
    if (dump) o.notes = slurp(notes);
    if (o.failed) return o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) o.msg = sh->msg;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { o.hang = true; o.msg = sh->msg; }
    else {
        char b[200];
        if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st));
        else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
        o.msg = b;
        size_t k = o.err.find("ERROR: AddressSanitizer");
        if (k == std::string::npos) k = o.err.find("runtime error");
        if (k == std::string::npos) k = o.err.find("Assertion");
        if (k != std::string::npos) {
            size_t b0 = o.err.rfind('\n', k);
            b0 = b0 == std::string::npos ? 0 : b0 + 1;
            o.msg += ": " + o.err.substr(b0, std::min<size_t>(o.err.find('\n', k) - b0, 300));
        }
    }
    return o;
}

static std::vector<uint64_t> shrink(const Property& p, std::vector<uint64_t> best, bool hang, double budget,
        int& attempts) {
    double end = now() + budget;
    double cpu = hang ? std::min(p.caseCpuSeconds, 4.0) : p.caseCpuSeconds;
    int maxAttempts = hang ? 30 : 4000;
    auto shorter = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto tryIt = [&](std::vector<uint64_t> cand) -> bool {
        if (now() > end || attempts >= maxAttempts) return false;
        while (!cand.empty() && cand.back() == 0) cand.pop_back();
        if (!shorter(cand, best)) return false;
        attempts++;
        Outcome o = runOne(p, cand, false, cpu);
        if (!o.failed) return false;
        std::vector<uint64_t> u = o.used;
        while (!u.empty() && u.back() == 0) u.pop_back();
        best = shorter(u, cand) ? u : cand;
        return true;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && now() < end && attempts < maxAttempts) {
        progress = false;
        for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk = blk / 2) {
            for (size_t i = best.size(); i-- > 0 && now() < end;) {
                if (i + blk > best.size()) continue;
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + i, c.begin() + i + blk);
                if (tryIt(c)) { progress = true; continue; }
                bool nz = false;
                for (size_t k = i; k < i + blk; k++) nz |= best[k] != 0;
                if (nz) {
                    c = best;
                    std::fill(c.begin() + i, c.begin() + i + blk, 0);
                    if (tryIt(c)) progress = true;
                }
                if (blk > 1 && i >= blk) i -= blk - 1; // coarse steps
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < end; i++) {
            if (best[i] == 0) continue;
            uint64_t lo = 0, hi = best[i]; // find a small failing value by bisection
            while (lo < hi && now() < end && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c = best;
                c[i] = mid;
                size_t before = best.size();
                if (tryIt(c)) { progress = true; if (best.size() != before) break; hi = mid; }
                else lo = mid + 1;
            }
        }
        // lower one value together with deleting a later one
        for (size_t i = 0; i + 1 < best.size() && best.size() < 200 && now() < end; i++) {
            if (!best[i]) continue;
            for (size_t j = i + 1; j < std::min(best.size(), i + 12); j++) {
                std::vector<uint64_t> c = best;
                c[i]--;
                c.erase(c.begin() + j);
                if (tryIt(c)) { progress = true; break; }
            }
        }
    }
    return best;
}

static std::string jsonEscape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

static bool readReplay(const std::string& path, std::vector<uint64_t>& seq, std::string* id) {
    std::ifstream f(path.c_str());
    std::string line;
    bool found = false;
    while (std::getline(f, line)) {
        if (line.compare(0, 9, "property ") == 0) { if (id) *id = line.substr(9); }
        if (line.compare(0, 8, "choices ") == 0) {
            std::istringstream is(line.substr(8));
            uint64_t v;
            seq.clear();
            while (is >> v) seq.push_back(v);
            found = true;
        }
    }
    return found;
}

static void removeTree(const std::string& d) {
    DIR* dir = opendir(d.c_str());
    if (!dir) { unlink(d.c_str()); return; }
    while (struct dirent* e = readdir(dir)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string f = d + "/" + n;
        struct stat st;
        if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(f);
        else unlink(f.c_str());
    }
    closedir(dir);
    rmdir(d.c_str());
}
static pid_t g_main;
static void cleanup() { if (getpid() == g_main && !g_scratch.empty()) removeTree(g_scratch); }

static int usage() {
    fprintf(stderr, "usage: prog --property ID [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]\n"
        "            [--replays DIR] [--evidence FILE] [--out DIR] [--level L] [--wall S] [--assume TEXT]...\n");
    return 2;
}
} // namespace pbt

int main(int argc, char** argv) {
    using namespace pbt;
    std::string id, tier = "quick", replay, replays, evidence, outDir = ".", level = "exploration";
    std::vector<std::string> assume;
    uint64_t seed = 1;
    long cases = 0;
    double wall = 0;
    int nworkers = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property") id = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") cases = atol(val().c_str());
        else if (a == "--replay") replay = val();
        else if (a == "--replays") replays = val();
        else if (a == "--evidence") evidence = val();
        else if (a == "--out") outDir = val();
        else if (a == "--level") level = val();
        else if (a == "--wall") wall = atof(val().c_str());
        else if (a == "--workers") nworkers = atoi(val().c_str());
        else if (a == "--assume") assume.push_back(val());
        else return usage();
    }
    const Property* pp = nullptr;
    for (auto& q : properties()) if (id == q.id) pp = &q;
    if (!pp) { fprintf(stderr, "unknown property '%s'\n", id.c_str()); return 2; }
    const Property& p = *pp;
    g_main = getpid();
    {
        const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        std::string t = std::string(base) + "/vf-" + id + "-XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); return 3; }
        g_scratch = b.data();
        atexit(cleanup);
    }
    double t0 = now();
    if (!replay.empty()) {
        std::vector<uint64_t> seq;
        if (!readReplay(replay, seq, nullptr)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
        Outcome o = runOne(p, seq, true, p.caseCpuSeconds);
        printf("%s\n", o.notes.c_str());
        if (!o.failed) { printf("replay: property holds on this case\n"); return 0; }
        printf("%s\nfailure: %s\n", o.err.substr(0, 6000).c_str(), o.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
        return 1;
    }

    long total = cases ? cases : (tier == "thorough" ? p.thoroughCases : p.quickCases);
    if (wall <= 0) wall = tier == "thorough" ? 1500 : 120;
    std::vector<uint64_t> failing;
    bool haveFailure = false, failHang = false;
    std::string failMsg;
    uint64_t nreplays = 0;

    // 1. saved sequences: cases that failed before
    if (!replays.empty()) {
        std::vector<std::string> files;
        if (DIR* d = opendir(replays.c_str())) {
            while (struct dirent* e = readdir(d)) {
                std::string n = e->d_name;
                if (n.size() > 7 && n.substr(n.size() - 7) == ".replay") files.push_back(replays + "/" + n);
            }
            closedir(d);
        }
        std::sort(files.begin(), files.end());
        for (auto& f : files) {
            std::vector<uint64_t> seq;
            if (!readReplay(f, seq, nullptr)) continue;
            nreplays++;
            Outcome o = runOne(p, seq, false, p.caseCpuSeconds);
            if (o.failed) { haveFailure = true; failing = seq; failMsg = o.msg; failHang = o.hang; break; }
        }
    }

    // 2. generation
    std::vector<Shared*> sh(nworkers);
    std::vector<pid_t> pids(nworkers, 0);
    std::vector<uint64_t> next(nworkers, 0);
    uint64_t unreproduced = 0;
    std::vector<std::string> unreproducedMsgs;
    std::vector<WorkerResult> partial; // of workers that died
    uint64_t pe = 0, pc = 0, pd = 0;
    if (!haveFailure) {
        uint64_t mseed = seed * 1000003ull;
        for (const char* q = p.id; *q; q++) mseed = mseed * 131 + (unsigned char)*q;
        double deadline = now() + wall;
        uint64_t per = (total + nworkers - 1) / nworkers;
        auto start = [&](int w) {
            pid_t pid = fork();
            if (pid == 0) {
                setpgid(0, 0);
                worker(p, sh[w], w, mseed, next[w], per, deadline);
            }
            setpgid(pid, pid);
            pids[w] = pid;
        };
        for (int w = 0; w < nworkers; w++) { sh[w] = mapShared(); start(w); }
        int alive = nworkers;
        while (alive > 0) {
            int st;
            pid_t r = waitpid(-1, &st, WNOHANG);
            int w = -1;
            bool blocked = false;
            if (r > 0) {
                for (int k = 0; k < nworkers; k++) if (pids[k] == r) w = k;
                if (w < 0) continue;
            } else {
                if (p.caseWallSeconds > 0)
                    for (int k = 0; k < nworkers; k++) {
                        double cs = sh[k]->caseStart;
                        if (pids[k] && cs > 0 && now() - cs > p.caseWallSeconds) {
                            kill(-pids[k], SIGKILL); kill(pids[k], SIGKILL);
                            waitpid(pids[k], &st, 0);
                            w = k; blocked = true;
                            break;
                        }
                    }
                if (w < 0) { usleep(5000); continue; }
            }
            kill(-pids[w], SIGKILL);
            pids[w] = 0;
            alive--;
            if (!blocked && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->finished) continue;
            // a case failed in worker w
            std::vector<uint64_t> seq(sh[w]->choices, sh[w]->choices + sh[w]->count);
            bool hang = blocked || (WIFEXITED(st) && WEXITSTATUS(st) == 78);
            // it must fail three times on its own
            int ok = 0;
            Outcome o;
            for (int k = 0; k < 3; k++) {
                o = runOne(p, seq, false, p.caseCpuSeconds);
                if (o.failed) ok++; else break;
            }
            if (ok == 3) {
                haveFailure = true;
                failing = seq;
                failMsg = o.msg;
                failHang = o.hang || hang;
                for (int k = 0; k < nworkers; k++)
                    if (pids[k]) { kill(-pids[k], SIGKILL); kill(pids[k], SIGKILL); waitpid(pids[k], &st, 0); pids[k] = 0; }
                break;
            }
            unreproduced++;
            if (unreproducedMsgs.size() < 5)
                unreproducedMsgs.push_back(std::string(sh[w]->msg) + " " + slurp(g_scratch + "/stderr." + std::to_string(w), 600));
            { WorkerResult wr; loadResult(w, wr); partial.push_back(wr); }
            if (unreproduced < 200 && now() < deadline) {
                next[w] = sh[w]->started;
                sh[w]->caseStart = 0;
                start(w);
                alive++;
            }
        }
    }

    // 3. report
    uint64_t evals = pe, ncases = pc, discards = pd, edges = 0, corpus = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::vector<uint64_t> > samples;
    auto merge = [&](const WorkerResult& r) {
        for (auto& l : r.labels) labels[l.first] += l.second;
        distinct.insert(r.distinct.begin(), r.distinct.end());
        for (auto& s : r.samples) samples.push_back(s);
    };
    for (auto& r : partial) merge(r);
    for (int w = 0; w < nworkers && sh[w]; w++) {
        WorkerResult r;
        loadResult(w, r);
        merge(r);
        evals += sh[w]->evals; ncases += sh[w]->cases; discards += sh[w]->discards;
        edges = std::max<uint64_t>(edges, sh[w]->covEdges);
        corpus += sh[w]->corpus;
    }
    int rc = 0;
    std::string replayPath;
    if (haveFailure) {
        int attempts = 0;
        std::vector<uint64_t> small = shrink(p, failing, failHang, failHang ? 45 : 60, attempts);
        setenv("ASAN_OPTIONS", "symbolize=0", 1);
        Outcome o = runOne(p, small, true, p.caseCpuSeconds);
        if (!o.failed) { small = failing; o = runOne(p, small, true, p.caseCpuSeconds); }
        if (o.failed) failMsg = o.msg;
        mkdir(outDir.c_str(), 0777);
        char name[64];
        snprintf(name, sizeof name, "/%s-%08llx.replay", p.id, (unsigned long long)(fnv(small.data(), small.size()) & 0xffffffffull));
        replayPath = outDir + name;
        std::ofstream f(replayPath.c_str(), std::ios::binary);
        f << "property " << p.id << "\nmessage " << failMsg << "\nshrunk " << failing.size() << " -> " << small.size()
          << " choices in " << attempts << " attempts\nchoices";
        for (uint64_t v : small) f << ' ' << v;
        f << "\n--- case\n" << o.notes << "\n--- stderr\n" << o.err.substr(0, 8000) << "\n";
        f.close();
        printf("%s: %s\n%s\n", p.id, failMsg.c_str(), o.notes.substr(0, 3000).c_str());
        printf("VIOLATION property=%s replay=%s\n", p.id, replayPath.c_str());
        rc = 1;
    }
    if (!evidence.empty()) {
        std::ostringstream j;
        j << "{\"property\":\"" << p.id << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"" << level
          << "\",\n\"coverage\":{\"evaluations\":" << evals << ",\"cases\":" << ncases << ",\"discarded\":" << discards
          << ",\"distinct_nontrivial\":" << distinct.size() << ",\"rule\":\"" << jsonEscape(p.rule) << "\",\n\"labels\":{";
        bool firstL = true;
        for (auto& l : labels) { j << (firstL ? "" : ",") << "\"" << jsonEscape(l.first) << "\":" << l.second; firstL = false; }
        j << "},\n\"library_edges_covered_by_best_worker\":" << edges << ",\"coverage_corpus\":" << corpus
          << ",\"replayed_regressions\":" << nreplays << ",\"unreproduced_failures\":" << unreproduced;
        if (!unreproducedMsgs.empty()) {
            j << ",\"unreproduced\":[";
            for (size_t k = 0; k < unreproducedMsgs.size(); k++) j << (k ? "," : "") << "\"" << jsonEscape(unreproducedMsgs[k]) << "\"";
            j << "]";
        }
        j << ",\n\"samples\":[";
        int ns = 0;
        for (size_t k = 0; k < samples.size() && ns < 4; k++) {
            Outcome o = runOne(p, samples[k], true, p.caseCpuSeconds);
            if (o.notes.empty()) continue;
            j << (ns++ ? ",\n" : "") << "\"" << jsonEscape(o.notes.substr(0, 1500)) << "\"";
        }
        j << "]},\n\"assumptions\":[";
        for (size_t k = 0; k < assume.size(); k++) j << (k ? "," : "") << "\"" << jsonEscape(assume[k]) << "\"";
        char wb[32];
        snprintf(wb, sizeof wb, "%.2f", now() - t0);
        j << "],\n\"wall_s\":" << wb << ",\"violations\":" << (haveFailure ? 1 : 0);
        if (haveFailure) j << ",\"replay\":\"" << jsonEscape(replayPath) << "\",\"message\":\"" << jsonEscape(failMsg) << "\"";
        j << "}\n";
        std::ofstream f(evidence.c_str(), std::ios::binary);
        f << j.str();
    }
    if (rc == 0)
        printf("%s held: %llu cases (%llu evaluations, %llu distinct non-trivial, %llu discarded) in %.1f s, %llu library edges\n",
            p.id, (unsigned long long)ncases, (unsigned long long)evals, (unsigned long long)distinct.size(),
            (unsigned long long)discards, now() - t0, (unsigned long long)edges);
    if (rc == 0 && unreproduced)
        printf("%s: %llu failures did not reproduce on their own\n", p.id, (unsigned long long)unreproduced);
    return rc;
}
