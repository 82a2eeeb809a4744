// Choice-sequence property-based testing engine.
//
// A property is a function of a Choices object.  Every random decision of a
// case is one draw from it, so a case *is* its sequence of draws: it can be
// replayed, mutated under coverage guidance, and shrunk generically.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

// splitmix/xorshift generator: only used to extend choice sequences and to
// expand a drawn seed into bulk content.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

// more CPU time for the rest of the running case, which is known to need it
void allowCpu(double seconds);

class Choices {
public:
    enum { MaxChoices = 1 << 18 };
    // buf: where the sequence is recorded (shared memory in a worker)
    Choices(uint64_t* buf, volatile uint32_t* count, const std::vector<uint64_t>* prefix,
            uint64_t seed, bool zeroTail, bool dumping)
        : m_buf(buf), m_count(count), m_prefix(prefix), m_rng(seed),
          m_zeroTail(zeroTail), m_dumping(dumping), m_nontrivial(false) { *m_count = 0; }

    // uniform in [0, n); n == 0 means the full 64-bit range
    uint64_t draw(uint64_t n);
    int64_t range(int64_t lo, int64_t hi) { // inclusive; shrinks to lo
        return hi <= lo ? lo : lo + (int64_t)draw((uint64_t)(hi - lo) + 1);
    }
    // true with probability num/den; shrinks to false
    bool chance(int num, int den) { return (int)draw(den) >= den - num; }
    bool flip() { return draw(2) == 1; }
    // a size in [0, max] biased towards small values, reaching max
    int64_t size(int64_t max);
    // index chosen by weight; shrinks to the first
    int weighted(const std::vector<int>& w);
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }

    void label(const char* l) { m_labels.insert(l); }
    void label(const std::string& l) { m_labels.insert(l); }
    void nontrivial() { m_nontrivial = true; }
    bool isNontrivial() const { return m_nontrivial; }
    bool dumping() const { return m_dumping; }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    const std::set<std::string>& labels() const { return m_labels; }
    std::vector<uint64_t> drawn() const { return std::vector<uint64_t>(m_buf, m_buf + *m_count); } // so far
    uint64_t evaluations = 1; // sub-cases evaluated in this case
    std::string notes;
private:
    uint64_t* m_buf;
    volatile uint32_t* m_count;
    const std::vector<uint64_t>* m_prefix;
    Rng m_rng;
    bool m_zeroTail, m_dumping, m_nontrivial;
    std::set<std::string> m_labels;
};

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define REQUIRE(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)
[[noreturn]] inline void discard() { throw Discard(); }

// printable form of bytes
std::string show(const std::string& s, size_t max = 80);

struct Property {
    const char* id;
    void (*run)(Choices&);
    const char* rule;      // how cases are made and what makes one non-trivial
    int quickCases;        // total over all workers
    int thoroughCases;
    int mutatePercent;     // share of cases that mutate a coverage-increasing one
    double caseCpuSeconds; // CPU limit of one case: beyond it, the case hangs
    double caseWallSeconds;// wall limit (0: none), confirmed by retries
};
std::vector<Property>& properties();
struct Register { explicit Register(const Property& p) { properties().push_back(p); } };

// true while a failure is confirmed, shrunk or replayed: a case that depends
// on the schedule should then try more often
extern bool confirming;

// a scratch directory of this process tree; removed at the end
const std::string& scratchDir();
} // namespace pbt
#endif
