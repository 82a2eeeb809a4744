// helpers for the demonstrations
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <unistd.h>
#include <stdint.h>
#include <strigi/stringstream.h>
#include <strigi/streambase.h>
#include <strigi/bufferedstream.h>
using namespace Strigi;
using std::string;
#define CHECK(c) do { if (!(c)) { printf("wrong: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)

// pseudo-random data
static inline string noise(size_t n, unsigned seed = 1) {
    string s(n, 0);
    for (size_t i = 0; i < n; ++i) { seed = seed * 1103515245u + 12345u; s[i] = (char)(seed >> 16); }
    return s;
}
// delivers a text in pieces of at most chunk bytes
class Pieces : public BufferedInputStream {
    string d; size_t p; int chunk; long failAt;
    int32_t fillBuffer(char* s, int32_t space) {
        if (failAt >= 0 && (long)p >= failAt) { m_status = Error; m_error = "broken"; return -1; }
        if (p >= d.size()) return -1;
        int32_t n = std::min<long>(std::min(space, chunk), d.size() - p);
        if (failAt >= 0) n = std::min<long>(n, failAt - (long)p);
        memcpy(s, d.data() + p, n); p += n;
        return n;
    }
public:
    Pieces(const string& s, int c, bool sized = false, long fail = -1) : d(s), p(0), chunk(c), failAt(fail) { if (sized) m_size = s.size(); }
};
static inline string readAll(InputStream* s, int32_t min = 1, int32_t max = 0) {
    string r; const char* b; int32_t n;
    while ((n = s->read(b, min, max)) > 0) r.append(b, n);
    return r;
}
