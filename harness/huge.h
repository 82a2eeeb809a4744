// Sources of several GiB that exist only as a rule, for everything that counts
// bytes: positions, sizes and lengths beyond 2^31 and 2^32.
#ifndef VERIF_HUGE_H
#define VERIF_HUGE_H
#include "common.h"
#include <ctime>

// pieces given as bytes or as a length of filler; every position can be reset to
class HugeStream : public Strigi::InputStream {
public:
    explicit HugeStream(bool knowSize) : m_known(knowSize), m_total(0) {}
    void add(const Bytes& b) { m_segs.push_back({ m_total, (int64_t)b.size(), b }); m_total += (int64_t)b.size(); if (m_known) m_size = m_total; }
    void fill(int64_t n) { m_segs.push_back({ m_total, n, Bytes() }); m_total += n; if (m_known) m_size = m_total; }
    int64_t total() const { return m_total; }
    int32_t read(const char*& start, int32_t min, int32_t max);
    int64_t skip(int64_t n);
    int64_t reset(int64_t pos);
    static char filler(int64_t pos); // the filler at a position
private:
    struct Seg { int64_t start, len; Bytes bytes; };
    bool m_known;
    int64_t m_total;
    std::vector<Seg> m_segs;
    std::unique_ptr<char[]> m_block;
};
struct HugeOptions {
    char (*at)(int64_t pos) = HugeStream::filler; // the byte expected at a position
    bool full = true;  // the stream can be rewound to anywhere, not only in the last read
    bool forward = true; // and to beyond what was read or skipped, if full
    int maxOps = 8;
};
// reads, skips and rewinds in a stream of 'size' bytes, the first of which is
// what o.at says for position 'origin'
void exerciseHuge(Choices& c, Strigi::InputStream& s, int64_t size, int64_t origin, bool finish, const char* what, const HugeOptions& o = HugeOptions());
// In a case that takes seconds: one such case of a process, more only while they
// take a small part of its time. Discards the case otherwise.
class HugeCost {
public:
    HugeCost();
    ~HugeCost();
private:
    clock_t m_was;
};
// a user-written buffered stream of filler
class HugeFill : public Strigi::BufferedInputStream {
public:
    explicit HugeFill(int64_t total, bool knowSize) : m_total(total), m_done(0) { setMinBufSize(65536); if (knowSize) m_size = total; }
    int32_t fillBuffer(char* start, int32_t space);
private:
    int64_t m_total, m_done;
};
// a size between 2^31 - 600 and limit, often near a power of two
int64_t genHugeSize(Choices& c, int64_t limit);
#endif
