// Shared parts of the harnesses: content generators, source streams that
// deliver bytes on a generated schedule, and the stream-contract exerciser.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "../engine/pbt.h"
#include <strigi/streambase.h>
#include <strigi/bufferedstream.h>
#include <strigi/stringstream.h>
#include <strigi/subinputstream.h>
#include <strigi/fileinputstream.h>
#include <memory>
#include <string>
#include <vector>
#include <cstring>
#include <functional>

using pbt::Choices;
typedef std::string Bytes;

// ---- content ---------------------------------------------------------------
// arbitrary bytes of an arbitrary length up to max: one of several textures
Bytes genBytes(Choices& c, int64_t max);
Bytes genBytesOfSize(Choices& c, int64_t n);
// a size that is interesting around a boundary
int64_t genSizeNear(Choices& c, const std::vector<int64_t>& boundaries, int64_t max);
std::string genName(Choices& c, int maxlen = 24); // [a-z0-9_.-]+, not "." or ".."

// ---- the delivery schedule of a source -------------------------------------
struct Delivery {
    std::vector<int> chunks;  // sizes offered by successive reads (cyclic); <=0: everything
    bool knowSize = true;     // size() is known from the start
    bool eagerEof = false;    // status turns Eof with the read that delivers the last byte
    bool farReset = true;     // reset works anywhere already delivered
    bool zeroAtEnd = false;   // reads at the end return 0 instead of -1
    int64_t failAt = -1;      // after this many bytes: Error
    std::string failText = "injected read failure";
};
Delivery genDelivery(Choices& c, bool minimal = false);

// An input stream over a byte string that follows the documented contract of
// read() and reset() as loosely as it permits.  Every read hands out a fresh
// heap copy of exactly the bytes delivered, which is freed by the next call
// that may invalidate it, so overreads and stale pointers are caught by ASan.
class ChunkStream : public Strigi::InputStream {
public:
    ChunkStream(const Bytes& data, const Delivery& d);
    ~ChunkStream();
    int32_t read(const char*& start, int32_t min, int32_t max);
    int64_t skip(int64_t n);
    int64_t reset(int64_t pos);
    int64_t calls;            // reads, skips and resets made
    int64_t reads;
    bool refusedReset;        // a reset was refused
    bool failed;              // the injected failure was delivered
    bool servedEnd;           // a read was answered with the end of the stream
    int64_t furthest;         // highest position delivered
private:
    void drop();
    Bytes m_data;
    Delivery m_d;
    size_t m_next;
    char* m_buf;
    int64_t m_segStart, m_segEnd;
};

// A minimal user-written buffered stream: fillBuffer hands over pieces.
class FillStream : public Strigi::BufferedInputStream {
public:
    FillStream(const Bytes& data, const Delivery& d) : m_data(data), m_d(d), m_pos(0), m_next(0) {
        if (d.knowSize && !data.empty()) m_size = (int64_t)data.size();
    }
    int32_t fillBuffer(char* start, int32_t space);
    void atLeast(int32_t n) { setMinBufSize(n); }
    // other data in the same object
    void again(const Bytes& data, const Delivery& d) {
        resetBuffer();
        m_data = data;
        m_d = d;
        m_pos = 0;
        m_next = 0;
        if (d.knowSize && !data.empty()) m_size = (int64_t)data.size();
    }
private:
    Bytes m_data;
    Delivery m_d;
    int64_t m_pos;
    size_t m_next;
};

// ---- sources ---------------------------------------------------------------
// owns a stack of streams; top() is the one to use, the others lie below it
struct Source {
    std::vector<std::unique_ptr<Strigi::InputStream> > owned; // bottom first
    std::vector<std::string> files;
    std::string desc;
    ChunkStream* chunk = nullptr;
    Strigi::InputStream* top() const { return owned.back().get(); }
    ~Source() { close(); }
    void close() { while (!owned.empty()) owned.pop_back(); }
    Source() {}
    Source(const Source&) = delete;
};
enum SourceKind { SrcString, SrcChunk, SrcFile, SrcSkipping, SrcMMap, SrcSubKnown, SrcSubUnknown, SrcFill, SrcGzip, SrcStringNoCopy, SrcKinds };
// a random way of serving data; far: positions already delivered can be reset to
std::unique_ptr<Source> genSource(Choices& c, const Bytes& data, const std::vector<int>& kinds);
std::unique_ptr<Source> genAnySource(Choices& c, const Bytes& data);
std::string writeScratchFile(const Bytes& data, const std::string& name = "");
Bytes gzipOf(const Bytes& data, int level = 6);

// ---- the stream contract ---------------------------------------------------
struct ContractOptions {
    bool full = true;          // the stream can be rewound to anywhere already read
    bool checkSize = true;
    int64_t maxOps = 60;
    bool rewinds = true;
    bool finish = true;        // read up to the end
    bool forward = false;      // also rewinds 'forward', beyond the position and the end
    std::function<void(int64_t pos)> after; // called after every operation
};
// drives s with random reads, skips and rewinds, checking everything the
// stream contract promises against the expected content
template <class T>
void exercise(Choices& c, Strigi::StreamBase<T>& s, const std::basic_string<T>& expected, const ContractOptions& o,
        const char* what);

// reads everything with generated request sizes; returns the bytes and checks
// request limits; *status receives the final status
struct ReadPlan { std::vector<std::pair<int,int> > reqs; };
ReadPlan genPlan(Choices& c);
Bytes drain(Strigi::InputStream& s, const ReadPlan& p, Strigi::StreamStatus* status = nullptr, int64_t limit = 64 << 20);
Bytes drainAll(Strigi::InputStream& s, Strigi::StreamStatus* status = nullptr, int64_t limit = 64 << 20);
std::string describe(const ReadPlan& p);
const char* statusName(Strigi::StreamStatus s);
// fails with a description of the first difference
void requireSame(const Bytes& got, const Bytes& want, const char* what);
#endif
