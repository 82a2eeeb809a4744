// C07: data events report each byte exactly once, in order, with one end event
#include "huge.h"
#include <strigi/dataeventinputstream.h>
using namespace Strigi;
using namespace pbt;

namespace {
struct Recorder : DataEventHandler {
    const Bytes& data;
    int64_t seen = 0;       // bytes reported
    int64_t declineAfter;   // returns false once this many bytes were reported; -1: never
    bool declined = false;
    int ends = 0;
    Recorder(const Bytes& d, int64_t decline) : data(d), declineAfter(decline) {}
    bool handleData(const char* p, uint32_t n) {
        REQUIRE(!declined, "data was reported to a listener that declined more");
        REQUIRE(!ends, "data was reported after the end");
        REQUIRE(n > 0, "an empty event was sent");
        REQUIRE(seen + n <= data.size(), "%lld bytes were reported, there are only %zu", (long long)(seen + n), data.size());
        if (memcmp(p, data.data() + seen, n)) {
            size_t k = 0;
            while (p[k] == data[seen + k]) k++;
            fail("the event of %u bytes at %lld differs from the data at %lld", n, (long long)seen, (long long)(seen + k));
        }
        seen += n;
        if (declineAfter >= 0 && seen >= declineAfter) { declined = true; return false; }
        return true;
    }
    void handleEnd() {
        REQUIRE(!ends, "the end was reported twice");
        REQUIRE(declined || seen == (int64_t)data.size(), "the end was reported after %lld of %zu bytes", (long long)seen, data.size());
        ends++;
    }
};
}
// listeners at streams of several GiB
namespace {
struct HugeRecorder : DataEventHandler {
    int64_t total, seen = 0, declineAfter;
    bool declined = false;
    int ends = 0;
    HugeRecorder(int64_t t, int64_t d) : total(t), declineAfter(d) {}
    bool handleData(const char* p, uint32_t n) {
        REQUIRE(!declined && !ends, "data was reported to a listener that declined more or was told the end");
        REQUIRE(n > 0 && seen + n <= total, "%u bytes at %lld of %lld were reported", n, (long long)seen, (long long)total);
        for (uint32_t i = 0; i < n; i += n < 2000 || i > n - 1000 || i < 1000 ? 1 : 97)
            if (p[i] != HugeStream::filler(seen + i)) fail("the event of %u bytes at %lld differs from the data at %lld", n, (long long)seen, (long long)(seen + i));
        seen += n;
        if (declineAfter >= 0 && seen >= declineAfter) { declined = true; return false; }
        return true;
    }
    void handleEnd() {
        REQUIRE(!ends, "the end was reported twice");
        REQUIRE(declined || seen == total, "the end was reported after %lld of %lld bytes", (long long)seen, (long long)total);
        ends++;
    }
};
}
static void hugeEvents(Choices& c) {
    bool all = c.chance(1, 20); // every byte goes through the listener: slow
    HugeStream h(c.flip());
    h.fill(genHugeSize(c, all ? (1ll << 31) + 5000 : 1ll << 34));
    HugeRecorder rec(h.total(), all && c.flip() ? -1 : c.size(2000));
    c.note("huge stream of %lld, listener declining after %lld", (long long)h.total(), (long long)rec.declineAfter);
    bool ended;
    {
        DataEventInputStream s(&h, rec);
        if (!all) { // decline before anything is skipped
            const char* d;
            int32_t want = 2000 + (int32_t)c.draw(100), r = s.read(d, want, want);
            REQUIRE(r == want && rec.declined, "read(%d) returned %d", want, r);
            int64_t p = s.reset(0);
            REQUIRE(p == 0, "reset(0) returned %lld", (long long)p);
        }
        bool finish = c.flip();
        exerciseHuge(c, s, h.total(), 0, finish, "event stream");
        ended = s.status() == Eof;
        if (!rec.declined) REQUIRE(rec.seen >= s.position(), "%lld bytes were consumed, %lld were reported", (long long)s.position(), (long long)rec.seen);
        REQUIRE(!ended || rec.ends == 1, "the stream is at its end and the listener was told so %d times", rec.ends);
        REQUIRE(h.position() == s.position(), "the stream below is at %lld, not %lld", (long long)h.position(), (long long)s.position());
    }
    REQUIRE(rec.ends <= 1, "the end was reported %d times", rec.ends);
    c.label(all ? "several GiB, all reported" : "several GiB, declined");
    c.nontrivial();
}
static void c07(Choices& c) {
    if (c.chance(1, 250)) { hugeEvents(c); return; }
    static const std::vector<int64_t> edges = { 1, 2, 64, 1024, 4096, 65536 };
    Bytes data = genBytesOfSize(c, genSizeNear(c, edges, c.chance(1, 30) ? 300000 : c.chance(1, 6) ? 20000 : 1000));
    auto src = genAnySource(c, data);
    int layers = 1 + (c.chance(1, 3) ? 1 + (int)c.draw(2) : 0);
    bool seekable = src->desc == "string" || src->desc == "unbuffered file" || src->desc == "mapped file"
        || (src->desc.compare(0, 7, "chunked") == 0 && src->desc.find("last-segment") == std::string::npos);
    std::vector<std::unique_ptr<Recorder> > rec;
    std::vector<std::unique_ptr<InputStream> > streams;
    InputStream* top = src->top();
    for (int i = 0; i < layers; i++) {
        int64_t decline = c.chance(1, 5) ? c.size(data.size() + 1) : -1;
        rec.emplace_back(new Recorder(data, decline));
        streams.emplace_back(new DataEventInputStream(top, *rec.back()));
        top = streams.back().get();
    }
    c.note("%s, %zu bytes, %d listeners", src->desc.c_str(), data.size(), layers);
    int64_t furthest = 0;
    ContractOptions o;
    o.full = seekable;
    o.forward = true;
    o.maxOps = 40;
    o.finish = !c.chance(1, 4);
    bool ended = false;
    auto check = [&](int64_t pos) {
        if (pos > furthest) furthest = pos;
        if (top->status() == Eof) ended = true;
        for (size_t i = 0; i < rec.size(); i++) {
            Recorder& r = *rec[i];
            if (!r.declined) REQUIRE(r.seen == furthest, "%lld bytes were consumed, %lld were reported", (long long)furthest, (long long)r.seen);
            if (ended || streams[i]->status() == Eof) REQUIRE(r.ends == 1, "the stream is at its end and the listener was told so %d times", r.ends);
            else if (i + 1 == rec.size()) REQUIRE(r.ends == 0, "the end was reported before the stream was at its end");
            // a stream below the top may have come to its end while the one above it was repositioned
            if (r.ends) REQUIRE(furthest == (int64_t)data.size(), "the end was reported when %lld of %zu bytes were consumed", (long long)furthest, data.size());
        }
    };
    o.after = check;
    exercise(c, *top, data, o, "event stream");
    if (!o.finish && c.flip()) { // consume the rest by skipping
        for (int i = 0; i < 100000 && top->status() == Ok; i++) top->skip(1 + c.size(data.size() + 5));
        check(top->position());
        REQUIRE(ended && top->position() == (int64_t)data.size(), "skipping on ended at %lld of %zu with status %s", (long long)top->position(), data.size(), statusName(top->status()));
    }
    while (!streams.empty()) streams.pop_back();
    for (auto& r : rec) {
        REQUIRE(r->ends == (ended ? 1 : 0) || (!ended && r != rec.back()), "the end was reported %d times", r->ends);
        REQUIRE(r->ends <= 1, "the end was reported %d times", r->ends);
        if (r->declined) c.label("listener declined");
    }
    if (layers > 1) c.label("several listeners");
    if (ended) c.label("ended");
}
static Register r07({ "C07", c07,
    "random content behind a random source under one to three event streams whose listeners may decline further data; driven by random reads, skips and "
    "rewinds. After every operation each listener must have been given exactly the bytes up to the furthest position consumed, in order, and the end event "
    "exactly once and only at the end; the user's data is compared with an array model. One case in 250 has a stream of several GiB. Non-trivial: an operation ended inside the data and a rewind went "
    "backwards",
    130000, 2500000, 25, 20, 0 });
