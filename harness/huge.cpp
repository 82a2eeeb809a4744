#include "huge.h"
#include <algorithm>
using namespace Strigi;
using namespace pbt;

static const int64_t PERIOD = 1000003;
static const char* pattern() {
    static char* p = [] {
        char* b = new char[PERIOD + 70000];
        uint32_t s = 12345;
        for (int64_t i = 0; i < PERIOD; i++) { s = s * 1103515245u + 12345u; b[i] = (char)(s >> 16); }
        memcpy(b + PERIOD, b, 70000);
        return b;
    }();
    return p;
}
char HugeStream::filler(int64_t pos) { return pattern()[pos % PERIOD]; }
int32_t HugeStream::read(const char*& start, int32_t min, int32_t max) {
    if (m_status == Error) return -2;
    if (min < 1) min = 1;
    int64_t want = max >= min ? max : std::max(min, 4096);
    want = std::min(want, m_total - m_position);
    if (want < min) { m_status = Eof; m_size = m_total; }
    if (want <= 0) return -1;
    if (want > min) want = std::max<int64_t>(min, std::min<int64_t>(want, 60000));
    m_block.reset(new char[want]);
    int64_t done = 0;
    for (const Seg& g : m_segs) {
        while (done < want && m_position + done >= g.start && m_position + done < g.start + g.len) {
            int64_t p = m_position + done, n = std::min(want - done, g.start + g.len - p);
            if (g.bytes.empty()) {
                n = std::min<int64_t>(n, 60000);
                memcpy(m_block.get() + done, pattern() + p % PERIOD, n);
            } else {
                memcpy(m_block.get() + done, g.bytes.data() + (p - g.start), n);
            }
            done += n;
        }
    }
    if (done != want) fail("harness: huge stream has a gap");
    m_position += want;
    start = m_block.get();
    return (int32_t)want;
}
int64_t HugeStream::skip(int64_t n) {
    if (m_status == Error) return -2;
    if (n <= 0) return 0;
    int64_t k = std::min(n, m_total - m_position);
    m_position += k;
    if (k < n) { m_status = Eof; m_size = m_total; }
    return k;
}
int64_t HugeStream::reset(int64_t pos) {
    if (pos < 0) { fail("harness: negative reset(%lld) of the huge stream", (long long)pos); }
    m_position = std::min(pos, m_total);
    m_status = Ok;
    return m_position;
}
static clock_t g_spent = 0;
HugeCost::HugeCost() : m_was(clock()) {
    if (g_spent * 6 > m_was) discard();
    allowCpu(60);
}
HugeCost::~HugeCost() { g_spent += clock() - m_was; }
int32_t HugeFill::fillBuffer(char* start, int32_t space) {
    if (m_done == m_total) return -1;
    int32_t n = (int32_t)std::min<int64_t>(std::min<int64_t>(space, 65536), m_total - m_done);
    memcpy(start, pattern() + m_done % PERIOD, n);
    m_done += n;
    return n;
}
int64_t genHugeSize(Choices& c, int64_t limit) {
    static const std::vector<int64_t> near = { 1ll << 31, (1ll << 31) - 512, 1ll << 32, (1ll << 32) - 512, 3ll << 30, 5ll << 30, (1ll << 32) + (1ll << 31), 1ll << 33 };
    for (int i = 0; i < 4; i++) {
        int64_t v = c.draw(3) ? c.pick(near) + c.range(0, 600) - 300 : (1ll << 31) - 600 + (int64_t)c.draw((uint64_t)std::min<int64_t>(limit - (1ll << 31), 1ll << 34));
        if (v <= limit) return v;
    }
    return std::min<int64_t>(limit, (1ll << 31) + 5);
}
void exerciseHuge(Choices& c, InputStream& s, int64_t size, int64_t origin, bool finish, const char* what, const HugeOptions& o) {
    static const std::vector<int64_t> marks = { 1ll << 31, 1ll << 32, (1ll << 31) - 1, (1ll << 32) - 1, 1ll << 30, 3ll << 31 };
    int64_t pos = 0, furthest = 0, kept = 0; // it can be rewound to 'kept'
    auto target = [&](int64_t from) -> int64_t {
        int64_t t = c.flip() ? c.pick(marks) + c.range(0, 40) - 20 : c.flip() ? size - c.size(5000) : from + (int64_t)c.draw((uint64_t)(size - from + 1));
        return std::max<int64_t>(from, std::min(t, size));
    };
    auto same = [&](const char* d, int64_t n) {
        for (int64_t i = 0; i < n; i++)
            if (d[i] != o.at(origin + pos + i))
                fail("%s: the byte at %lld is wrong", what, (long long)(pos + i));
    };
    auto check = [&]() {
        furthest = std::max(furthest, pos);
        REQUIRE(s.position() == pos, "%s: the position is %lld, %lld bytes were passed", what, (long long)s.position(), (long long)pos);
        REQUIRE(s.status() == (pos == size ? s.status() == Ok ? Ok : Eof : Ok), "%s: status %s at %lld of %lld (%s)", what, statusName(s.status()), (long long)pos, (long long)size, s.error());
        REQUIRE(s.size() == size || (s.size() == -1 && s.status() == Ok), "%s: the size is given as %lld instead of %lld", what, (long long)s.size(), (long long)size);
    };
    auto farBack = [&]() { // too far back, which may be refused
        std::vector<int64_t> reach;
        for (int64_t m : marks) if (m <= pos) reach.push_back(m);
        int64_t far = reach.size() && c.draw(4) ? c.pick(reach) + c.range(0, 400) - 200 : (int64_t)c.draw((uint64_t)pos + 1);
        int64_t t = std::max<int64_t>(0, pos - far), r = s.reset(t);
        c.note("  %s: reset(%lld) at %lld = %lld", what, (long long)t, (long long)pos, (long long)r);
        REQUIRE(r >= t && r <= pos, "%s: reset(%lld) at %lld returned %lld", what, (long long)t, (long long)pos, (long long)r);
        pos = r;
        kept = std::min(kept, pos);
        if (pos == t && t < size) { // what is there?
            const char* d;
            r = s.read(d, 1, 100);
            REQUIRE(r >= 1, "%s: read at %lld returned %lld", what, (long long)pos, (long long)r);
            same(d, r);
            kept = pos;
            pos += r;
        }
    };
    check();
    int ops = 1 + (int)c.draw(o.maxOps);
    const char* d;
    for (int i = 0; i < ops && pos < size; i++) {
        int64_t r;
        switch (c.weighted({ 3, 4, 2 })) {
        case 0: {
            int32_t min = 1 + (int32_t)c.size(3000), max = c.flip() ? 0 : min + (int32_t)c.size(3000);
            r = s.read(d, min, max);
            c.note("  %s: read(%d,%d) at %lld = %lld", what, min, max, (long long)pos, (long long)r);
            REQUIRE(r >= std::min<int64_t>(min, size - pos) && (max < min || r <= max) && r <= size - pos, "%s: read(%d,%d) at %lld returned %lld", what, min, max, (long long)pos, (long long)r);
            same(d, r);
            if (!o.full) kept = pos;
            pos += r;
            break; }
        case 1: {
            int64_t t = target(pos);
            bool over = t == size && c.chance(1, 3);
            int64_t n = t - pos + (over ? 1 + (int64_t)c.draw(1ll << 33) : 0);
            r = s.skip(n);
            c.note("  %s: skip(%lld) at %lld = %lld", what, (long long)n, (long long)pos, (long long)r);
            REQUIRE(r == t - pos, "%s: skip(%lld) at %lld of %lld returned %lld", what, (long long)n, (long long)pos, (long long)size, (long long)r);
            pos = t;
            if (!o.full && n > 0) kept = pos;
            break; }
        default: {
            if (!o.full && c.chance(1, 3)) {
                farBack();
                break;
            }
            int64_t t = o.full ? std::min(target(0), o.forward ? size : furthest) : kept + (int64_t)c.draw((uint64_t)(pos - kept + 1));
            r = s.reset(t);
            c.note("  %s: reset(%lld) at %lld = %lld", what, (long long)t, (long long)pos, (long long)r);
            REQUIRE(r == t, "%s: reset(%lld) returned %lld", what, (long long)t, (long long)r);
            pos = t; }
        }
        check();
    }
    if (!finish) return;
    int64_t from = std::max(pos, size - c.size(6000));
    if (from > pos) {
        int64_t r = s.skip(from - pos);
        c.note("  %s: skip(%lld) at %lld = %lld", what, (long long)(from - pos), (long long)pos, (long long)r);
        REQUIRE(r == from - pos, "%s: skip(%lld) at %lld of %lld returned %lld", what, (long long)(from - pos), (long long)pos, (long long)size, (long long)r);
        pos = from;
    }
    if (!o.full) {
        for (int n = (int)c.draw(4); n > 0; n--) farBack();
        check();
    }
    for (;;) {
        int32_t r = s.read(d, 1 + (int32_t)c.size(2000), 0);
        if (r < 1) { REQUIRE(r == -1, "%s: read at %lld of %lld returned %d", what, (long long)pos, (long long)size, r); break; }
        REQUIRE(r <= size - pos, "%s: read at %lld of %lld returned %d", what, (long long)pos, (long long)size, r);
        same(d, r);
        pos += r;
        check();
    }
    REQUIRE(pos == size && s.status() == Eof && s.size() == size, "%s: ends at %lld of %lld with status %s", what, (long long)pos, (long long)size, statusName(s.status()));
}
