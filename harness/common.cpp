#include "common.h"
#include "../lib/skippingfileinputstream2.h"
#include <strigi/gzipinputstream.h>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <zlib.h>
using namespace Strigi;
using pbt::fail;
using pbt::show;

const char* statusName(StreamStatus s) { return s == Ok ? "Ok" : s == Eof ? "Eof" : s == Error ? "Error" : "?"; }

Bytes genBytesOfSize(Choices& c, int64_t n) {
    Bytes s((size_t)n, 'a');
    if (n == 0) return s;
    switch (c.draw(6)) {
    case 0: { // position-dependent letters: every misplacement shows
        for (int64_t i = 0; i < n; i++) s[i] = (char)('a' + (i * 7 + i / 26) % 26);
        break; }
    case 1: { // incompressible
        pbt::Rng r(c.draw(1 << 20));
        for (int64_t i = 0; i < n; i++) s[i] = (char)r.next();
        break; }
    case 2: { // small alphabet with runs
        pbt::Rng r(c.draw(1 << 16));
        char cur = 'x';
        for (int64_t i = 0; i < n; i++) { if (r.below(5) == 0) cur = "ab\n\r \0-$="[r.below(9)]; s[i] = cur; }
        break; }
    case 3: { // few explicit bytes, repeated
        int k = 1 + (int)c.draw(4);
        Bytes u;
        for (int i = 0; i < k; i++) u += (char)c.draw(256);
        for (int64_t i = 0; i < n; i++) s[i] = u[i % k];
        break; }
    case 4: { // lines of text
        pbt::Rng r(c.draw(1 << 16));
        for (int64_t i = 0; i < n; i++) s[i] = r.below(20) == 0 ? '\n' : (char)(32 + r.below(95));
        break; }
    default: { // counters
        for (int64_t i = 0; i < n; i++) s[i] = (char)(i ^ (i >> 8) ^ (i >> 16));
    }
    }
    return s;
}
Bytes genBytes(Choices& c, int64_t max) { return genBytesOfSize(c, c.size(max)); }
int64_t genSizeNear(Choices& c, const std::vector<int64_t>& b, int64_t max) {
    if (c.draw(3) && !b.empty()) {
        int64_t v = c.pick(b) + c.range(0, 6) - 3;
        return std::max<int64_t>(0, std::min(v, max));
    }
    return c.size(max);
}
std::string genName(Choices& c, int maxlen) {
    static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789_-.ABCXYZ";
    int n = 1 + (int)c.size(maxlen - 1);
    std::string s;
    for (int i = 0; i < n; i++) s += al[c.draw(i == 0 ? 26 : sizeof(al) - 1)];
    return s;
}

Delivery genDelivery(Choices& c, bool minimal) {
    Delivery d;
    int k = (int)c.draw(5);
    for (int i = 0; i < k; i++) {
        switch (c.draw(4)) {
        case 0: d.chunks.push_back(1); break;
        case 1: d.chunks.push_back(1 + (int)c.draw(16)); break;
        case 2: d.chunks.push_back(1 + (int)c.size(700)); break;
        default: d.chunks.push_back(1 + (int)c.size(70000));
        }
    }
    if (k == 0) d.chunks.push_back(0);
    d.knowSize = !c.chance(1, 2);
    d.eagerEof = c.flip();
    d.zeroAtEnd = false;
    d.farReset = !minimal || !c.chance(1, 2);
    return d;
}

ChunkStream::ChunkStream(const Bytes& data, const Delivery& d)
        : calls(0), reads(0), refusedReset(false), failed(false), servedEnd(false), furthest(0), m_data(data), m_d(d),
          m_next(0), m_buf(nullptr), m_segStart(0), m_segEnd(0) {
    if (d.knowSize) m_size = (int64_t)data.size();
}
ChunkStream::~ChunkStream() { drop(); }
void ChunkStream::drop() { delete[] m_buf; m_buf = nullptr; }
int32_t ChunkStream::read(const char*& start, int32_t min, int32_t max) {
    calls++; reads++;
    if (m_status == Error) return -2;
    int64_t left = (int64_t)m_data.size() - m_position;
    int64_t avail = left;
    if (m_d.failAt >= 0) avail = std::min<int64_t>(left, m_d.failAt - m_position);
    if (min < 1) min = 1;
    if (avail < min && m_d.failAt >= 0 && m_d.failAt < (int64_t)m_data.size()) {
        drop();
        failed = true;
        m_status = Error;
        m_error = m_d.failText;
        return -2;
    }
    if (left == 0) {
        drop();
        m_segStart = m_segEnd = m_position;
        m_status = Eof;
        m_size = m_position;
        servedEnd = true;
        return m_d.zeroAtEnd ? 0 : -1;
    }
    int64_t want = m_d.chunks[m_next++ % m_d.chunks.size()];
    if (want <= 0) want = avail;
    // for large requests a little more than asked for, so that a reader that
    // looks for the end of a line byte by byte is not slowed down without end
    if (want < min) want = min > 4096 ? (int64_t)min + min / 4 : min;
    if (max >= min && want > max) want = max;
    int64_t n = std::min<int64_t>(want, avail);
    if (n > 0x7fffffff) n = 0x7fffffff;
    char* nb = new char[n];
    memcpy(nb, m_data.data() + m_position, n);
    drop();
    m_buf = nb;
    start = nb;
    m_segStart = m_position;
    m_position += n;
    m_segEnd = m_position;
    if (m_position > furthest) furthest = m_position;
    if (m_position == (int64_t)m_data.size() && (m_d.eagerEof || n < min)) {
        m_status = Eof;
        m_size = m_position;
    }
    return (int32_t)n;
}
int64_t ChunkStream::skip(int64_t n) {
    calls++;
    if (n == 0) return 0;
    return InputStream::skip(n);
}
int64_t ChunkStream::reset(int64_t pos) {
    calls++;
    if (m_status == Error) return -2;
    if (pos >= m_segStart && pos <= m_segEnd) {
        m_position = pos;
    } else if (m_d.farReset && pos >= 0 && pos <= furthest) {
        drop();
        m_position = pos;
        m_segStart = m_segEnd = pos;
    } else {
        refusedReset = true;
        return m_position;
    }
    m_status = (m_position == (int64_t)m_data.size() && m_d.eagerEof) ? Eof : Ok;
    return m_position;
}

int32_t FillStream::fillBuffer(char* start, int32_t space) {
    int64_t left = (int64_t)m_data.size() - m_pos;
    if (left == 0) return -1;
    int64_t want = m_d.chunks[m_next++ % m_d.chunks.size()];
    if (want <= 0) want = space;
    int32_t n = (int32_t)std::min<int64_t>(std::min<int64_t>(want, space), left);
    memcpy(start, m_data.data() + m_pos, n);
    m_pos += n;
    return n;
}

std::string writeScratchFile(const Bytes& data, const std::string& name) {
    static int counter = 0;
    char b[64];
    std::string path = name;
    if (path.empty()) {
        snprintf(b, sizeof b, "/f%d.%d", (int)getpid(), counter++ % 8);
        path = pbt::scratchDir() + b;
    }
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) fail("harness: cannot write %s", path.c_str());
    size_t off = 0;
    while (off < data.size()) {
        ssize_t k = write(fd, data.data() + off, data.size() - off);
        if (k <= 0) { close(fd); pbt::discard(); }
        off += k;
    }
    close(fd);
    return path;
}
Bytes gzipOf(const Bytes& data, int level) {
    z_stream z;
    memset(&z, 0, sizeof z);
    deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
    Bytes out(deflateBound(&z, data.size()) + 64, 0);
    z.next_in = (Bytef*)data.data();
    z.avail_in = data.size();
    z.next_out = (Bytef*)&out[0];
    z.avail_out = out.size();
    deflate(&z, Z_FINISH);
    out.resize(out.size() - z.avail_out);
    deflateEnd(&z);
    return out;
}

static std::string deliveryDesc(const Delivery& d) {
    std::string s = "chunks[";
    for (int k : d.chunks) s += (s.back() == '[' ? "" : ",") + std::to_string(k);
    s += "]";
    if (d.knowSize) s += " size-known";
    if (d.eagerEof) s += " eager-eof";
    if (!d.farReset) s += " last-segment-reset";
    if (d.failAt >= 0) s += " fail-at-" + std::to_string(d.failAt);
    return s;
}

std::unique_ptr<Source> genSource(Choices& c, const Bytes& data, const std::vector<int>& kinds) {
    std::unique_ptr<Source> r(new Source);
    int kind = kinds[c.draw(kinds.size())];
    auto add = [&](InputStream* s) { r->owned.push_back(std::unique_ptr<InputStream>(s)); };
    auto chunk = [&](const Bytes& b, bool minimal) {
        Delivery d = genDelivery(c, minimal);
        ChunkStream* s = new ChunkStream(b, d);
        add(s);
        r->chunk = s;
        r->desc += deliveryDesc(d);
    };
    switch (kind) {
    case SrcString:
        add(new StringInputStream(data.data(), (int32_t)data.size(), true));
        r->desc = "string";
        break;
    case SrcStringNoCopy:
        add(new StringInputStream(data.data(), (int32_t)data.size(), false));
        r->desc = "string(no copy)";
        break;
    case SrcChunk:
        r->desc = "chunked ";
        chunk(data, false);
        break;
    case SrcFile: {
        std::string f = writeScratchFile(data);
        int bs = 1 + (int)c.size(1 << 16);
        add(FileInputStream::open(f.c_str(), FileInputStream::Buffered, bs));
        r->files.push_back(f);
        r->desc = "buffered file, buffer " + std::to_string(bs);
        break; }
    case SrcSkipping: {
        std::string f = writeScratchFile(data);
        r->files.push_back(f);
        if (c.chance(1, 3)) {
            int bs = 1 + (int)c.size(1 << 16);
            add(new SkippingFileInputStream2(f.c_str(), bs));
            r->desc = "skipping file, buffer " + std::to_string(bs);
            break;
        }
        add(FileInputStream::open(f.c_str(), c.flip() ? FileInputStream::Automatic : FileInputStream::Unbuffered));
        r->desc = "unbuffered file";
        break; }
    case SrcMMap: {
        std::string f = writeScratchFile(data);
        add(FileInputStream::open(f.c_str(), FileInputStream::MMap));
        r->files.push_back(f);
        r->desc = "mapped file";
        break; }
    case SrcSubKnown: case SrcSubUnknown: {
        Bytes pre = genBytes(c, 40);
        Bytes post = kind == SrcSubKnown ? genBytes(c, 40) : Bytes();
        r->desc = "sub-stream at " + std::to_string(pre.size()) + (kind == SrcSubKnown ? " of known length over " : " of unknown length over ");
        if (c.flip()) chunk(pre + data + post, false);
        else { Bytes all = pre + data + post; add(new StringInputStream(all.data(), (int32_t)all.size(), true)); r->desc += "string"; }
        InputStream* base = r->top();
        const char* p;
        if (!pre.empty()) {
            int32_t n = base->read(p, (int32_t)pre.size(), (int32_t)pre.size());
            if (n != (int32_t)pre.size()) fail("harness: source did not deliver its prefix");
        }
        add(new SubInputStream(base, kind == SrcSubKnown ? (int64_t)data.size() : -1));
        break; }
    case SrcFill: {
        Delivery d = genDelivery(c);
        add(new FillStream(data, d));
        r->desc = "user buffered stream " + deliveryDesc(d);
        break; }
    default: {
        Bytes z = gzipOf(data, 1 + (int)c.draw(9));
        r->desc = "gzip over ";
        chunk(z, false);
        add(new GZipInputStream(r->top()));
    }
    }
    c.label("source:" + r->desc.substr(0, r->desc.find(' ')));
    return r;
}
std::unique_ptr<Source> genAnySource(Choices& c, const Bytes& data) {
    static const std::vector<int> kinds = { SrcString, SrcChunk, SrcChunk, SrcChunk, SrcFile, SrcSkipping, SrcMMap, SrcSubKnown,
        SrcFill, SrcGzip };
    return genSource(c, data, kinds);
}

ReadPlan genPlan(Choices& c) {
    ReadPlan p;
    int k = 1 + (int)c.draw(4);
    for (int i = 0; i < k; i++) {
        int mn = 1, mx = 0;
        switch (c.draw(6)) {
        case 0: break;                                        // whatever comes
        case 1: mn = mx = 1 + (int)c.size(64); break;         // exactly
        case 2: mn = 1 + (int)c.size(64); mx = mn + (int)c.size(64); break;
        case 3: mn = 1 + (int)c.size(5000); mx = 0; break;
        case 4: mn = 1; mx = 1 + (int)c.size(100000); break;
        default: mn = 1 + (int)c.size(3000); mx = mn + (int)c.size(3000);
        }
        p.reqs.push_back(std::make_pair(mn, mx));
    }
    return p;
}
std::string describe(const ReadPlan& p) {
    std::string s;
    for (auto& r : p.reqs) s += "(" + std::to_string(r.first) + "," + std::to_string(r.second) + ")";
    return s;
}
Bytes drain(InputStream& s, const ReadPlan& p, StreamStatus* status, int64_t limit) {
    Bytes out;
    size_t i = 0;
    int64_t zero = 0;
    for (;;) {
        auto q = p.reqs[i++ % p.reqs.size()];
        const char* d = nullptr;
        int64_t before = s.position();
        int32_t n = s.read(d, q.first, q.second);
        if (n > 0) {
            if (q.second >= q.first && n > q.second) fail("read(%d,%d) returned %d items", q.first, q.second, n);
            out.append(d, n);
            if (s.position() != before + n) fail("position went from %lld to %lld on a read of %d", (long long)before, (long long)s.position(), n);
            zero = 0;
            if ((int64_t)out.size() > limit) fail("stream delivered more than %lld bytes", (long long)limit);
            continue;
        }
        if (n == 0 && s.status() == Ok) { if (++zero > 1000) fail("read keeps returning 0 with status Ok"); continue; }
        if (n < -1 && s.status() != Error) fail("read returned %d but status is %s", n, statusName(s.status()));
        if (n == -1 && s.status() == Ok) fail("read returned -1 but status is Ok");
        break;
    }
    if (status) *status = s.status();
    return out;
}
Bytes drainAll(InputStream& s, StreamStatus* status, int64_t limit) {
    ReadPlan p;
    p.reqs.push_back(std::make_pair(1, 0));
    return drain(s, p, status, limit);
}
void requireSame(const Bytes& got, const Bytes& want, const char* what) {
    if (got == want) return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t a = i > 10 ? i - 10 : 0;
    fail("%s: %zu bytes delivered, %zu expected; first difference at %zu: got ..%s expected ..%s", what, got.size(), want.size(), i,
        show(got.substr(std::min(a, got.size())), 30).c_str(), show(want.substr(std::min(a, want.size())), 30).c_str());
}

template <class T>
void exercise(Choices& c, StreamBase<T>& s, const std::basic_string<T>& e, const ContractOptions& o, const char* what) {
    const int64_t size = (int64_t)e.size();
    int64_t pos = 0, segStart = 0, segEnd = 0;
    const T* last = nullptr;  // valid pointer to [segStart, segEnd)
    bool atEndSeen = false, crossed = false, rewound = false;
    auto common = [&](const char* op) {
        if (s.status() == Error) fail("%s: status Error after %s at %lld/%lld: %s", what, op, (long long)pos, (long long)size, s.error());
        if (s.position() != pos) fail("%s: position() is %lld after %s, %lld items were passed", what, (long long)s.position(), op, (long long)pos);
        if (pos < size && s.status() != Ok) fail("%s: status %s after %s with %lld of %lld items delivered", what, statusName(s.status()), op, (long long)pos, (long long)size);
        if (o.checkSize && s.size() != -1 && s.size() != size) fail("%s: size() is %lld after %s, the real size is %lld", what, (long long)s.size(), op, (long long)size);
        if (o.after) o.after(pos);
        if (o.checkSize && s.status() == Eof && s.size() != size) fail("%s: at the end after %s size() is %lld, not %lld", what, op, (long long)s.size(), (long long)size);
    };
    auto doRead = [&](int32_t mn, int32_t mx) {
        const T* d = nullptr;
        int32_t n = s.read(d, mn, mx);
        c.note("  read(%d,%d) = %d   [%lld/%lld %s]", mn, mx, n, (long long)s.position(), (long long)size, statusName(s.status()));
        if (pos == size) {
            if (n > 0) fail("%s: read(%d,%d) returned %d items at the end (%lld)", what, mn, mx, n, (long long)size);
            if (s.status() != Eof) fail("%s: read(%d,%d) at the end returned %d with status %s", what, mn, mx, n, statusName(s.status()));
            if (n < -1) fail("%s: read at the end returned %d", what, n);
            atEndSeen = true;
            last = nullptr;
            segStart = segEnd = pos;
            common("read at the end");
            return;
        }
        if (n <= 0) fail("%s: read(%d,%d) returned %d at %lld of %lld (status %s %s)", what, mn, mx, n, (long long)pos, (long long)size, statusName(s.status()), s.error());
        if (mx >= mn && n > mx) fail("%s: read(%d,%d) returned %d items, more than max", what, mn, mx, n);
        if (n > size - pos) fail("%s: read(%d,%d) returned %d items with %lld left", what, mn, mx, n, (long long)(size - pos));
        if (n < mn && n != size - pos) fail("%s: read(%d,%d) returned only %d items with %lld left", what, mn, mx, n, (long long)(size - pos));
        if (memcmp(d, e.data() + pos, n * sizeof(T))) {
            int64_t k = 0;
            while (d[k] == e[pos + k]) k++;
            fail("%s: read(%d,%d)=%d at %lld delivered a wrong item at %lld: %#lx instead of %#lx", what, mn, mx, n, (long long)pos, (long long)(pos + k), (long)d[k], (long)e[pos + k]);
        }
        last = d;
        segStart = pos;
        pos += n;
        segEnd = pos;
        if (pos > 0 && pos < size) crossed = true;
        common("read");
    };
    int64_t nops = c.size(o.maxOps);
    for (int64_t i = 0; i < nops; i++) {
        switch (c.weighted({ 8, o.rewinds ? 5 : 0, 3, o.rewinds && o.full ? 1 : 0, o.forward ? 1 : 0 })) {
        case 0: {
            int32_t mn = 1, mx = 0;
            switch (c.draw(7)) {
            case 0: break;
            case 1: mn = mx = 1 + (int32_t)c.size(20); break;
            case 2: mn = 1 + (int32_t)c.size(30); mx = mn + (int32_t)c.size(30); break;
            case 3: mn = 1 + (int32_t)c.size(size + 10); break;
            case 4: mn = 1 + (int32_t)c.size(size); mx = mn + (int32_t)c.size(size); break;
            case 5: mn = 1; mx = 1 + (int32_t)c.size(size + 2); break;
            default: mn = 2 + (int32_t)c.size(size + 2); mx = (int32_t)c.draw(mn); // max < min: no limit
            }
            doRead(mn, mx);
            break; }
        case 1: { // rewind within the last segment read; the data stays valid
            int64_t t = segStart + (c.draw(3) ? 0 : c.range(0, segEnd - segStart));
            int64_t r = s.reset(t);
            c.note("  reset(%lld) = %lld   [%s]", (long long)t, (long long)r, statusName(s.status()));
            if (r != t) fail("%s: reset(%lld) within the last read [%lld,%lld] returned %lld (status %s)", what, (long long)t, (long long)segStart, (long long)segEnd, (long long)r, statusName(s.status()));
            if (t < pos) rewound = true;
            pos = t;
            common("reset");
            if (last && memcmp(last, e.data() + segStart, (segEnd - segStart) * sizeof(T)))
                fail("%s: data of the last read changed by a reset within it", what);
            break; }
        case 2: {
            int64_t k = c.chance(1, 12) ? ((int64_t)1 << 32) + c.range(-3, 3) : c.chance(1, 12) ? 0x7fffffff + c.range(0, 3) : c.size(size + 3);
            int64_t before = pos;
            int64_t r = s.skip(k);
            c.note("  skip(%lld) = %lld   [%lld/%lld %s]", (long long)k, (long long)r, (long long)s.position(), (long long)size, statusName(s.status()));
            int64_t want = std::min(k, size - pos);
            if (!(r == want || (pos == size && r == -1))) fail("%s: skip(%lld) at %lld of %lld returned %lld", what, (long long)k, (long long)pos, (long long)size, (long long)r);
            if (r > 0) pos += r;
            if (pos > before && pos < size) crossed = true;
            last = nullptr;
            segStart = segEnd = pos;
            common("skip");
            break; }
        case 4: { // to a position not reached yet: wherever it ends up, it tells
            int64_t t = pos + c.size(size - pos + 12);
            int64_t r = s.reset(t);
            c.note("  forward reset(%lld) = %lld   [%s]", (long long)t, (long long)r, statusName(s.status()));
            if (r < 0 || r > size || r > t) fail("%s: reset(%lld) at %lld of %lld returned %lld", what, (long long)t, (long long)pos, (long long)size, (long long)r);
            pos = r;
            last = nullptr;
            segStart = segEnd = pos;
            common("forward reset");
            break; }
        default: { // anywhere already passed
            int64_t t = c.range(0, pos);
            int64_t r = s.reset(t);
            c.note("  far reset(%lld) = %lld   [%s]", (long long)t, (long long)r, statusName(s.status()));
            if (r != t) fail("%s: reset(%lld) of a seekable stream at %lld returned %lld", what, (long long)t, (long long)pos, (long long)r);
            if (t < pos) rewound = true;
            pos = t;
            last = nullptr;
            segStart = segEnd = pos;
            common("reset");
        }
        }
    }
    if (o.finish) {
        int32_t mx = c.flip() ? 0 : 1 + (int32_t)c.size(size + 1000);
        int64_t guard = 0;
        if (mx > 0 && size / mx > 3000) mx = (int32_t)(size / 3000 + 1);
        while (pos < size) { doRead(1, mx); if (++guard > size + 10) fail("%s: no progress", what); }
        doRead(1, mx);
        if (s.status() != Eof) fail("%s: status %s after everything was delivered", what, statusName(s.status()));
        doRead(1 + (int32_t)c.draw(20), 0); // stays at the end
    }
    if (crossed && (rewound || !o.rewinds) && size > 1) c.nontrivial();
    (void)atEndSeen;
    if (rewound) c.label("rewound");
    if (size == 0) c.label("empty");
    if (size > 262144) c.label("larger than 256 KiB");
}
template void exercise<char>(Choices&, StreamBase<char>&, const std::string&, const ContractOptions&, const char*);
template void exercise<wchar_t>(Choices&, StreamBase<wchar_t>&, const std::wstring&, const ContractOptions&, const char*);
