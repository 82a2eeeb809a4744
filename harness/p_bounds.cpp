// C39: long streams are worked through with little memory, and once.
//
// A handful of big things (encoded data, archives with a big or with many
// members, mails, SD files, plain data) is made once per process; a case reads
// one of them through a drawn source with drawn requests, and watches how much
// memory is taken meanwhile, how much the source is asked for at once and how
// much it delivers in all.
#include "formats.h"
#include "../lib/gzipcompressstream.h"
#include "../lib/mmapfileinputstream.h"
#include "../lib/skippingfileinputstream.h"
#include "../lib/skippingfileinputstream2.h"
#include <strigi/archivereader.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/inputstreamreader.h>
#include <strigi/processinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/subinputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <bzlib.h>
#include <iostream>
#include <sanitizer/allocator_interface.h>
#include <unistd.h>
#include <zlib.h>
using namespace Strigi;
using namespace pbt;

namespace {
// ---- memory --------------------------------------------------------------------
int64_t inUse = 0, peak = 0;
bool metering = false;
void onMalloc(const volatile void*, size_t n) {
    if (!metering) return;
    inUse += (int64_t)n;
    if (inUse > peak) peak = inUse;
}
void onFree(const volatile void* p) {
    if (metering && p) inUse -= (int64_t)__sanitizer_get_allocated_size(p);
}
struct Hooks { Hooks() { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); } } hooks;
struct Meter {
    Meter() { inUse = peak = 0; metering = true; }
    ~Meter() { metering = false; }
};

// ---- a source that counts --------------------------------------------------------
class Measured : public InputStream {
public:
    const Bytes& d;
    int32_t chunk;
    int64_t delivered = 0;
    int32_t asked = 0; // the most that was asked for at once
    bool whole;
    Measured(const Bytes& data, int32_t chunk_, bool known, bool whole_) : d(data), chunk(chunk_), whole(whole_) { if (known) m_size = (int64_t)d.size(); }
    int32_t read(const char*& start, int32_t min, int32_t max) {
        if (m_status == Error) return -2;
        int64_t left = (int64_t)d.size() - m_position;
        if (min < 1) min = 1;
        if (min > asked) asked = min;
        int64_t n = max >= min ? max : std::max(min, chunk);
        if (n > std::max(min, chunk)) n = std::max(min, chunk);
        if (n > left) n = left;
        start = d.data() + m_position;
        m_position += n;
        delivered += n;
        if (n < min || (whole && n == left)) { m_status = Eof; m_size = (int64_t)d.size(); }
        return n ? (int32_t)n : -1;
    }
    int64_t skip(int64_t n) {
        if (n <= 0 || m_status == Error) return 0;
        n = std::min(n, (int64_t)d.size() - m_position);
        m_position += n;
        if (m_position == (int64_t)d.size()) { m_status = Eof; m_size = m_position; }
        return n;
    }
    int64_t reset(int64_t p) {
        m_position = std::max<int64_t>(0, std::min(p, (int64_t)d.size()));
        m_status = Ok;
        return m_position;
    }
};

// ---- big things ------------------------------------------------------------------
struct Big {
    const char* name;
    Bytes bytes;
    int64_t members = 1;
    int64_t content = 0; // of all members, or decoded
};
void le(Bytes& b, uint64_t v, int n) { while (n--) { b += (char)v; v >>= 8; } }
Bytes text(int64_t n, int seed) {
    Bytes b;
    uint32_t s = 77u + (uint32_t)seed;
    while ((int64_t)b.size() < n) {
        s = s * 1103515245u + 12345u;
        b += "line " + std::to_string(s >> 8) + " of a long text, which goes on and on\n";
    }
    b.resize((size_t)n);
    return b;
}
const Bytes& longText() { static const Bytes t = text(3000000, 0); return t; }
Bytes deflated(const Bytes& d, int bits) {
    z_stream z;
    memset(&z, 0, sizeof z);
    deflateInit2(&z, 1, Z_DEFLATED, bits, 8, Z_DEFAULT_STRATEGY);
    Bytes o(deflateBound(&z, d.size()) + 64, 0);
    z.next_in = (Bytef*)d.data();
    z.avail_in = d.size();
    z.next_out = (Bytef*)&o[0];
    z.avail_out = o.size();
    deflate(&z, Z_FINISH);
    o.resize(z.total_out);
    deflateEnd(&z);
    return o;
}
void addMember(int kind, Bytes& r, int64_t i, const Bytes& d, int how, Bytes& central) {
    char h[512];
    memset(h, 0, sizeof h);
    std::string name = "member" + std::to_string(i);
    size_t start = r.size();
    switch (kind) {
    case Tar:
        snprintf(h, 100, "%s", name.c_str());
        snprintf(h + 100, 8, "0000644"); snprintf(h + 108, 8, "0000000"); snprintf(h + 116, 8, "0000000");
        snprintf(h + 124, 12, "%011llo", (unsigned long long)d.size());
        snprintf(h + 136, 12, "%011o", 1234567);
        h[156] = '0';
        memcpy(h + 257, "ustar  ", 8);
        memset(h + 148, ' ', 8);
        { unsigned sum = 0; for (int k = 0; k < 512; k++) sum += (unsigned char)h[k]; snprintf(h + 148, 8, "%06o", sum); h[155] = ' '; }
        r += Bytes(h, 512) + d;
        while (r.size() % 512) r += '\0';
        break;
    case Ar:
        snprintf(h, sizeof h, "%-16s%-12d%-6d%-6d%-8s%-10lld`\n", (name + "/").c_str(), 1234567, 0, 0, "100644", (long long)d.size());
        r += Bytes(h, 60) + d;
        if (r.size() % 2) r += '\n';
        break;
    case Cpio:
        snprintf(h, sizeof h, "070701%08x%08x%08x%08x%08x%08x%08llx%08x%08x%08x%08x%08x%08x", 1, 0100644, 0, 0, 1, 1234567, (unsigned long long)d.size(), 8, 1, 0, 0, (unsigned)name.size() + 1, 0);
        r += Bytes(h, 110) + name + '\0';
        while (r.size() % 4) r += '\0';
        r += d;
        while (r.size() % 4) r += '\0';
        break;
    case Zip: { // stored, deflated, deflated with a descriptor
        Bytes o = how ? deflated(d, -15) : d, common;
        le(common, 20, 2); le(common, how == 2 ? 8 : 0, 2); le(common, how ? 8 : 0, 2); le(common, 0x3c8f6000, 4);
        r += "PK\3\4" + common;
        le(r, how == 2 ? 0 : crc32Of(d), 4); le(r, how == 2 ? 0 : o.size(), 4); le(r, how == 2 ? 0 : d.size(), 4); le(r, name.size(), 2); le(r, 0, 2);
        r += name + o;
        if (how == 2) { r += "PK\7\10"; le(r, crc32Of(d), 4); le(r, o.size(), 4); le(r, d.size(), 4); }
        central += "PK\1\2"; le(central, 0x314, 2); central += common;
        le(central, crc32Of(d), 4); le(central, o.size(), 4); le(central, d.size(), 4); le(central, name.size(), 2);
        le(central, 0, 2); le(central, 0, 2); le(central, 0, 2); le(central, 0, 2); le(central, 0, 4); le(central, start, 4);
        central += name;
        break; }
    default:;
    }
}
Big archiveOf(int kind, int64_t members, int64_t size, int how, const char* name) {
    Big b;
    b.name = name;
    b.members = members;
    b.content = members * size;
    Bytes central, piece = longText().substr(0, (size_t)size);
    if (kind == Ar) b.bytes = "!<arch>\n";
    b.bytes.reserve((size_t)(members * (size + 700)));
    for (int64_t i = 0; i < members; i++) addMember(kind, b.bytes, i, piece, how, central);
    if (kind == Tar) b.bytes += Bytes(1024, '\0');
    if (kind == Cpio) { char h[200]; snprintf(h, sizeof h, "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 11, 0); b.bytes += Bytes(h, 110) + "TRAILER!!!" + Bytes(4, '\0'); }
    if (kind == Zip) { b.bytes += central + "PK\5\6"; b.bytes += Bytes(18, '\0'); }
    return b;
}
Big mailOf(int64_t parts, int64_t size) {
    Big b;
    b.name = parts > 1 ? "mail of many parts" : "mail with a big attachment";
    b.members = parts;
    b.content = parts * size;
    b.bytes = "From: a@b\r\nSubject: long\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=\"=edge=\"\r\n\r\n";
    Bytes code = base64Of(longText().substr(0, (size_t)size)), lines;
    for (size_t i = 0; i < code.size(); i += 76) lines += code.substr(i, 76) + "\r\n";
    for (int64_t i = 0; i < parts; i++)
        b.bytes += "--=edge=\r\nContent-Type: application/octet-stream; name=\"p" + std::to_string(i) + "\"\r\nContent-Transfer-Encoding: base64\r\n\r\n" + lines;
    b.bytes += "--=edge=--\r\n";
    return b;
}
Big sdfOf(int64_t n, int64_t size) {
    Big b;
    b.name = "SD file of many molecules";
    b.members = n;
    Bytes t = "\n  program\n\n  1  0  0  0  0  0  0  0  0  0999 V2000\n" + longText().substr(0, (size_t)size);
    for (int64_t i = 0; i < n; i++) b.bytes += "m" + std::to_string(i) + t + "M  END\n$$$$\n";
    b.content = (int64_t)b.bytes.size() - 5 * n;
    return b;
}
enum { BigGz, BigZlib, BigRaw, BigBz2, BigLzma, BigText, FirstArchive, Made = FirstArchive + 16 };
const Big& big(int k) {
    static std::unique_ptr<Big> made[Made];
    if (made[k]) return *made[k];
    Big b;
    const Bytes& t = longText();
    b.content = (int64_t)t.size();
    switch (k) {
    case BigGz: b.name = "gzip"; b.bytes = deflated(t, 31); break;
    case BigZlib: b.name = "zlib"; b.bytes = deflated(t, 15); break;
    case BigRaw: b.name = "deflate"; b.bytes = deflated(t, -15); break;
    case BigBz2: {
        b.name = "bzip2";
        Bytes tt = t + t;
        b.content = (int64_t)tt.size();
        unsigned n = (unsigned)(tt.size() + tt.size() / 50 + 1000);
        b.bytes.resize(n);
        BZ2_bzBuffToBuffCompress(&b.bytes[0], &n, &tt[0], (unsigned)tt.size(), 1, 0, 0);
        b.bytes.resize(n);
        break; }
    case BigLzma: b.name = "lzma"; b.bytes = lzmaEncode(t, 1 << 16, false, true, nullptr); break;
    case BigText: b.name = "text"; b.bytes = t; break;
    case FirstArchive + 0: b = archiveOf(Tar, 1, 3000000, 0, "tar with a big member"); break;
    case FirstArchive + 1: b = archiveOf(Tar, 3000, 700, 0, "tar of many members"); break;
    case FirstArchive + 2: b = archiveOf(Ar, 1, 3000000, 0, "ar with a big member"); break;
    case FirstArchive + 3: b = archiveOf(Ar, 3000, 700, 0, "ar of many members"); break;
    case FirstArchive + 4: b = archiveOf(Cpio, 1, 3000000, 0, "cpio with a big member"); break;
    case FirstArchive + 5: b = archiveOf(Cpio, 3000, 700, 0, "cpio of many members"); break;
    case FirstArchive + 6: b = archiveOf(Zip, 1, 3000000, 0, "zip with a big stored member"); break;
    case FirstArchive + 7: b = archiveOf(Zip, 1, 3000000, 1, "zip with a big deflated member"); break;
    case FirstArchive + 8: b = archiveOf(Zip, 1, 3000000, 2, "zip with a big member of unknown size"); break;
    case FirstArchive + 9: b = archiveOf(Zip, 3000, 700, 1, "zip of many members"); break;
    case FirstArchive + 10: b = archiveOf(Zip, 3000, 700, 2, "zip of many members of unknown size"); break;
    case FirstArchive + 11: b = mailOf(1, 3000000); break;
    case FirstArchive + 12: b = mailOf(2000, 700); break;
    case FirstArchive + 13: b = sdfOf(3000, 700); break;
    default: {
        bool one = k == FirstArchive + 14;
        b = archiveOf(Cpio, one ? 1 : 3000, one ? 3000000 : 700, 0, one ? "rpm with a big member" : "rpm of many members");
        static const char header[] = "\x8e\xad\xe8\x01\0\0\0\0\0\0\0\0\0\0\0\0";
        b.bytes = "\xed\xab\xee\xdb\x03" + Bytes(91, '\0') + Bytes(header, 16) + Bytes(header, 16) + deflated(b.bytes, 31);
        break; }
    }
    made[k].reset(new Big(std::move(b)));
    return *made[k];
}
// the same in gzip
const Bytes& packed(int k) {
    static std::unique_ptr<Bytes> made[Made];
    if (!made[k]) made[k].reset(new Bytes(deflated(big(k).bytes, 31)));
    return *made[k];
}
const int archiveKind[] = { Tar, Tar, Ar, Ar, Cpio, Cpio, Zip, Zip, Zip, Zip, Zip, Mail, Mail, Sdf, Rpm, Rpm };

struct Nothing : DataEventHandler {
    int64_t n = 0;
    bool handleData(const char*, uint32_t k) { n += k; return true; }
    void handleEnd() {}
};
// reads all of it; returns how much that was
template <class T>
int64_t readThrough(StreamBase<T>& s, const ReadPlan& p, int64_t skips) {
    int64_t got = 0;
    for (size_t i = 0; s.status() == Ok; i++) {
        if (skips && i % 3 == 2) {
            int64_t k = s.skip(skips);
            if (k > 0) got += k;
            continue;
        }
        auto q = p.reqs[i % p.reqs.size()];
        const T* d;
        int32_t n = s.read(d, q.first, q.second);
        if (n > 0) got += n;
        else if (s.status() == Ok && i > 50000000) break;
    }
    REQUIRE(s.status() == Eof, "the end is in status %s: %s", statusName(s.status()), s.error());
    return got;
}
void c39(Choices& c) {
    std::cerr.rdbuf(nullptr);
    static const std::vector<int> chunks = { 1000, 4096, 8192, 65536, 1 << 30 };
    int k = (int)c.draw(Made);
    const Big& b = big(k);
    bool pack = k > BigText && c.chance(1, 4);
    const Bytes& bytes = pack ? packed(k) : b.bytes;
    int32_t chunk = c.pick(chunks);
    // requests are not too small, for there are millions of bytes
    ReadPlan plan;
    int most = 0;
    for (int i = 1 + (int)c.draw(3); i > 0; i--) {
        int mn = 1, mx = 0;
        switch (c.draw(5)) {
        case 0: break;
        case 1: mn = mx = 500 + (int)c.draw(5000); break;
        case 2: mn = 500 + (int)c.draw(9000); break;
        case 3: mx = 1000 + (int)c.draw(100000); break;
        default: mn = 500 + (int)c.draw(3000); mx = mn + (int)c.draw(3000);
        }
        most = std::max(most, std::max(mn, mx));
        plan.reqs.push_back(std::make_pair(mn, mx));
    }
    int64_t skips = c.chance(1, 3) ? 1 + (int64_t)c.draw(200000) : 0;
    bool known = c.flip(), whole = c.flip();
    c.note("%s%s (%zu bytes), served in pieces of %d%s%s", b.name, pack ? " in gzip" : "", bytes.size(), chunk, known ? ", size known" : "", skips ? ", with skips" : "");
    for (auto& q : plan.reqs) c.note("  read(%d,%d)", q.first, q.second);
    c.label(b.name);
    std::string file;
    if (k == BigText && c.chance(1, 3)) file = writeScratchFile(b.bytes);
    int how = (int)c.draw(9);
    bool partly = c.chance(1, 3), leave = c.chance(1, 3);
    int64_t limit = 700000, got = 0, want = b.content, entries = 1;
    int64_t used, delivered = 0, asked = 0;
    {
        Meter m;
        Measured src(bytes, chunk, known, whole);
        if (!file.empty()) {
            std::unique_ptr<InputStream> f;
            switch (how % 4) {
            case 0: f.reset(new FileInputStream(file.c_str(), 20000)); break;
            case 1: f.reset(new MMapFileInputStream(file.c_str())); break;
            case 2: f.reset(new SkippingFileInputStream2(file.c_str(), 20000)); break;
            default: f.reset(new SkippingFileInputStream(file.c_str()));
            }
            got = readThrough(*f, plan, skips);
        } else if (k < BigText) {
            std::unique_ptr<InputStream> d(makeDecoder(k == BigGz ? CGzip : k == BigZlib ? CZlib : k == BigRaw ? CRaw : k == BigBz2 ? CBz2 : CLzma, &src));
            got = readThrough(*d, plan, skips);
            if (k == BigBz2) limit = 1500000;
        } else if (k == BigText) {
            switch (how) {
            case 0: { SubInputStream s(&src, known ? (int64_t)b.bytes.size() : -1); got = readThrough(s, plan, skips); break; }
            case 1: { StringTerminatedSubStream s(&src, "\nno line begins with this"); got = readThrough(s, plan, skips); break; }
            case 2: { Nothing h; DataEventInputStream s(&src, h); got = readThrough(s, plan, skips); REQUIRE(h.n == want, "%lld bytes in events", (long long)h.n); break; }
            case 3: { EncodingInputStream s(&src, "UTF-8", "UTF-16LE"); got = readThrough(s, plan, skips); want *= 2; break; }
            case 4: { InputStreamReader s(&src, "UTF-8"); got = readThrough(s, plan, skips); limit += 4 * (int64_t)most * 4; break; }
            case 5: { GZipCompressInputStream s(&src, 1); readThrough(s, plan, 0); got = want; break; }
            case 6: { ProcessInputStream s(std::vector<std::string>(1, "/bin/cat"), &src); got = readThrough(s, plan, skips); break; }
            case 7: { EncodingInputStream s(&src, "ISO-8859-1", "UTF-8"); got = readThrough(s, plan, skips); break; }
            default: { SubInputStream o(&src, -1); SubInputStream s(&o, -1); got = readThrough(s, plan, skips); }
            }
        } else {
            int kind = archiveKind[k - FirstArchive];
            std::unique_ptr<InputStream> unpacked;
            if (pack) { unpacked.reset(new GZipInputStream(&src)); limit += 300000; }
            std::unique_ptr<SubStreamProvider> p(makeProvider(kind, pack ? unpacked.get() : &src));
            entries = 0;
            while (InputStream* s = p->nextEntry()) {
                entries++;
                if (leave && (!partly || entries % 2)) {
                    if (partly) { const char* d; s->read(d, 1, 100); }
                    continue;
                }
                got += readThrough(*s, plan, skips);
            }
            REQUIRE(p->status() == Eof, "%s: the iteration ends in status %s: %s", b.name, statusName(p->status()), p->error());
            REQUIRE(entries == b.members, "%s: %lld entries", b.name, (long long)entries);
            if (leave) got = want;
        }
        delivered = src.delivered;
        asked = src.asked;
        used = peak;
    }
    REQUIRE(got == want, "%s: %lld bytes of %lld", b.name, (long long)got, (long long)want);
    limit += 4 * (int64_t)most;
    c.note("%lld bytes of memory, at most %lld asked for at once, %lld of %zu delivered", (long long)used, (long long)asked, (long long)delivered, bytes.size());
    REQUIRE(used <= limit, "%s: %lld bytes of memory were taken for it, with requests of up to %d", b.name, (long long)used, most);
    REQUIRE(asked <= limit, "%s: the source had to give %lld bytes at once, with requests of up to %d", b.name, (long long)asked, most);
    // what comes again, because it had been delivered beyond what was asked for
    if (chunk <= 65536) {
        int64_t bound = 2 * (int64_t)bytes.size() + entries * (8 * (int64_t)(chunk + most) + 8192);
        REQUIRE(delivered <= bound, "%s: the source of %zu bytes had to deliver %lld bytes", b.name, bytes.size(), (long long)delivered);
    }
    c.nontrivial();
}
Register r39({ "C39", c39,
    "big encoded data, archives with one big or thousands of members (also in gzip), rpm packages, mails, SD files, files and plain text through sub-streams, converters, the compressor, events and a command, each of several MB, from sources "
    "with pieces of 1 kB up to everything, with random requests and skips. The memory in use (allocation hooks), the most that is asked of the source at once and what it delivers in all are bounded. Non-trivial: "
    "it was read to the end", 1000, 30000, 25, 60, 0 });
}
