// C08-C12: decoding of the single-stream encodings, and their damage.
#include "formats.h"
#include "huge.h"
#include "../lib/base64inputstream.h"
#include "../lib/gzipcompressstream.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <bzlib.h>
#include <lzma.h>
#include <zlib.h>
#include <algorithm>
#include <iostream>
using namespace Strigi;
using namespace pbt;

// encoded data somewhere in a stream, with other bytes before and behind
struct Placed {
    std::unique_ptr<Source> src;
    int64_t at = 0;
    Bytes behind;
    InputStream* in() const { return src->top(); }
};
static Placed place(Choices& c, const Encoded& e, bool trailing, bool quickly = false) {
    Placed p;
    Bytes before = c.flip() ? Bytes() : genBytes(c, 300);
    if (trailing && c.flip()) p.behind = c.flip() ? genBytes(c, 200) : c.flip() ? genBytes(c, 70000) : Bytes("\x1f\x8b\x08 BZh91AY&SY PK\x07\x08");
    p.at = (int64_t)before.size();
    static const std::vector<int> quick = { SrcString, SrcFile, SrcSkipping, SrcMMap };
    p.src = quickly ? genSource(c, before + e.bytes + p.behind, quick) : genAnySource(c, before + e.bytes + p.behind);
    c.note("%s: %zu bytes encoded as %zu, at %lld, %zu behind, over %s", e.desc.c_str(), e.plain.size(), e.bytes.size(), (long long)p.at, p.behind.size(),
        p.src->desc.c_str());
    if (p.at && p.in()->skip(p.at) != p.at) fail("harness: the source does not skip %lld", (long long)p.at);
    return p;
}
static int64_t codecMax(Choices& c) { return c.chance(1, 25) ? 700000 : c.chance(1, 4) ? 40000 : 2500; }

static void decodesExactly(Choices& c, const Encoded& e, bool position) {
    Placed p = place(c, e, position);
    {
        std::unique_ptr<InputStream> d(makeDecoder(e.codec, p.in()));
        REQUIRE(d->status() == Ok, "%s: a new decoder is in status %s: %s", e.desc.c_str(), statusName(d->status()), d->error());
        ContractOptions o;
        o.full = false;
        o.maxOps = 40;
        exercise(c, *d, e.plain, o, e.desc.c_str());
        if (position) {
            int64_t want = p.at + (int64_t)e.bytes.size();
            REQUIRE(p.in()->status() != Error, "the underlying stream is in error: %s", p.in()->error());
            REQUIRE(p.in()->position() == want, "%s: at its end the underlying stream is at %lld, the compressed data ends at %lld", e.desc.c_str(),
                (long long)p.in()->position(), (long long)want);
            REQUIRE(d->skip(5) <= 0 && p.in()->position() == want, "%s: skipping at the end moved the underlying stream", e.desc.c_str());
        }
    }
    if (position) requireSame(drain(*p.in(), genPlan(c)), p.behind, "the data behind the compressed data");
    if (!p.behind.empty()) c.label("data behind");
    if (e.plain.size() > 262144) c.label("more than one buffer");
}

// content of several GiB
static void decodesHuge(Choices& c, int codec, bool position) {
    HugeCost cost;
    HugeEncoded e = hugeEncoded(c, codec);
    Placed p = place(c, e, position, true);
    {
        std::unique_ptr<InputStream> d(makeDecoder(codec, p.in()));
        REQUIRE(d->status() == Ok, "%s: a new decoder is in status %s: %s", e.desc.c_str(), statusName(d->status()), d->error());
        HugeOptions o;
        o.full = false;
        o.at = e.at;
        exerciseHuge(c, *d, e.size, 0, true, e.desc.c_str(), o);
        int64_t want = p.at + (int64_t)e.bytes.size();
        if (position) REQUIRE(p.in()->position() == want, "%s: at its end the underlying stream is at %lld, the compressed data ends at %lld", e.desc.c_str(),
            (long long)p.in()->position(), (long long)want);
    }
    if (position) requireSame(drain(*p.in(), genPlan(c)), p.behind, "the data behind the compressed data");
    c.label("several GiB");
    c.nontrivial();
}

// ---- compressing ----------------------------------------------------------------
struct QuietCerr {
    std::streambuf* old;
    QuietCerr() : old(std::cerr.rdbuf(nullptr)) {}
    ~QuietCerr() { std::cerr.rdbuf(old); std::cerr.clear(); }
};
static void compresses(Choices& c) {
    QuietCerr quiet;
    Bytes plain = genBytes(c, codecMax(c));
    auto src = genAnySource(c, plain);
    int level = (int)c.draw(12) - 1;
    c.note("compressing %zu bytes at level %d over %s", plain.size(), level, src->desc.c_str());
    GZipCompressInputStream z(src->top(), level);
    Bytes out;
    ReadPlan plan = genPlan(c);
    size_t i = 0;
    int64_t guard = 0;
    bool rewound = false;
    for (;;) {
        auto q = plan.reqs[i++ % plan.reqs.size()];
        const char* d = nullptr;
        int64_t at = z.position();
        REQUIRE(at == (int64_t)out.size(), "position() is %lld after %zu bytes", (long long)at, out.size());
        int32_t n = z.read(d, q.first, q.second);
        REQUIRE(n >= -1 && z.status() != Error, "the compressing stream fails: %s", z.error());
        if (n <= 0) { REQUIRE(z.status() == Eof, "read returned %d with status %s", n, statusName(z.status())); break; }
        REQUIRE(q.second < q.first || n <= q.second, "read(%d,%d) returned %d", q.first, q.second, n);
        REQUIRE(n >= q.first || z.status() == Eof, "read(%d,%d) returned %d in the middle", q.first, q.second, n);
        if (i < 60 && c.chance(1, 4)) {
            Bytes was(d, n);
            int64_t t = at + c.range(0, n);
            REQUIRE(z.reset(t) == t, "reset(%lld) in the last read failed", (long long)t);
            REQUIRE(was == Bytes(d, n), "a reset changed the data of the last read");
            out += was.substr(0, t - at);
            rewound = true;
        } else out.append(d, n);
        REQUIRE(++guard < 40000000, "the compressed stream does not end");
    }
    REQUIRE(z.size() == (int64_t)out.size(), "size() is %lld at the end of %zu bytes", (long long)z.size(), out.size());
    z_stream s;
    memset(&s, 0, sizeof s);
    inflateInit2(&s, 15 + 32);
    s.next_in = (Bytef*)out.data();
    s.avail_in = (uInt)out.size();
    Bytes back;
    char buf[65536];
    int r = Z_OK;
    while (r == Z_OK) {
        s.next_out = (Bytef*)buf;
        s.avail_out = sizeof buf;
        r = inflate(&s, Z_NO_FLUSH);
        back.append(buf, sizeof buf - s.avail_out);
    }
    uInt left = s.avail_in;
    inflateEnd(&s);
    REQUIRE(r == Z_STREAM_END, "what the compressing stream wrote is not a complete compressed stream (zlib says %d)", r);
    REQUIRE(left == 0, "%u bytes behind the compressed stream", left);
    requireSame(back, plain, "the compressed data");
    c.label("compressed");
    if (rewound) c.label("compressed with rewinds");
    if (plain.size() > 1) c.nontrivial();
}
static void c08(Choices& c) {
    if (c.chance(1, 4000)) { decodesHuge(c, (int)c.draw(3), true); return; }
    if (c.chance(1, 6)) { compresses(c); return; }
    int codec = (int)c.draw(3);
    c.label(codecName(codec));
    decodesExactly(c, genEncoded(c, codec, codecMax(c)), true);
}
static Register r08({ "C08", c08,
    "random content compressed by zlib as gzip, zlib or raw deflate with random level, window, memory level, strategy, flush points and header fields, placed between "
    "other bytes in a random source; random reads, rewinds and skips are checked against the content, and at the end the position of and the rest in the underlying "
    "stream; one case in six compresses with the library and inflates with zlib; a few contents are of 2 to 4 GiB. Non-trivial: an operation ended inside the data and a rewind went backwards, or "
    "something was compressed", 60000, 1500000, 25, 20, 0 });

static void c09(Choices& c) {
    if (c.chance(1, 8000)) { decodesHuge(c, CBz2, true); return; }
    if (c.chance(1, 8)) { // not bzip2 at all
        Bytes junk = c.flip() ? genBytes(c, 200) : Bytes("BZh91AY&SX") + genBytes(c, 40);
        if (c.flip() && junk.size() > 10) junk = junk.substr(0, 9);
        if (junk.size() >= 10 && junk.compare(0, 2, "BZ") == 0 && (junk.compare(4, 6, "1AY&SY") == 0 || junk.compare(4, 6, "\x17\x72\x45\x38\x50\x90") == 0)) discard();
        auto src = genAnySource(c, junk);
        c.note("no bzip2: %s over %s", show(junk).c_str(), src->desc.c_str());
        {
            BZ2InputStream z(src->top());
            REQUIRE(z.status() == Error, "status %s for data without signature", statusName(z.status()));
            const char* d;
            if (c.flip()) REQUIRE(z.read(d, 1, 0) == -2, "a read without signature does not report an error");
            if (c.flip()) REQUIRE(z.reset(0) < 0 || z.position() == 0, "reset");
            if (c.flip()) z.skip(10);
            REQUIRE(z.status() == Error, "status %s for data without signature", statusName(z.status()));
        }
        requireSame(drain(*src->top(), genPlan(c)), junk, "the rejected data, handed over");
        c.label("no signature");
        c.nontrivial();
        return;
    }
    int64_t max = c.chance(1, 40) ? 450000 : codecMax(c);
    Encoded e = genEncoded(c, CBz2, max);
    if (e.plain.empty()) c.label("no data");
    decodesExactly(c, e, true);
}
static Register r09({ "C09", c09,
    "random content compressed by libbz2 with random block size, work factor and block ends, placed between other bytes in a random source; random reads, rewinds and "
    "skips are checked against the content, and at the end the position of and the rest in the underlying stream; one case in eight lacks the signature and must be "
    "rejected, leaving the source untouched. Non-trivial: an operation ended inside the data and a rewind went backwards, or a rejection", 40000, 900000, 25, 20, 0 });

// the beginning of data of a large recorded size: what is there is read
static void claimsMuch(Choices& c) {
    Bytes plain = genBytes(c, 3000);
    while (plain.size() < 1000) plain += "0123456789abcdefghijklmnopqrstuvwxyz";
    for (int doublings = (int)c.draw(10); doublings > 0; doublings--) plain += plain;
    uint64_t size = (uint64_t)genHugeSize(c, 1ll << 39);
    Bytes b = lzmaEncode(plain, 1u << (16 + c.draw(6)), true, false, &c);
    for (int i = 0; i < 8; i++) b[5 + i] = (char)(size >> 8 * i);
    auto src = genAnySource(c, b);
    c.note("%zu bytes (%zu encoded) of %lld recorded, over %s", plain.size(), b.size(), (long long)size, src->desc.c_str());
    LZMAInputStream z(src->top());
    REQUIRE(z.status() == Ok && z.size() == (int64_t)size, "status %s, size %lld", statusName(z.status()), (long long)z.size());
    // what the last few hundred bytes stand for may not be decoded yet
    const int64_t sure = (int64_t)plain.size() / 2;
    int64_t pos = 0;
    const char* d;
    while (pos < sure) {
        int32_t min = (int32_t)std::min<int64_t>(1 + c.size(3000), sure - pos);
        int32_t n = z.read(d, min, min + (int32_t)c.size(300));
        REQUIRE(n >= min, "read of %d at %lld of %zu returned %d (%s)", min, (long long)pos, plain.size(), n, z.error());
        REQUIRE(plain.compare(pos, n, d, n) == 0, "wrong bytes at %lld", (long long)pos);
        pos += n;
        REQUIRE(z.position() == pos && z.status() == Ok, "position %lld, status %s", (long long)z.position(), statusName(z.status()));
    }
    c.label("large recorded size");
    c.nontrivial();
}
static void c10(Choices& c) {
    if (c.chance(1, 60)) { claimsMuch(c); return; }
    if (c.chance(1, 2500)) { decodesHuge(c, CLzma, false); return; }
    Encoded e = genEncoded(c, CLzma, codecMax(c));
    if (c.chance(1, 8)) {
        Bytes b = e.bytes;
        int64_t size = -1;
        uint32_t dic = 0;
        switch (c.draw(5)) {
        case 0: b[c.draw(13)] = (char)c.draw(256); break;
        case 1: b.resize(c.draw(13)); break;
        case 2: for (int i = 5; i < 13; i++) b[i] = (char)c.draw(256); break;
        case 3: for (int i = 1; i < 5; i++) b[i] = (char)c.draw(256); break;
        default: b[0] = (char)c.draw(225);
        }
        if (b.size() >= 13) {
            for (int i = 3; i >= 0; i--) dic = dic << 8 | (uint8_t)b[1 + i];
            uint64_t s = 0;
            for (int i = 7; i >= 0; i--) s = s << 8 | (uint8_t)b[5 + i];
            size = (int64_t)s;
            if (dic < 4096) dic = 4096;
            if (b[0] == 0x5d && b[1] == 0 && dic <= 0x2000000 && (size == -1 || (size > (int64_t)dic && size < ((int64_t)1 << 40)))) discard();
        }
        auto src = genAnySource(c, b);
        c.note("unsupported header %s over %s", show(b.substr(0, 13)).c_str(), src->desc.c_str());
        LZMAInputStream z(src->top());
        const char* d;
        REQUIRE(z.status() == Error, "status %s for an unsupported header", statusName(z.status()));
        REQUIRE(z.read(d, 1, 0) == -2, "a read does not report the error");
        REQUIRE(z.status() == Error, "status %s for an unsupported header", statusName(z.status()));
        c.label("unsupported header");
        c.nontrivial();
        return;
    }
    if (e.knownSize) c.label("known size");
    decodesExactly(c, e, false);
}
static Register r10({ "C10", c10,
    "LZMA-alone streams from an own encoder: random packets (literals, matches at every distance, four repeated distances, short repeats, all length classes) or a "
    "greedy compression of random content, with known size or end mark; random reads, rewinds and skips are checked against the content; one case in eight has an "
    "unsupported header and must be rejected; one in 60 is the beginning of data of a large recorded size; a few contents are of 2 to 4 GiB. Non-trivial: an operation ended inside the data and a rewind went backwards, or a rejection", 25000, 1500000, 25, 20, 0 });

// ---- damage ---------------------------------------------------------------------
// what the reference decoder makes of the bytes: complete, and the data
struct Ref { bool complete = false; Bytes data; };
static Ref reference(int codec, const Bytes& in, size_t limit) {
    Ref r;
    char buf[65536];
    if (codec == CBz2) {
        bz_stream s;
        memset(&s, 0, sizeof s);
        BZ2_bzDecompressInit(&s, 0, 0);
        s.next_in = (char*)in.data();
        s.avail_in = (unsigned)in.size();
        for (;;) {
            s.next_out = buf;
            s.avail_out = sizeof buf;
            int k = BZ2_bzDecompress(&s);
            r.data.append(buf, sizeof buf - s.avail_out);
            if (k == BZ_STREAM_END) { r.complete = true; break; }
            if (k != BZ_OK || (s.avail_in == 0 && s.avail_out != 0) || r.data.size() > limit) break;
        }
        BZ2_bzDecompressEnd(&s);
        return r;
    }
    if (codec == CLzma) {
        lzma_stream s = LZMA_STREAM_INIT;
        if (lzma_alone_decoder(&s, 1ull << 30) != LZMA_OK) fail("harness: lzma_alone_decoder");
        s.next_in = (const uint8_t*)in.data();
        s.avail_in = in.size();
        for (;;) {
            s.next_out = (uint8_t*)buf;
            s.avail_out = sizeof buf;
            lzma_ret k = lzma_code(&s, LZMA_FINISH);
            r.data.append(buf, sizeof buf - s.avail_out);
            if (k == LZMA_STREAM_END) { r.complete = true; break; }
            if (k != LZMA_OK || r.data.size() > limit) break;
        }
        lzma_end(&s);
        return r;
    }
    z_stream s;
    memset(&s, 0, sizeof s);
    inflateInit2(&s, codec == CGzip ? 31 : codec == CZlib ? 15 : -15);
    s.next_in = (Bytef*)in.data();
    s.avail_in = (uInt)in.size();
    for (;;) {
        s.next_out = (Bytef*)buf;
        s.avail_out = sizeof buf;
        int k = inflate(&s, Z_NO_FLUSH);
        r.data.append(buf, sizeof buf - s.avail_out);
        if (k == Z_STREAM_END) { r.complete = true; break; }
        if (k != Z_OK || (s.avail_in == 0 && s.avail_out != 0) || r.data.size() > limit) break;
    }
    inflateEnd(&s);
    return r;
}
static void oneDamage(Choices& c, const Encoded& e, const Bytes& bad, bool cut, const char* what) {
    Ref ref = reference(e.codec, bad, 8 << 20);
    std::unique_ptr<Source> src;
    if (c.draw(4)) {
        Delivery d = genDelivery(c);
        src.reset(new Source());
        src->chunk = new ChunkStream(bad, d);
        src->owned.emplace_back(src->chunk);
        src->desc = "pieces";
    } else src = genAnySource(c, bad);
    c.note("%s: %s, %zu bytes left, reference %s with %zu bytes, over %s", e.desc.c_str(), what, bad.size(), ref.complete ? "complete" : "incomplete", ref.data.size(), src->desc.c_str());
    std::unique_ptr<InputStream> d(makeDecoder(e.codec, src->top()));
    StreamStatus st = d->status();
    Bytes got;
    if (st == Ok) {
        if (c.chance(1, 5)) { // with skipping
            int64_t n = d->skip(c.size(e.plain.size() + 20));
            if (n < 0) n = 0;
            if (d->status() == Ok || d->status() == Eof) {
                got = ref.data.substr(0, n);
                got += drain(*d, genPlan(c), &st, 16 << 20);
            }
            st = d->status();
        } else got = drain(*d, genPlan(c), &st, 16 << 20);
    }
    REQUIRE(st == Error || st == Eof, "reading ended in status %s", statusName(st));
    if (cut) {
        REQUIRE(got.size() <= e.plain.size() && e.plain.compare(0, got.size(), got) == 0, "cut data: what was delivered (%zu bytes) is no prefix of the original", got.size());
        if (st == Eof) {
            requireSame(got, e.plain, "cut data that ended cleanly");
            REQUIRE(e.codec == CLzma, "%s cut at %zu of %zu ends cleanly", e.desc.c_str(), bad.size(), e.bytes.size());
        }
    } else if (st == Eof) {
        if (e.codec == CLzma) {
            // the reference also checks the very end of the range coder
            REQUIRE(got.size() == ref.data.size(), "damaged data ended cleanly after %zu bytes, the reference decoder delivers %zu", got.size(), ref.data.size());
        } else REQUIRE(ref.complete, "damaged data ended cleanly, the reference decoder rejects it");
        requireSame(got, ref.data, "damaged data that ended cleanly");
    } else if (ref.complete && e.codec != CLzma) {
        // formats whose header this library does not accept are fine to reject
        c.label("rejected earlier than the reference");
    }
    c.evaluations++;
}
static void c11(Choices& c) {
    int codec = (int)c.draw(5);
    Encoded e = genEncoded(c, codec, c.chance(1, 30) ? 600000 : c.chance(1, 4) ? 20000 : 400);
    c.label(codecName(codec));
    c.evaluations = 0;
    int rounds = e.bytes.size() < 200 ? 6 : 2;
    for (int i = 0; i < rounds; i++) {
        size_t n = e.bytes.size();
        if (c.draw(3)) {
            size_t at;
            switch (c.draw(4)) {
            case 0: at = n - 1 - c.draw(std::min<size_t>(n, 12)); break;
            case 1: at = c.draw(std::min<size_t>(n, 30)); break;
            default: at = c.draw(n);
            }
            char what[60];
            snprintf(what, sizeof what, "cut at %zu of %zu", at, n);
            oneDamage(c, e, e.bytes.substr(0, at), true, what);
            if (at > 10) c.nontrivial();
            c.label("cut");
        } else {
            Bytes bad = e.bytes;
            size_t lo = codec == CLzma ? 13 : 0;
            if (n <= lo) continue;
            int k = 1 + (int)c.size(3);
            char what[80];
            size_t at = 0;
            for (int j = 0; j < k; j++) {
                at = lo + c.draw(n - lo);
                switch (c.draw(4)) {
                case 0: bad[at] = (char)(bad[at] ^ (1 << c.draw(8))); break;
                case 1: bad[at] = (char)c.draw(256); break;
                case 2: bad.erase(at, 1); bad += '\0'; break;
                default: bad.insert(at, 1, (char)c.draw(256)); bad.resize(n);
                }
            }
            if (bad == e.bytes) continue;
            snprintf(what, sizeof what, "%d bytes damaged, the last at %zu of %zu", k, at, n);
            oneDamage(c, e, bad, false, what);
            c.nontrivial();
            c.label("damaged");
        }
    }
}
static Register r11({ "C11", c11,
    "valid gzip, zlib, raw deflate, bzip2 and LZMA data, several times cut at a random place (biased to the first and last bytes) or with up to four bytes changed, "
    "removed or inserted, delivered on a random schedule and read or skipped with random requests. Cut: the end must be an error (LZMA: unless all data was there) after a "
    "prefix of the original. Damaged: a clean end is allowed only where zlib, libbz2 or liblzma, run on the whole input, deliver the same data. Non-trivial: cut behind the "
    "first 10 bytes, or damaged", 25000, 1200000, 25, 20, 0 });

// ---- base64 ----------------------------------------------------------------------
static void c12(Choices& c) {
    Encoded e = genEncoded(c, CBase64, codecMax(c));
    c.note("%s", show(e.bytes, 60).c_str());
    if (c.chance(1, 3)) {
        Bytes plain = e.plain, b = base64Of(plain);
        int cut = 0;
        if (c.chance(1, 4) && !b.empty()) { cut = 1 + (int)c.draw(std::min<size_t>(3, b.size())); b.resize(b.size() - cut); }
        // in a buffer of exactly its size
        std::unique_ptr<char[]> h(new char[b.size()]);
        memcpy(h.get(), b.data(), b.size());
        Bytes got = Base64InputStream::decode(h.get(), b.size());
        if (b.size() % 4) REQUIRE(got.empty(), "decode of %zu characters gives %zu bytes", b.size(), got.size());
        else requireSame(got, plain, "decode()");
        c.label("one-shot");
    }
    auto src = genAnySource(c, e.bytes);
    c.note("%s of %zu bytes over %s", e.desc.c_str(), e.plain.size(), src->desc.c_str());
    Base64InputStream d(src->top());
    ContractOptions o;
    o.full = false;
    o.maxOps = 40;
    exercise(c, d, e.plain, o, "base64");
    c.label("padding " + std::to_string((3 - e.plain.size() % 3) % 3));
    c.label(e.desc);
}
static Register r12({ "C12", c12,
    "random data encoded by an own encoder, in one line, lines of any width or with non-alphabet characters interspersed, delivered on a random schedule and read, rewound and "
    "skipped at random against the data; the one-shot function decodes the plain encoding in an exact-size buffer. Non-trivial: an operation ended inside the data and a "
    "rewind went backwards", 45000, 2000000, 25, 20, 0 });
