// Encoders for the single-stream formats, independent of the library under test.
#include "formats.h"
#include "../lib/base64inputstream.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <bzlib.h>
#include <zlib.h>
using namespace Strigi;
using namespace pbt;

const char* codecName(int k) {
    static const char* n[] = { "gzip", "zlib", "raw deflate", "bzip2", "lzma", "base64" };
    return k >= 0 && k < CodecCount ? n[k] : "?";
}
uint32_t crc32Of(const Bytes& b) { return (uint32_t)crc32(crc32(0, 0, 0), (const Bytef*)b.data(), (uInt)b.size()); }

// ---- deflate family ------------------------------------------------------------
static Encoded deflateOf(Choices& c, int codec, const Bytes& plain) {
    Encoded e;
    e.codec = codec;
    e.plain = plain;
    z_stream z;
    memset(&z, 0, sizeof z);
    static const std::vector<int> levels = { 6, 0, 1, 9, 3, 5 };
    int level = c.pick(levels);
    int bits = c.flip() ? 15 : 9 + (int)c.draw(7);
    int mem = 1 + (int)c.draw(9);
    int strategy = (int)c.draw(5);
    int wbits = codec == CGzip ? bits + 16 : codec == CZlib ? bits : -bits;
    if (deflateInit2(&z, level, Z_DEFLATED, wbits, mem, strategy) != Z_OK) fail("harness: deflateInit2 failed");
    e.desc = std::string(codecName(codec)) + " level " + std::to_string(level) + " window " + std::to_string(bits) + " strategy " + std::to_string(strategy);
    gz_header h;
    memset(&h, 0, sizeof h);
    Bytes name, comment, extra;
    if (codec == CGzip && c.flip()) {
        h.text = (int)c.draw(2);
        h.time = (uLong)c.draw(0x7fffffff);
        h.os = (int)c.draw(14);
        h.hcrc = (int)c.draw(2);
        if (c.flip()) { name = genName(c, 40); h.name = (Bytef*)name.c_str(); }
        if (c.flip()) { comment = genName(c, 60); h.comment = (Bytef*)comment.c_str(); }
        if (c.flip()) { extra = genBytes(c, 300); h.extra = (Bytef*)extra.data(); h.extra_len = (uInt)extra.size(); }
        deflateSetHeader(&z, &h);
        e.desc += " header fields";
    }
    // with flushes at random places
    size_t in = 0;
    int flushes = (int)c.size(5);
    char buf[4096];
    for (int i = 0; i <= flushes; i++) {
        size_t n = i == flushes ? plain.size() - in : c.draw(plain.size() - in + 1);
        static const std::vector<int> modes = { Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH, Z_BLOCK };
        int mode = i == flushes ? Z_FINISH : c.pick(modes);
        z.next_in = (Bytef*)plain.data() + in;
        z.avail_in = (uInt)n;
        in += n;
        int r;
        do {
            z.next_out = (Bytef*)buf;
            z.avail_out = sizeof buf;
            r = deflate(&z, mode);
            e.bytes.append(buf, sizeof buf - z.avail_out);
        } while (z.avail_out == 0 || (mode == Z_FINISH && r != Z_STREAM_END));
    }
    deflateEnd(&z);
    return e;
}
static Encoded bz2Of(Choices& c, const Bytes& plain) {
    Encoded e;
    e.codec = CBz2;
    e.plain = plain;
    int block = 1 + (int)c.draw(9), work = (int)c.draw(251);
    bz_stream z;
    memset(&z, 0, sizeof z);
    if (BZ2_bzCompressInit(&z, block, 0, work) != BZ_OK) fail("harness: BZ2_bzCompressInit failed");
    e.desc = "bzip2 block size " + std::to_string(block);
    size_t in = 0;
    int flushes = c.chance(1, 3) ? (int)c.size(4) : 0; // a flush ends a block
    char buf[4096];
    for (int i = 0; i <= flushes; i++) {
        size_t n = i == flushes ? plain.size() - in : c.draw(plain.size() - in + 1);
        z.next_in = (char*)plain.data() + in;
        z.avail_in = (unsigned)n;
        in += n;
        int r;
        do {
            z.next_out = buf;
            z.avail_out = sizeof buf;
            r = BZ2_bzCompress(&z, i == flushes ? BZ_FINISH : BZ_FLUSH);
            e.bytes.append(buf, sizeof buf - z.avail_out);
        } while (i == flushes ? r != BZ_STREAM_END : r != BZ_RUN_OK);
    }
    BZ2_bzCompressEnd(&z);
    return e;
}

// ---- LZMA ------------------------------------------------------------------------
namespace {
struct RangeEncoder {
    uint64_t low = 0;
    uint32_t range = 0xffffffffu;
    uint8_t cache = 0;
    uint64_t cacheSize = 1;
    Bytes out;
    void shiftLow() {
        if ((uint32_t)low < 0xff000000u || (low >> 32) != 0) {
            uint8_t t = cache;
            do { out += (char)(uint8_t)(t + (uint8_t)(low >> 32)); t = 0xff; } while (--cacheSize != 0);
            cache = (uint8_t)((uint32_t)low >> 24);
        }
        cacheSize++;
        low = (uint64_t)((uint32_t)low << 8);
    }
    void bit(uint16_t& p, int b) {
        uint32_t bound = (range >> 11) * p;
        if (!b) { range = bound; p += (2048 - p) >> 5; }
        else { low += bound; range -= bound; p -= p >> 5; }
        while (range < (1u << 24)) { range <<= 8; shiftLow(); }
    }
    void direct(uint32_t v, int n) {
        for (int i = n - 1; i >= 0; i--) {
            range >>= 1;
            if (v >> i & 1) low += range;
            while (range < (1u << 24)) { range <<= 8; shiftLow(); }
        }
    }
    void finish() { for (int i = 0; i < 5; i++) shiftLow(); }
};
struct LzmaEncoder {
    RangeEncoder rc;
    int lc, lp, pb;
    int state = 0;
    uint32_t rep[4] = { 0, 0, 0, 0 };
    std::vector<uint16_t> lit;
    uint16_t isMatch[12][16], isRep[12], isRepG0[12], isRepG1[12], isRepG2[12], isRep0Long[12][16];
    uint16_t posSlot[4][64], posSpecial[128], align[16];
    struct Len { uint16_t choice, choice2, low[16][8], mid[16][8], high[256]; } lenMatch, lenRep;
    LzmaEncoder(int lc_, int lp_, int pb_) : lc(lc_), lp(lp_), pb(pb_), lit((size_t)0x300 << (lc_ + lp_), 1024) {
        auto init = [](void* p, size_t n) { uint16_t* q = (uint16_t*)p; for (size_t i = 0; i < n / 2; i++) q[i] = 1024; };
        init(isMatch, sizeof isMatch); init(isRep, sizeof isRep); init(isRepG0, sizeof isRepG0); init(isRepG1, sizeof isRepG1);
        init(isRepG2, sizeof isRepG2); init(isRep0Long, sizeof isRep0Long); init(posSlot, sizeof posSlot); init(posSpecial, sizeof posSpecial);
        init(align, sizeof align); init(&lenMatch, sizeof lenMatch); init(&lenRep, sizeof lenRep);
    }
    void tree(uint16_t* p, int bits, uint32_t v) {
        uint32_t m = 1;
        for (int i = bits - 1; i >= 0; i--) { int b = v >> i & 1; rc.bit(p[m], b); m = m << 1 | b; }
    }
    void treeRev(uint16_t* p, int bits, uint32_t v) {
        uint32_t m = 1;
        for (int i = 0; i < bits; i++) { int b = v >> i & 1; rc.bit(p[m], b); m = m << 1 | b; }
    }
    // len trees above index their arrays from 1; the 8-entry arrays have room for 1..7
    void len(Len& l, uint32_t n, int ps) {
        n -= 2;
        if (n < 8) { rc.bit(l.choice, 0); tree(l.low[ps], 3, n); }
        else if (n < 16) { rc.bit(l.choice, 1); rc.bit(l.choice2, 0); tree(l.mid[ps], 3, n - 8); }
        else { rc.bit(l.choice, 1); rc.bit(l.choice2, 1); tree(l.high, 8, n - 16); }
    }
    void literal(const Bytes& d, uint32_t pos) {
        int ps = pos & ((1 << pb) - 1);
        rc.bit(isMatch[state][ps], 0);
        uint8_t prev = pos ? (uint8_t)d[pos - 1] : 0, sym = (uint8_t)d[pos];
        uint16_t* p = &lit[(size_t)0x300 * (((pos & ((1 << lp) - 1)) << lc) + (prev >> (8 - lc)))];
        if (state < 7) {
            uint32_t m = 1;
            for (int i = 7; i >= 0; i--) { int b = sym >> i & 1; rc.bit(p[m], b); m = m << 1 | b; }
        } else {
            uint8_t mb = (uint8_t)d[pos - rep[0] - 1];
            uint32_t m = 1;
            bool same = true;
            for (int i = 7; i >= 0; i--) {
                int b = sym >> i & 1;
                if (same) {
                    int k = mb >> i & 1;
                    rc.bit(p[((1 + k) << 8) + m], b);
                    if (k != b) same = false;
                } else rc.bit(p[m], b);
                m = m << 1 | b;
            }
        }
        state = state < 4 ? 0 : state < 10 ? state - 3 : state - 6;
    }
    void match(uint32_t dist, uint32_t n, uint32_t pos) { // dist: distance - 1
        int ps = pos & ((1 << pb) - 1);
        rc.bit(isMatch[state][ps], 1);
        rc.bit(isRep[state], 0);
        state = state < 7 ? 7 : 10;
        len(lenMatch, n, ps);
        distance(dist, n);
        rep[3] = rep[2]; rep[2] = rep[1]; rep[1] = rep[0]; rep[0] = dist;
    }
    void distance(uint32_t dist, uint32_t n) {
        uint32_t slot;
        if (dist < 4) slot = dist;
        else { int top = 31 - __builtin_clz(dist); slot = 2 * top + (dist >> (top - 1) & 1); }
        int ls = n < 6 ? n - 2 : 3;
        tree(posSlot[ls], 6, slot);
        if (slot >= 4) {
            int foot = (slot >> 1) - 1;
            uint32_t base = (2 | (slot & 1)) << foot, red = dist - base;
            if (slot < 14) {
                uint32_t m = 1;
                for (int i = 0; i < foot; i++) { int b = red >> i & 1; rc.bit(posSpecial[base - slot + m], b); m = m << 1 | b; }
            } else {
                rc.direct(red >> 4, foot - 4);
                treeRev(align, 4, red & 15);
            }
        }
    }
    void repMatch(int which, uint32_t n, uint32_t pos) { // n == 1 and which == 0: short rep
        int ps = pos & ((1 << pb) - 1);
        rc.bit(isMatch[state][ps], 1);
        rc.bit(isRep[state], 1);
        if (which == 0) {
            rc.bit(isRepG0[state], 0);
            rc.bit(isRep0Long[state][ps], n == 1 ? 0 : 1);
        } else {
            rc.bit(isRepG0[state], 1);
            uint32_t d = rep[which];
            if (which == 1) rc.bit(isRepG1[state], 0);
            else {
                rc.bit(isRepG1[state], 1);
                rc.bit(isRepG2[state], which - 2);
                if (which == 3) rep[3] = rep[2];
                rep[2] = rep[1];
            }
            rep[1] = rep[0];
            rep[0] = d;
        }
        if (n == 1) { state = state < 7 ? 9 : 11; return; }
        len(lenRep, n, ps);
        state = state < 7 ? 8 : 11;
    }
    void endMark(uint32_t pos) { match(0xffffffffu, 2, pos); }
};
// the 14-bit posSpecial base uses indexes base - slot + m with m from 1
}
static Bytes lzmaHeader(int lc, int lp, int pb, uint32_t dic, bool known, uint64_t size) {
    Bytes h;
    h += (char)((pb * 5 + lp) * 9 + lc);
    for (int i = 0; i < 4; i++) h += (char)(dic >> (8 * i));
    if (!known) size = ~(uint64_t)0;
    for (int i = 0; i < 8; i++) h += (char)(size >> (8 * i));
    return h;
}
static uint32_t genDic(Choices& c, int64_t need) {
    // the header check wants the low byte of the size to be zero
    static const std::vector<uint32_t> sizes = { 1 << 16, 1 << 12, 1 << 13, 3 << 12, 1 << 17, 1 << 20, 1 << 23 };
    (void)need;
    return c.pick(sizes);
}
Bytes lzmaEncode(const Bytes& d, uint32_t dic, bool known, bool endMark, Choices* c) {
    (void)c;
    LzmaEncoder e(3, 0, 2);
    std::vector<int32_t> head(1 << 14, -1);
    uint32_t pos = 0, n = (uint32_t)d.size();
    while (pos < n) {
        uint32_t best = 0, dist = 0;
        if (pos + 3 <= n) {
            uint32_t h = ((uint8_t)d[pos] | (uint8_t)d[pos + 1] << 8 | (uint8_t)d[pos + 2] << 16) * 2654435761u >> 18;
            int32_t p = head[h];
            head[h] = (int32_t)pos;
            if (p >= 0 && pos - p <= dic) {
                while (best < 273 && pos + best < n && d[p + best] == d[pos + best]) best++;
                dist = pos - p - 1;
            }
        }
        int which = -1;
        uint32_t rb = 0;
        for (int i = 0; i < 4; i++) {
            if (e.rep[i] >= pos) continue;
            uint32_t k = 0, q = pos - e.rep[i] - 1;
            while (k < 273 && pos + k < n && d[q + k] == d[pos + k]) k++;
            if (k > rb) { rb = k; which = i; }
        }
        if (which >= 0 && rb >= 2 && rb + 1 >= best) { e.repMatch(which, rb, pos); pos += rb; }
        else if (best >= 3) { e.match(dist, best, pos); pos += best; }
        else if (which == 0 && rb == 1 && pos % 3 == 0) { e.repMatch(0, 1, pos); pos++; }
        else { e.literal(d, pos); pos++; }
    }
    if (endMark || !known) e.endMark(pos);
    e.rc.finish();
    return lzmaHeader(3, 0, 2, dic, known, n) + e.rc.out;
}
// content invented by random packets: every kind of packet in every state
Encoded genLzma(Choices& c, int64_t maxSize) {
    Encoded r;
    r.codec = CLzma;
    LzmaEncoder e(3, 0, 2);
    uint32_t dic = genDic(c, maxSize);
    Bytes& d = r.plain;
    int64_t target = c.size(maxSize);
    int packets = 0;
    std::set<std::string> kinds;
    Rng rng(c.draw(1 << 20));
    int textured = (int)c.draw(3);
    while ((int64_t)d.size() < target && packets < 4000) {
        uint32_t pos = (uint32_t)d.size();
        uint32_t room = (uint32_t)(target - pos);
        packets++;
        // the first packets are explicit choices, later ones follow the seed
        auto pick = [&](uint64_t n) -> uint64_t { return packets <= 40 ? c.draw(n) : rng.below(n); };
        int k = (int)pick(7);
        auto copyLen = [&](uint32_t lo) -> uint32_t {
            uint32_t n;
            switch (pick(4)) {
            case 0: n = lo + (uint32_t)pick(4); break;
            case 1: n = 8 + (uint32_t)pick(12); break;
            case 2: n = lo + (uint32_t)pick(272); break;
            default: n = 273; break;
            }
            return std::max(lo, std::min(std::min(n, room), 273u));
        };
        auto copy = [&](uint32_t dist, uint32_t n) { for (uint32_t i = 0; i < n; i++) d += d[d.size() - dist - 1]; };
        if (k == 0 || pos == 0) {
            d += textured == 0 ? (char)('a' + pick(26)) : textured == 1 ? (char)pick(256) : (char)('a' + pick(2));
            e.literal(d, pos);
            kinds.insert("literal");
        } else if (k == 1 && room >= 2) {
            uint32_t maxd = std::min(pos, dic);
            uint32_t dist;
            switch (pick(4)) {
            case 0: dist = (uint32_t)pick(std::min(maxd, 4u)); break;
            case 1: dist = (uint32_t)pick(std::min(maxd, 128u)); break;
            case 2: dist = maxd - 1; break;
            default: dist = (uint32_t)pick(maxd);
            }
            uint32_t n = copyLen(2);
            e.match(dist, n, pos);
            copy(dist, n);
            kinds.insert(n > dist + 1 ? "overlapping match" : "match");
        } else if (k == 2 && e.rep[0] < pos) {
            uint32_t dist = e.rep[0];
            e.repMatch(0, 1, pos);
            copy(dist, 1);
            kinds.insert("short rep");
        } else if (k >= 3 && room >= 2) {
            int w = k - 3;
            uint32_t dist = e.rep[w];
            if (dist >= pos || dist >= dic) continue;
            uint32_t n = copyLen(2);
            e.repMatch(w, n, pos);
            copy(dist, n);
            kinds.insert("rep" + std::to_string(w));
        }
    }
    // the header check accepts a size only if it is larger than the dictionary
    bool known = d.size() > dic && c.flip();
    bool mark = !known || c.chance(1, 3);
    if (mark) e.endMark((uint32_t)d.size());
    e.rc.finish();
    r.knownSize = known;
    r.bytes = lzmaHeader(3, 0, 2, dic, known, d.size()) + e.rc.out;
    r.desc = "lzma of " + std::to_string(packets) + " packets, dictionary " + std::to_string(dic) + (known ? ", known size" : "") + (mark ? ", end mark" : "");
    for (auto& k : kinds) c.label("lzma " + k);
    return r;
}

// ---- base64 ------------------------------------------------------------------------
Bytes base64Of(const Bytes& d) {
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    Bytes o;
    for (size_t i = 0; i < d.size(); i += 3) {
        uint32_t v = (uint8_t)d[i] << 16;
        size_t k = std::min<size_t>(3, d.size() - i);
        if (k > 1) v |= (uint8_t)d[i + 1] << 8;
        if (k > 2) v |= (uint8_t)d[i + 2];
        o += al[v >> 18];
        o += al[v >> 12 & 63];
        o += k > 1 ? al[v >> 6 & 63] : '=';
        o += k > 2 ? al[v & 63] : '=';
    }
    return o;
}
static Encoded base64Enc(Choices& c, const Bytes& plain) {
    Encoded e;
    e.codec = CBase64;
    e.plain = plain;
    Bytes b = base64Of(plain);
    int style = (int)c.draw(4);
    if (style == 0) e.bytes = b;
    else if (style == 1) { // lines
        int w = 1 + (int)c.size(100);
        const char* nl = c.flip() ? "\r\n" : "\n";
        for (size_t i = 0; i < b.size(); i += w) e.bytes += b.substr(i, w) + nl;
    } else { // other characters anywhere
        static const char junk[] = " \t\r\n-_.,:;!?*()[]{}<>#$%&'\"\\|~^`@\x01\x7f\x80\xe9\xff";
        Rng r(c.draw(1 << 16));
        int every = style == 2 ? 3 : 40;
        for (char ch : b) {
            while (r.below(every) == 0) e.bytes += junk[r.below(sizeof junk - 1)];
            e.bytes += ch;
        }
        while (r.below(3) == 0) e.bytes += junk[r.below(sizeof junk - 1)];
    }
    e.desc = "base64 style " + std::to_string(style);
    return e;
}

// ---- all ------------------------------------------------------------------------
Encoded encode(Choices& c, int codec, const Bytes& plain) {
    switch (codec) {
    case CGzip: case CZlib: case CRaw: return deflateOf(c, codec, plain);
    case CBz2: return bz2Of(c, plain);
    case CBase64: return base64Enc(c, plain);
    default: {
        Encoded e;
        e.codec = CLzma;
        e.plain = plain;
        uint32_t dic = genDic(c, plain.size());
        e.knownSize = plain.size() > dic && c.flip();
        bool mark = !e.knownSize || c.chance(1, 3);
        e.bytes = lzmaEncode(plain, dic, e.knownSize, mark, &c);
        e.desc = "lzma dictionary " + std::to_string(dic) + (e.knownSize ? ", known size" : "") + (mark ? ", end mark" : "");
        return e;
    }
    }
}
Encoded genEncoded(Choices& c, int codec, int64_t maxSize) {
    if (codec == CLzma && c.draw(3)) return genLzma(c, maxSize);
    Bytes plain = genBytes(c, maxSize);
    if (codec == CBz2 && plain.empty() && !c.chance(1, 4)) plain = "x";
    return encode(c, codec, plain);
}
InputStream* makeDecoder(int codec, InputStream* in) {
    switch (codec) {
    case CGzip: return new GZipInputStream(in, GZipInputStream::GZIPFORMAT);
    case CZlib: return new GZipInputStream(in, GZipInputStream::ZLIBFORMAT);
    case CRaw: return new GZipInputStream(in, GZipInputStream::ZIPFORMAT);
    case CBz2: return new BZ2InputStream(in);
    case CLzma: return new LZMAInputStream(in);
    default: return new Base64InputStream(in);
    }
}

// ---- several GiB -----------------------------------------------------------------
// content that repeats every PERIOD bytes, or every RUNS runs of RUN bytes
static const int64_t PERIOD = 30011, RUNS = 10007, RUN = 255;
static const Bytes& periodic() {
    static const Bytes b = [] {
        Bytes t;
        uint32_t s = 4711;
        for (int64_t i = 0; i < PERIOD; i++) { s = s * 1103515245u + 12345u; t += (char)(s >> 16); }
        return t;
    }();
    return b;
}
static char periodicAt(int64_t pos) { return periodic()[pos % PERIOD]; }
static char runsAt(int64_t pos) { // neighbouring runs differ
    int64_t r = pos / RUN % RUNS;
    return (char)((periodic()[r] & 0x7f) | (r & 1 ? 0x80 : 0));
}
static Bytes rawDeflate(const Bytes& b, int level, int flush) {
    z_stream z;
    memset(&z, 0, sizeof z);
    if (deflateInit2(&z, level, Z_DEFLATED, -15, 9, Z_DEFAULT_STRATEGY) != Z_OK) fail("harness: deflateInit2");
    Bytes out(deflateBound(&z, b.size()) + 100, 0);
    z.next_in = (Bytef*)b.data();
    z.avail_in = (uInt)b.size();
    z.next_out = (Bytef*)&out[0];
    z.avail_out = (uInt)out.size();
    deflate(&z, flush);
    out.resize(out.size() - z.avail_out);
    deflateEnd(&z);
    return out;
}
static void putInt(Bytes& b, uint32_t v, bool big) { for (int i = 0; i < 4; i++) b += (char)(v >> 8 * (big ? 3 - i : i)); }
static void hugeDeflate(HugeEncoded& e) {
    static const int64_t CHUNK = PERIOD * 1000;
    static Bytes chunk, packed;
    static uLong crc, adler;
    if (chunk.empty()) {
        for (int i = 0; i < 1000; i++) chunk += periodic();
        packed = rawDeflate(chunk, 6, Z_FULL_FLUSH);
        crc = crc32(crc32(0, 0, 0), (const Bytef*)chunk.data(), (uInt)chunk.size());
        adler = adler32(adler32(0, 0, 0), (const Bytef*)chunk.data(), (uInt)chunk.size());
    }
    uLong allCrc = crc32(0, 0, 0), allAdler = adler32(0, 0, 0);
    if (e.codec == CGzip) e.bytes = Bytes("\x1f\x8b\x08\0\0\0\0\0\0\x03", 10);
    if (e.codec == CZlib) e.bytes = "\x78\x9c";
    for (int64_t i = 0; i < e.size / CHUNK; i++) {
        e.bytes += packed;
        allCrc = crc32_combine(allCrc, crc, CHUNK);
        allAdler = adler32_combine(allAdler, adler, CHUNK);
    }
    Bytes rest = chunk.substr(0, e.size % CHUNK);
    e.bytes += rawDeflate(rest, 6, Z_FINISH);
    allCrc = crc32(allCrc, (const Bytef*)rest.data(), (uInt)rest.size());
    allAdler = adler32(allAdler, (const Bytef*)rest.data(), (uInt)rest.size());
    if (e.codec == CGzip) { putInt(e.bytes, (uint32_t)allCrc, false); putInt(e.bytes, (uint32_t)e.size, false); }
    if (e.codec == CZlib) putInt(e.bytes, (uint32_t)allAdler, true);
}
// blocks of a bzip2 stream can be put one behind the other, bit by bit
namespace {
struct Bits {
    Bytes out;
    uint64_t acc = 0;
    int n = 0;
    void put(uint64_t v, int bits) { // at most 32
        acc = acc << bits | v;
        n += bits;
        while (n >= 8) { out += (char)(acc >> (n - 8)); n -= 8; }
    }
    void copy(const Bytes& b, int64_t from, int64_t count) {
        int64_t i = from;
        while (count > 0) {
            int k = (int)std::min<int64_t>(count, 8 - i % 8);
            uint8_t v = (uint8_t)b[i / 8];
            put((uint8_t)(v << i % 8) >> (8 - k), k);
            i += k;
            count -= k;
        }
    }
};
struct BzBlock { Bytes stream; int64_t from = 32, bits = 0; uint32_t crc = 0; };
}
static uint64_t bitsAt(const Bytes& b, int64_t at, int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; i++) v = v << 1 | ((uint8_t)b[(at + i) / 8] >> (7 - (at + i) % 8) & 1);
    return v;
}
static BzBlock bzBlock(const Bytes& plain) {
    BzBlock r;
    unsigned n = (unsigned)(plain.size() + plain.size() / 50 + 1000);
    r.stream.resize(n);
    if (BZ2_bzBuffToBuffCompress(&r.stream[0], &n, (char*)plain.data(), (unsigned)plain.size(), 9, 0, 0) != BZ_OK) fail("harness: bzip2");
    r.stream.resize(n);
    r.crc = (uint32_t)bitsAt(r.stream, 32 + 48, 32);
    for (int pad = 0; pad < 8; pad++) {
        int64_t at = (int64_t)n * 8 - pad - 80;
        if (bitsAt(r.stream, at, 48) == 0x177245385090ull && bitsAt(r.stream, at + 48, 32) == r.crc) r.bits = at - 32;
    }
    if (!r.bits) fail("harness: not one bzip2 block");
    return r;
}
static void hugeBzip2(HugeEncoded& e) {
    static const int64_t CHUNK = RUN * RUNS * 17; // fits into one block
    auto content = [](int64_t n) { Bytes b((size_t)n, 0); for (int64_t i = 0; i < n; i++) b[i] = runsAt(i); return b; };
    static const BzBlock full = bzBlock(content(CHUNK));
    Bits o;
    o.out = "BZh9";
    uint32_t crc = 0;
    auto add = [&](const BzBlock& b) { o.copy(b.stream, b.from, b.bits); crc = (crc << 1 | crc >> 31) ^ b.crc; };
    for (int64_t i = 0; i < e.size / CHUNK; i++) add(full);
    if (e.size % CHUNK) add(bzBlock(content(e.size % CHUNK)));
    o.put(0x177245, 24);
    o.put(0x385090, 24);
    o.put(crc, 32);
    if (o.n) o.put(0, 8 - o.n);
    e.bytes = o.out;
}
static void hugeLzma(Choices& c, HugeEncoded& e) {
    LzmaEncoder z(3, 0, 2);
    const Bytes& d = periodic();
    int64_t pos = 0;
    for (; pos < PERIOD; pos++) z.literal(d, (uint32_t)pos);
    for (bool first = true; pos < e.size; first = false) {
        uint32_t n = (uint32_t)std::min<int64_t>(273, e.size - pos);
        if (first) z.match((uint32_t)PERIOD - 1, n, (uint32_t)pos);
        else z.repMatch(0, n, (uint32_t)pos);
        pos += n;
    }
    e.knownSize = c.flip();
    bool mark = !e.knownSize || c.flip();
    if (mark) z.endMark((uint32_t)pos);
    z.rc.finish();
    e.bytes = lzmaHeader(3, 0, 2, 1 << 16, e.knownSize, (uint64_t)e.size) + z.rc.out;
    e.desc += e.knownSize ? ", known size" : "";
    e.desc += mark ? ", end mark" : "";
}
HugeEncoded hugeEncoded(Choices& c, int codec) {
    HugeEncoded e;
    e.codec = codec;
    e.at = codec == CBz2 ? runsAt : periodicAt;
    e.size = (codec == CBz2 || c.draw(3) ? 1ll << 31 : 1ll << 32) + c.range(0, 6000) - 3000;
    e.desc = "huge " + std::string(codecName(codec));
    switch (codec) {
    case CBz2: hugeBzip2(e); break;
    case CLzma: hugeLzma(c, e); break;
    default: hugeDeflate(e);
    }
    e.desc += " of " + std::to_string(e.size);
    return e;
}
