// C06: substring search; C14: text and number helpers
#include "common.h"
#include <strigi/kmpsearcher.h>
#include <strigi/textutils.h>
using namespace Strigi;
using namespace pbt;

// an exact heap copy, so that reading outside it is seen
struct Exact {
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Exact(const Bytes& b) : p(new char[b.size()]), n(b.size()) { memcpy(p.get(), b.data(), n); }
};

static Bytes genQuery(Choices& c) {
    Bytes q;
    switch (c.draw(7)) {
    case 0: { int n = (int)c.size(8); for (int i = 0; i < n; i++) q += "ab"[c.draw(2)]; break; }
    case 1: { int n = 1 + (int)c.size(20); Bytes u; for (int i = 1 + (int)c.draw(3); i; i--) u += "abc"[c.draw(3)]; while ((int)q.size() < n) q += u; if (c.flip()) q.resize(n); break; }
    case 2: q = Bytes(1, (char)c.draw(256)); break;
    case 3: q = genBytes(c, 40); break;
    case 4: break;
    case 5: { int n = 1 + (int)c.size(12); for (int i = 0; i < n; i++) q += (char)(c.flip() ? c.draw(256) : 0); break; }
    default: { int n = 2 + (int)c.size(c.chance(1, 10) ? 3000 : 30); int alpha = 1 + (int)c.draw(3); Rng r(c.draw(1 << 16)); for (int i = 0; i < n; i++) q += "abz"[r.below(alpha)]; break; }
    }
    return q;
}
static Bytes genHay(Choices& c, const Bytes& q) {
    Bytes h;
    int pieces = (int)c.size(12);
    for (int i = 0; i < pieces; i++) {
        switch (c.draw(6)) {
        case 0: h += q; break;
        case 1: h += q.substr(0, q.empty() ? 0 : c.draw(q.size())); break;
        case 2: h += q.substr(q.empty() ? 0 : c.draw(q.size())); break;
        case 3: for (int k = (int)c.size(20); k; k--) h += q.empty() ? 'x' : q[c.draw(q.size())]; break;
        case 4: h += genBytes(c, 60); break;
        default: { Bytes m = q; if (!m.empty()) m[c.draw(m.size())] ^= (char)(1 + c.draw(255)); h += m; }
        }
    }
    return h;
}
static void checkSearch(const KmpSearcher& s, const Bytes& q, const Bytes& hay) {
    Exact h(hay);
    if (hay.empty() && !q.empty()) REQUIRE(s.search(0, 0) == 0, "an occurrence of %s was found in nothing", show(q).c_str());
    const char* r = s.search(h.p.get(), (int32_t)h.n);
    size_t want = hay.find(q);
    long got = r ? (long)(r - h.p.get()) : -1;
    long exp = want == Bytes::npos ? -1 : (long)want;
    if (got != exp) fail("searching %s (%zu bytes) in %s (%zu bytes) found %ld, the first occurrence is at %ld", show(q, 60).c_str(), q.size(), show(hay, 100).c_str(), hay.size(), got, exp);
}
static void c06(Choices& c) {
    c.evaluations = 0;
    std::unique_ptr<KmpSearcher> s;
    Bytes q;
    if (c.flip()) {
        s.reset(new KmpSearcher);
        Exact e("abc");
        REQUIRE(s->search(e.p.get(), 3) == 0, "a searcher without a query found something");
        REQUIRE(s->queryLength() == 0, "a searcher without a query has query length %d", s->queryLength());
    } else {
        q = genQuery(c);
        s.reset(new KmpSearcher(q));
    }
    int rounds = 1 + (int)c.size(6);
    for (int i = 0; i < rounds; i++) {
        if (i || c.flip() || q.empty()) { q = genQuery(c); s->setQuery(q); }
        c.note("query %s (%zu bytes)", show(q).c_str(), q.size());
        REQUIRE(s->queryLength() == (int32_t)q.size() && s->query() == q, "query() or queryLength() differ from the query set");
        for (int k = 1 + (int)c.draw(3); k; k--) {
            Bytes hay = genHay(c, q);
            c.note("  in %s (%zu bytes)", show(hay).c_str(), hay.size());
            checkSearch(*s, q, hay);
            c.evaluations++;
            if (q.size() > 1 && hay.find(q) != Bytes::npos && hay.find(q) > 0) { c.nontrivial(); c.label("found behind the start"); }
            if (hay.find(q) == Bytes::npos) c.label("absent");
        }
        if (c.chance(1, 40)) { // all short haystacks over two letters
            int n = (int)c.draw(11);
            for (int m = 0; m < (1 << n); m++) {
                Bytes hay;
                for (int b = 0; b < n; b++) hay += "ab"[m >> b & 1];
                checkSearch(*s, q, hay);
                c.evaluations++;
            }
            c.label("all two-letter haystacks of a length");
        }
    }
}
static Register r06({ "C06", c06,
    "a searcher (re)used with a sequence of random queries (empty, one-byte, binary, periodic, self-overlapping, up to 3000 bytes) and haystacks glued "
    "from whole, partial and corrupted copies of the query, each an exact heap block; now and then all two-letter haystacks of a length up to 10. Oracle: "
    "naive first occurrence. Non-trivial: a query of two or more bytes whose first occurrence is not at the start",
    1000000, 12000000, 20, 20, 0 });

// ---- C14 -----------------------------------------------------------------------
// Table 3-7 of the Unicode standard, written independently: the number of bytes
// of the well-formed character at p, 0 if there is none
// returns -k if [p, p+n) is a proper prefix of a character that needs k bytes more (at least)
static int utf8At(const unsigned char* p, size_t n) {
    struct Row { int lo, hi, len, lo2, hi2; };
    static const Row rows[] = { { 0x00, 0x7f, 1, 0, 0 }, { 0xc2, 0xdf, 2, 0x80, 0xbf }, { 0xe0, 0xe0, 3, 0xa0, 0xbf }, { 0xe1, 0xec, 3, 0x80, 0xbf },
        { 0xed, 0xed, 3, 0x80, 0x9f }, { 0xee, 0xef, 3, 0x80, 0xbf }, { 0xf0, 0xf0, 4, 0x90, 0xbf }, { 0xf1, 0xf3, 4, 0x80, 0xbf }, { 0xf4, 0xf4, 4, 0x80, 0x8f } };
    for (const Row& r : rows) {
        if (p[0] < r.lo || p[0] > r.hi) continue;
        if (r.len == 1) return 1;
        for (int i = 1; i < r.len; i++) {
            if ((size_t)i >= n) return -(r.len - i);
            int lo = i == 1 ? r.lo2 : 0x80, hi = i == 1 ? r.hi2 : 0xbf;
            if (p[i] < lo || p[i] > hi) return 0;
        }
        return r.len;
    }
    return 0;
}
// the library validates text as XML defines it: characters XML does not allow are invalid
static bool xmlChar(const unsigned char* p, int len) {
    if (len == 1) return p[0] >= 0x20 || p[0] == 9 || p[0] == 10 || p[0] == 13;
    if (len == 3 && p[0] == 0xef && p[1] == 0xbf && p[2] >= 0xbe) return false;
    return true;
}
static void putUtf8(Bytes& b, uint32_t v) {
    if (v < 0x80) b += (char)v;
    else if (v < 0x800) { b += (char)(0xc0 | v >> 6); b += (char)(0x80 | (v & 63)); }
    else if (v < 0x10000) { b += (char)(0xe0 | v >> 12); b += (char)(0x80 | (v >> 6 & 63)); b += (char)(0x80 | (v & 63)); }
    else { b += (char)(0xf0 | v >> 18); b += (char)(0x80 | (v >> 12 & 63)); b += (char)(0x80 | (v >> 6 & 63)); b += (char)(0x80 | (v & 63)); }
}
static void checkText(Choices& c, const Bytes& text) {
    Exact t(text);
    const unsigned char* p = (const unsigned char*)t.p.get();
    size_t i = 0;
    bool bad = false, incomplete = false;
    int missing = 0;
    size_t badEnd = 0; // one behind the last byte of the offending sequence, at most
    while (i < t.n) {
        int k = utf8At(p + i, t.n - i);
        if (k > 0 && xmlChar(p + i, k)) { i += k; continue; }
        if (k < 0) { incomplete = true; missing = -k; }
        else { bad = true; badEnd = std::min(t.n, i + (k > 0 ? k : 4)); }
        break;
    }
    bool valid = !bad && !incomplete;
    bool got = checkUtf8(t.p.get(), (int32_t)t.n);
    c.note("text %s: %s", show(text).c_str(), valid ? "valid" : bad ? "invalid" : "incomplete");
    REQUIRE(got == valid, "checkUtf8 %s %s, which is %s", got ? "accepts" : "rejects", show(text).c_str(), valid ? "well-formed" : bad ? "ill-formed" : "incomplete");
    REQUIRE(checkUtf8(text) == valid, "checkUtf8(string) disagrees on %s", show(text).c_str());
    char nb = 99;
    const char* r = checkUtf8(t.p.get(), (int32_t)t.n, nb);
    if (valid) REQUIRE(r == 0 && nb == 0, "checkUtf8 reports position %ld and %d missing bytes for well-formed %s", (long)(r - t.p.get()), nb, show(text).c_str());
    if (incomplete) REQUIRE(r == t.p.get() + i && nb == missing, "checkUtf8 reports position %ld and %d missing bytes for %s, whose last character starts at %zu and lacks %d", r ? (long)(r - t.p.get()) : -1L, nb, show(text).c_str(), i, missing);
    if (bad) REQUIRE(r && nb == 0 && r >= t.p.get() + i && r < t.p.get() + badEnd, "checkUtf8 reports position %ld and %d missing bytes for %s, which is ill-formed at %zu", r ? (long)(r - t.p.get()) : -1L, nb, show(text).c_str(), i);
    nb = 99;
    const char* r2 = checkUtf8(text, nb);
    REQUIRE((r2 == 0) == (r == 0) && (!r || r2 - text.c_str() == r - t.p.get()), "checkUtf8(string, nb) disagrees on %s", show(text).c_str());
    c.label(valid ? "well-formed" : bad ? "ill-formed" : "incomplete");
    if (text.size() > 3 && i > 1) c.nontrivial();
}
static void c14(Choices& c) {
    switch (c.weighted({ 6, 3, 2, 1 })) {
    case 0: { // characters, at most one of them damaged
        Bytes t;
        static const std::vector<uint32_t> edge = { 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x110000, 0x13ffff, 9, 10, 13 };
        int n = (int)c.size(20);
        for (int i = 0; i < n; i++) {
            switch (c.draw(6)) {
            case 0: case 1: t += (char)(0x20 + c.draw(0x5f)); break;
            case 2: putUtf8(t, c.pick(edge)); break;
            case 3: { uint32_t v = (uint32_t)c.draw(0x110000); if (v >= 0xd800 && v < 0xe000) v = 0xd7ff; if (v < 0x20) v = 0x20; putUtf8(t, v); break; }
            case 4: putUtf8(t, 0x80 + (uint32_t)c.draw(0x1000)); break;
            default: t += "\t\n\r"[c.draw(3)];
            }
        }
        if (!t.empty() && c.flip()) {
            size_t at = c.draw(t.size());
            switch (c.draw(4)) {
            case 0: t[at] = (char)c.draw(256); break;
            case 1: t.erase(at, 1); break;
            case 2: t.resize(at); break;
            default: t.insert(at, 1, (char)(0x80 + c.draw(128)));
            }
        }
        checkText(c, t);
        break; }
    case 1: { // all sequences around a lead byte
        Bytes pre;
        int n = (int)c.draw(3);
        for (int i = 0; i < n; i++) pre += (char)(0x61 + c.draw(3));
        unsigned lead = c.flip() ? 0x80 + (unsigned)c.draw(128) : 0xe0 + (unsigned)c.draw(0x18);
        Bytes t = pre + (char)lead;
        static const std::vector<int> conts = { 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbe, 0xbf, 0x7f, 0xc0, 0x41, 0xc2, 0xff };
        int k = (int)c.draw(4);
        for (int i = 0; i < k; i++) t += (char)c.pick(conts);
        if (c.flip()) t += "z";
        checkText(c, t);
        break; }
    case 2: { // integers at any alignment, at the very end of a block
        uint64_t v = c.draw(3) ? c.draw(0) : (uint64_t)c.size(1 << 30);
        if (c.chance(1, 3)) v = ~v;
        int off = (int)c.draw(9);
        unsigned char le[8], be[8];
        for (int i = 0; i < 8; i++) { le[i] = (unsigned char)(v >> (8 * i)); be[7 - i] = le[i]; }
        auto check = [&](int w, bool little) {
            std::unique_ptr<char[]> b(new char[off + w]);
            memset(b.get(), 0x5a, off + w);
            memcpy(b.get() + off, little ? (char*)le : (char*)be + 8 - w, w);
            const char* p = b.get() + off;
            const unsigned char* u = (const unsigned char*)p;
            uint64_t ux = w == 8 ? v : v & ((1ull << (8 * w)) - 1);
            int64_t sx = w == 8 ? (int64_t)v : w == 4 ? (int64_t)(int32_t)v : (int64_t)(int16_t)v;
            uint64_t g1, g2;
            int64_t s1, s2;
            if (little) {
                if (w == 2) { g1 = readLittleEndianUInt16(p); g2 = readLittleEndianUInt16(u); s1 = readLittleEndianInt16(p); s2 = readLittleEndianInt16(u); }
                else if (w == 4) { g1 = readLittleEndianUInt32(p); g2 = readLittleEndianUInt32(u); s1 = readLittleEndianInt32(p); s2 = readLittleEndianInt32(u); }
                else { g1 = readLittleEndianUInt64(p); g2 = readLittleEndianUInt64(u); s1 = readLittleEndianInt64(p); s2 = readLittleEndianInt64(u); }
            } else {
                if (w == 2) { g1 = readBigEndianUInt16(p); g2 = readBigEndianUInt16(u); s1 = readBigEndianInt16(p); s2 = readBigEndianInt16(u); }
                else if (w == 4) { g1 = readBigEndianUInt32(p); g2 = readBigEndianUInt32(u); s1 = readBigEndianInt32(p); s2 = readBigEndianInt32(u); }
                else { g1 = readBigEndianUInt64(p); g2 = readBigEndianUInt64(u); s1 = readBigEndianInt64(p); s2 = readBigEndianInt64(u); }
            }
            const char* nm = little ? "little" : "big";
            REQUIRE(g1 == ux && g2 == ux, "%d-byte %s-endian unsigned %#llx was read as %#llx and %#llx", w, nm, (unsigned long long)ux, (unsigned long long)g1, (unsigned long long)g2);
            REQUIRE(s1 == sx && s2 == sx, "%d-byte %s-endian signed %lld was read as %lld and %lld", w, nm, (long long)sx, (long long)s1, (long long)s2);
        };
        for (int w : { 2, 4, 8 }) { check(w, true); check(w, false); }
        c.note("integer %#llx at offset %d", (unsigned long long)v, off);
        c.label("integers");
        if (v > 0xffffffffull) c.nontrivial();
        break; }
    default: { // line ends become spaces, everything else stays
        Bytes t;
        int n = (int)c.size(30);
        for (int i = 0; i < n; i++) {
            if (c.draw(3) == 0) t += "\r\n"[c.draw(2)];
            else { uint32_t v = c.flip() ? 0x20 + (uint32_t)c.draw(0x5f) : 0xa0 + (uint32_t)c.draw(0xfff0); if (v >= 0xd800 && v < 0xe000) v = 'x'; if (v == 0xfffe || v == 0xffff) v = 'y'; putUtf8(t, v); }
        }
        std::unique_ptr<char[]> b(new char[t.size() + 1]);
        memcpy(b.get(), t.c_str(), t.size() + 1);
        convertNewLines(b.get());
        Bytes want = t;
        for (auto& ch : want) if (ch == '\r' || ch == '\n') ch = ' ';
        REQUIRE(Bytes(b.get(), t.size()) == want && b[t.size()] == 0, "convertNewLines(%s) gave %s", show(t).c_str(), show(Bytes(b.get(), t.size())).c_str());
        c.note("newlines in %s", show(t).c_str());
        c.label("newlines");
        if (want != t) c.nontrivial();
    }
    }
}
static Register r14({ "C14", c14,
    "texts of valid characters (all edge code points) of which at most one byte is replaced, removed, inserted or cut, lead bytes with every kind of "
    "continuation, integers of all widths at every alignment at the end of an exact heap block, and line-end conversion. Oracle: the table of well-formed "
    "byte sequences of the Unicode standard with the characters XML excludes, and the encoded integer. Non-trivial: text of more than three bytes with a "
    "valid beginning, an integer above 32 bits, or a changed line end",
    2500000, 40000000, 10, 20, 0 });
