// C13: character set decoding against the conversion of the whole text at once.
#include "common.h"
#include <strigi/encodinginputstream.h>
#include <strigi/inputstreamreader.h>
#include <cerrno>
#include <iconv.h>
using namespace Strigi;
using namespace pbt;

struct Whole { bool valid = false, incomplete = false; Bytes out; };
static Whole whole(const char* to, const char* from, const Bytes& in, bool ignoreErrors = false) {
    Whole w;
    iconv_t cd = iconv_open(to, from);
    if (cd == (iconv_t)-1) fail("harness: no conversion from %s to %s", from, to);
    std::vector<char> buf(in.size() * 16 + 64);
    char* ip = const_cast<char*>(in.data());
    size_t il = in.size();
    char* op = buf.data();
    size_t ol = buf.size();
    size_t r = iconv(cd, &ip, &il, &op, &ol);
    int err = errno;
    if (r != (size_t)-1 || ignoreErrors) { iconv(cd, nullptr, nullptr, &op, &ol); w.valid = true; }
    else w.incomplete = err == EINVAL;
    w.out.assign(buf.data(), op - buf.data());
    iconv_close(cd);
    return w;
}
static const std::vector<const char*>& charsets() {
    static std::vector<const char*> v;
    if (v.empty()) {
        static const char* all[] = { "UTF-8", "ISO-8859-1", "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32", "UTF-32LE", "UTF-32BE", "UCS-2", "UCS-2LE", "UCS-2BE", "UCS-4", "UCS-4LE",
            "US-ASCII", "ISO-8859-2", "ISO-8859-5", "ISO-8859-7", "ISO-8859-15", "WINDOWS-1250", "WINDOWS-1251", "WINDOWS-1252", "WINDOWS-1255", "WINDOWS-1258", "TCVN",
            "KOI8-R", "KOI8-U", "IBM437", "IBM850", "MACINTOSH", "SHIFT_JIS", "CP932", "EUC-JP", "ISO-2022-JP", "ISO-2022-JP-2", "ISO-2022-KR", "EUC-KR", "JOHAB", "UHC", "GB2312",
            "GBK", "GB18030", "ISO-2022-CN", "HZ", "BIG5", "BIG5-HKSCS", "EUC-TW", "UTF-7", "EUC-JISX0213", "SHIFT_JISX0213", "IBM037", "IBM930", "T.61-8BIT", "ISO_6937", "ARMSCII-8" };
        for (const char* a : all) {
            iconv_t cd = iconv_open(a, "UTF-8"), ce = iconv_open("UTF-8", a), cf = iconv_open("WCHAR_T", a);
            if (cd != (iconv_t)-1 && ce != (iconv_t)-1 && cf != (iconv_t)-1) v.push_back(a);
            if (cd != (iconv_t)-1) iconv_close(cd);
            if (ce != (iconv_t)-1) iconv_close(ce);
            if (cf != (iconv_t)-1) iconv_close(cf);
        }
    }
    return v;
}
static void put(Bytes& s, uint32_t u) {
    if (u < 0x80) s += (char)u;
    else if (u < 0x800) { s += (char)(0xc0 | u >> 6); s += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { s += (char)(0xe0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
    else { s += (char)(0xf0 | u >> 18); s += (char)(0x80 | (u >> 12 & 63)); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
}
static Bytes genText(Choices& c, int64_t chars) {
    struct R { uint32_t lo, hi; };
    static const R ranges[] = { { 0x20, 0x7e }, { 0xa1, 0xff }, { 0x100, 0x17f }, { 0x391, 0x3c9 }, { 0x410, 0x44f }, { 0x5d0, 0x5ea }, { 0x300, 0x323 }, { 0x3041, 0x3093 },
        { 0x30a1, 0x30f6 }, { 0x4e00, 0x9fa5 }, { 0xac00, 0xd7a3 }, { 0x10000, 0x10400 }, { 0x1f600, 0x1f64f }, { 0x20000, 0x20200 }, { 0xff61, 0xff9f }, { 0x2500, 0x2570 },
        { 0x1ea0, 0x1ef9 }, { 0xb83, 0xbcd }, { 9, 10 }, { 0x2010, 0x2026 } };
    const int nr = sizeof ranges / sizeof *ranges;
    int a[3] = { (int)c.draw(nr), (int)c.draw(nr), (int)c.draw(nr) };
    Rng r(c.draw(1 << 20));
    Bytes s;
    for (int64_t i = 0; i < chars; i++) {
        const R& q = ranges[r.below(6) == 0 ? r.below(nr) : a[r.below(3)]];
        put(s, q.lo + (uint32_t)r.below(q.hi - q.lo + 1));
    }
    return s;
}
template <class T>
static void wholeText(Choices& c, StreamBase<T>& s, const std::basic_string<T>& want, const char* what) {
    ContractOptions o;
    o.full = false;
    o.maxOps = 40;
    exercise(c, s, want, o, what);
}
// everything a stream delivers until it stops
template <class T>
static std::basic_string<T> all(Choices& c, StreamBase<T>& s) {
    std::basic_string<T> out;
    ReadPlan p = genPlan(c);
    for (size_t i = 0;; i++) {
        auto q = p.reqs[i % p.reqs.size()];
        const T* d;
        int32_t n = s.read(d, q.first, q.second);
        if (n <= 0) break;
        REQUIRE(q.second < q.first || n <= q.second, "read(%d,%d) returned %d", q.first, q.second, n);
        if (c.chance(1, 10)) { // rewind into it
            int64_t t = s.position() - c.range(0, n);
            int64_t k = n - (s.position() - t);
            REQUIRE(s.reset(t) == t, "reset into the last read failed");
            n = (int32_t)k;
        }
        out.append(d, n);
        REQUIRE(out.size() < (1u << 24), "the stream does not end");
        if (i > 2000000) fail("the stream does not end");
    }
    return out;
}
static void c13(Choices& c) {
    const char* cs = c.pick(charsets());
    if (c.chance(1, 60)) { // unknown character set
        Bytes data = genBytes(c, 100);
        StringInputStream in(data.data(), (int32_t)data.size(), true);
        std::string name = "no-such-" + genName(c);
        const char* d;
        const wchar_t* w;
        if (c.flip()) {
            EncodingInputStream e(&in, name.c_str());
            REQUIRE(e.status() == Error && e.read(d, 1, 0) == -2, "an unknown character set gives status %s", statusName(e.status()));
        } else if (c.flip()) {
            EncodingInputStream e(&in, nullptr);
            REQUIRE(e.status() == Error && e.read(d, 1, 0) == -2, "no character set gives status %s", statusName(e.status()));
        } else {
            InputStreamReader e(&in, name.c_str());
            REQUIRE(e.status() == Error && e.read(w, 1, 0) == -2, "an unknown character set gives status %s", statusName(e.status()));
        }
        c.label("unknown character set");
        c.nontrivial();
        return;
    }
    Bytes utf8 = genText(c, c.size(c.chance(1, 20) ? 90000 : c.chance(1, 3) ? 2000 : 150));
    Bytes enc = whole((std::string(cs) + "//IGNORE").c_str(), "UTF-8", utf8, true).out;
    bool damaged = false;
    if (c.chance(1, 4) && !enc.empty()) {
        damaged = true;
        int k = (int)c.draw(3);
        if (k == 0) enc.resize(enc.size() - 1 - c.draw(std::min<size_t>(enc.size(), 6)));
        else if (k == 1) for (int i = (int)c.draw(3); i >= 0; i--) enc[c.draw(enc.size())] = (char)c.draw(256);
        else enc.insert(c.draw(enc.size() + 1), genBytes(c, 4));
    }
    bool wide = c.flip();
    Whole want = whole(wide ? "WCHAR_T" : "UTF-8", cs, enc);
    auto src = genAnySource(c, enc);
    c.label(cs);
    c.label(wide ? "to wide characters" : "to UTF-8");
    c.note("%zu bytes of %s to %s over %s: %s %s", enc.size(), cs, wide ? "wide characters" : "UTF-8", src->desc.c_str(), want.valid ? "valid" : want.incomplete ? "incomplete" : "invalid",
        show(enc, 60).c_str());
    if (wide) {
        std::wstring w((const wchar_t*)want.out.data(), want.out.size() / sizeof(wchar_t));
        InputStreamReader r(src->top(), !strcmp(cs, "UTF-8") && c.flip() ? nullptr : cs);
        REQUIRE(r.status() == Ok, "status %s of a new reader: %s", statusName(r.status()), r.error());
        if (want.valid) wholeText(c, r, w, cs);
        else {
            std::wstring got = all(c, r);
            REQUIRE(got.size() <= w.size() && w.compare(0, got.size(), got) == 0, "%s: what was delivered before the error is no prefix of the valid characters", cs);
            REQUIRE(r.status() == Error, "%s: invalid text ends in status %s", cs, statusName(r.status()));
        }
    } else {
        EncodingInputStream r(src->top(), cs, c.flip() ? nullptr : "UTF-8");
        REQUIRE(r.status() == Ok, "status %s of a new stream: %s", statusName(r.status()), r.error());
        if (want.valid) wholeText(c, r, want.out, cs);
        else {
            Bytes got = all(c, r);
            REQUIRE(got.size() <= want.out.size() && want.out.compare(0, got.size(), got) == 0, "%s: what was delivered before the error (%zu bytes) is no prefix of the valid characters", cs, got.size());
            REQUIRE(r.status() == Error, "%s: invalid text ends in status %s", cs, statusName(r.status()));
        }
    }
    if (!want.valid) { c.nontrivial(); c.label(want.incomplete ? "ends inside a character" : "invalid"); }
    if (damaged && want.valid) c.label("damaged but valid");
}
static Register r13({ "C13", c13,
    "random text over 20 scripts in one of 54 character sets, some of it then cut, changed or extended, delivered on a random schedule, read through the converter to UTF-8 or "
    "the reader to wide characters with random requests, rewinds and skips, against one iconv call over the whole text. Non-trivial: an operation ended inside the text and a "
    "rewind went backwards, or the text was invalid", 100000, 2500000, 25, 20, 0 });
