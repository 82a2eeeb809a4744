// C40: what a reader does not support is refused, not misread
#include "formats.h"
#include <strigi/archivereader.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <bzlib.h>
#include <zlib.h>
#include <algorithm>
using namespace Strigi;
using namespace pbt;

static void set16(Bytes& b, size_t at, unsigned v) { b[at] = (char)v; b[at + 1] = (char)(v >> 8); }
static void set32(Bytes& b, size_t at, uint32_t v) { set16(b, at, v & 0xffff); set16(b, at + 2, v >> 16); }
static unsigned get16(const Bytes& b, size_t at) { return (uint8_t)b[at] | (uint8_t)b[at + 1] << 8; }
static Bytes scrambled(Choices& c, Bytes b) {
    Rng r(c.draw(1 << 20));
    for (char& ch : b) ch = (char)(ch ^ (char)r.below(256));
    return b;
}
static bool zipForm(Choices& c, Archive& a, size_t k, std::string& what) {
    const Entry& e = a.entries[k];
    const size_t h = (size_t)e.headerStart;
    Bytes data = a.bytes.substr(e.dataStart, e.dataEnd - e.dataStart);
    const unsigned flags = get16(a.bytes, h + 6);
    const bool stored = get16(a.bytes, h + 8) == 0;
    Bytes head = a.bytes.substr(0, e.dataStart), tail = a.bytes.substr(e.dataEnd);
    switch (c.draw(4)) {
    case 0: { // encrypted: 12 bytes in front
        what = stored ? "stored and encrypted" : "deflated and encrypted";
        set16(head, h + 6, flags | 1 | (c.chance(1, 6) ? 64 : 0));
        data = scrambled(c, Bytes(12, 0) + data);
        break; }
    case 1: {
        static const std::vector<int> methods = { 12, 1, 2, 6, 9, 10, 14, 16, 18, 19, 93, 95, 96, 97, 98, 99, 65535, 0x100, 0x108 };
        int m = c.pick(methods);
        set16(head, h + 8, (unsigned)m);
        if (m == 12 && !e.content.empty()) {
            unsigned n = (unsigned)(e.content.size() * 2 + 1000);
            data.assign(n, 0);
            if (BZ2_bzBuffToBuffCompress(&data[0], &n, (char*)e.content.data(), (unsigned)e.content.size(), 1, 0, 0) != BZ_OK) fail("harness: bzip2");
            data.resize(n);
        } else data = c.flip() ? genBytes(c, 3000) : scrambled(c, e.content);
        what = "method " + std::to_string(m);
        break; }
    case 2: { // stored, with the sizes behind the data
        if (!stored || e.type != EntryInfo::File) return false;
        what = "stored with descriptor";
        set16(head, h + 6, flags | 8);
        Bytes d(16, 0);
        set32(d, 0, 0x08074b50);
        set32(d, 4, crc32Of(e.content));
        set32(d, 8, (uint32_t)e.content.size());
        set32(d, 12, (uint32_t)e.content.size());
        tail = d.substr(c.flip() ? 0 : 4) + tail;
        if (c.draw(4)) { set32(head, h + 14, 0); set32(head, h + 18, 0); set32(head, h + 22, 0); }
        a.bytes = head + data + tail;
        return true; }
    default: { // sizes in a zip64 field
        if (flags & 8) return false;
        what = "zip64";
        Bytes x(20, 0);
        set16(x, 0, 1);
        set16(x, 2, 16);
        set32(x, 4, (uint32_t)e.content.size());
        set32(x, 12, (uint32_t)data.size());
        unsigned was = get16(head, h + 28);
        if (was > 60000) return false;
        set16(head, h + 28, was + 20);
        set32(head, h + 18, 0xffffffffu);
        set32(head, h + 22, 0xffffffffu);
        a.bytes = head + x + data + tail;
        return true; }
    }
    if (!(flags & 8) || c.chance(1, 4)) set32(head, h + 18, (uint32_t)data.size());
    a.bytes = head + data + tail;
    return true;
}
static bool tarForm(Choices& c, Archive& a, size_t k, std::string& what) {
    const Entry& e = a.entries[k];
    const size_t h = (size_t)e.headerStart;
    if (e.size < 0) return false;
    auto wide = [&](size_t at, uint64_t v, int sign) {
        for (int i = 0; i < 12; i++) a.bytes[h + at + 11 - i] = (char)(i < 8 ? v >> 8 * i : sign < 0 ? 255 : 0);
        if (sign >= 0) a.bytes[h + at] = (char)0x80;
    };
    switch (c.draw(3)) {
    case 0: what = "binary size"; wide(124, (uint64_t)e.size, 1); break;
    case 1: what = "binary time"; wide(136, c.draw(1ull << 40), 1); break;
    default: what = "time before 1970"; wide(136, (uint64_t)-1 - c.draw(1ull << 40), -1); break;
    }
    for (int i = 0; i < 8; i++) a.bytes[h + 148 + i] = ' ';
    unsigned sum = 0;
    for (int i = 0; i < 512; i++) sum += (uint8_t)a.bytes[h + i];
    char f[9];
    snprintf(f, sizeof f, "%06o", sum);
    memcpy(&a.bytes[h + 148], f, 7);
    return true;
}
static bool otherForm(Choices& c, Archive& a, size_t& k, std::string& what) {
    switch (a.kind) {
    case Zip: return zipForm(c, a, k, what);
    case Tar: return tarForm(c, a, k, what);
    case Cpio: {
        static const std::vector<Bytes> magics = { "070702", "070707", Bytes("\xc7\x71\x00\x00\x00\x01", 6), Bytes("\x71\xc7\x00\x00\x00\x01", 6) };
        int form = (int)c.draw(4);
        if (form > 1) { // throughout in another form
            Bytes all;
            auto add = [&](const Bytes& name, const Bytes& data, int64_t mtime) {
                char h[100];
                if (form == 2) {
                    snprintf(h, sizeof h, "070707%06o%06o%06o%06o%06o%06o%06o%011llo%06o%011llo", (int)c.draw(999), (int)c.draw(999), 0100644, 0, 0, 1, 0, (long long)(mtime & 077777777777ll),
                        (int)name.size() + 1, (long long)data.size());
                    all += h + name + Bytes(1, 0) + data;
                } else {
                    uint16_t n[13] = { 070707, 1, 2, 0100644, 0, 0, 1, 0, (uint16_t)(mtime >> 16), (uint16_t)mtime, (uint16_t)(name.size() + 1), (uint16_t)(data.size() >> 16), (uint16_t)data.size() };
                    all.append((const char*)n, 26);
                    all += name + Bytes(1 + (name.size() + 1) % 2, 0) + data + Bytes(data.size() % 2, 0);
                }
            };
            for (const Entry& e : a.entries) add(e.name, e.content, e.mtime);
            add("TRAILER!!!", "", 0);
            a.bytes = all + Bytes(c.draw(512), 0);
            k = 0;
            what = form == 2 ? "cpio in octal" : "cpio in binary";
            return true;
        }
        Bytes m = c.pick(magics);
        what = "cpio variant " + show(m);
        a.bytes.replace(a.entries[k].headerStart, 6, m);
        return true; }
    case Ole:
        k = 0;
        return true;
    case Ar:
        k = 0;
        what = "thin archive";
        a.bytes.replace(0, 8, "!<thin>\n");
        return true;
    case Rpm: {
        k = 0;
        Bytes payload = a.bytes.substr(a.endOfEntries);
        switch (c.draw(4)) {
        case 0: what = "xz payload"; payload = Bytes("\xfd" "7zXZ\0", 6) + scrambled(c, payload); break;
        case 1: what = "zstd payload"; payload = "\x28\xb5\x2f\xfd" + scrambled(c, payload); break;
        case 2: { // not compressed
            what = "plain payload";
            GenOpts o;
            o.plain = true;
            payload = genArchive(c, Cpio, o).bytes;
            break; }
        default: what = "lzma payload with a large dictionary"; payload = lzmaEncode(genBytes(c, 500), 0x4000000, false, true, &c);
        }
        a.bytes = a.bytes.substr(0, a.endOfEntries) + payload;
        return true; }
    }
    return false;
}
static void otherStream(Choices& c) {
    Bytes b;
    std::string what;
    int codec = CGzip;
    Bytes plain = genBytes(c, 2000);
    switch (c.draw(5)) {
    case 0: { // reserved flags, or encrypted
        b = encode(c, CGzip, plain).bytes;
        b[3] = (char)(b[3] | 0x20 << c.draw(3));
        what = "gzip with unknown flags";
        break; }
    case 1: {
        b = encode(c, CGzip, plain).bytes;
        int m = (int)c.draw(256);
        if (m == 8) discard();
        b[2] = (char)m;
        what = "gzip with another method";
        break; }
    case 2: {
        codec = CZlib;
        z_stream z;
        memset(&z, 0, sizeof z);
        deflateInit(&z, 6);
        Bytes dict = genBytes(c, 500) + "x";
        deflateSetDictionary(&z, (const Bytef*)dict.data(), (uInt)dict.size());
        b.resize(deflateBound(&z, plain.size()) + 100);
        z.next_in = (Bytef*)plain.data();
        z.avail_in = (uInt)plain.size();
        z.next_out = (Bytef*)&b[0];
        z.avail_out = (uInt)b.size();
        if (deflate(&z, Z_FINISH) != Z_STREAM_END) fail("harness: deflate");
        b.resize(z.total_out);
        deflateEnd(&z);
        what = "zlib with a preset dictionary";
        break; }
    case 3: {
        codec = CZlib;
        b = encode(c, CZlib, plain).bytes;
        unsigned cmf = c.flip() ? 0x88 + 0x10 * (unsigned)c.draw(8) : 0x70 | (unsigned)c.draw(16);
        if ((cmf & 15) == 8 && cmf >> 4 <= 7) discard();
        b[0] = (char)cmf;
        b[1] = (char)(31 - cmf * 256 % 31); // the check of the header is right
        what = "zlib with another window or method";
        break; }
    default: {
        codec = CBz2;
        b = encode(c, CBz2, plain + "x").bytes;
        if (c.flip()) b[2] = '0';
        else b[3] = c.flip() ? '0' : (char)(':' + c.draw(40));
        what = "bzip2 of another version or block size";
        break; }
    }
    auto src = genAnySource(c, b);
    c.note("%s: %s, over %s", what.c_str(), show(b.substr(0, 16)).c_str(), src->desc.c_str());
    std::unique_ptr<InputStream> d(makeDecoder(codec, src->top()));
    StreamStatus st = d->status();
    Bytes got;
    if (st == Ok) got = drain(*d, genPlan(c), &st);
    REQUIRE(st == Error || (st == Eof && got == plain), "%s: ends in status %s after %zu bytes", what.c_str(), statusName(st), got.size());
    REQUIRE(plain.compare(0, got.size(), got) == 0 || (codec == CBz2), "%s: %zu bytes that are not those of the data", what.c_str(), got.size());
    c.label(what);
    c.nontrivial();
}
static void c40(Choices& c) {
    if (c.chance(1, 5)) { otherStream(c); return; }
    static const std::vector<int> kinds = { Zip, Zip, Zip, Tar, Tar, Ole, Ole, Cpio, Rpm, Ar };
    GenOpts o;
    o.maxSize = c.chance(1, 5) ? 60000 : 2000;
    int wanted = c.pick(kinds);
    std::string what;
    if (wanted == Ole) { // the header tells the sizes
        static const std::vector<int> shifts = { 12, 9, 10, 11, 13, 16 }, minis = { 6, 3, 4, 5, 7, 8, 9 };
        static const std::vector<uint32_t> cutoffs = { 4096, 1, 64, 512, 2048, 4095, 4097, 4160, 8192, 0x7fffffff };
        o.oleShift = c.pick(shifts);
        if (o.oleShift == 9 || c.chance(1, 4)) o.oleMiniShift = c.pick(minis);
        if ((o.oleShift == 9 && o.oleMiniShift == 6) || c.chance(1, 4)) o.oleCutoff = c.pick(cutoffs);
        if (o.oleShift == 9 && o.oleMiniShift == 6 && o.oleCutoff == 4096) discard();
        what = o.oleShift != 9 ? "blocks of 2^" + std::to_string(o.oleShift) : o.oleMiniShift != 6 ? "small blocks of 2^" + std::to_string(o.oleMiniShift)
            : "short streams below " + std::to_string(o.oleCutoff);
    }
    Archive a = genArchive(c, wanted, o);
    if (a.entries.empty()) discard();
    size_t k = (size_t)c.draw(a.entries.size());
    if (!otherForm(c, a, k, what)) discard();
    const char* kind = kindName(a.kind);
    c.label(std::string(kind) + ": " + what.substr(0, what.find_first_of("0123456789^")));
    c.note("%s of %zu entries, entry %zu: %s", kind, a.entries.size(), k, what.c_str());
    if ((a.kind == Zip || a.kind == Tar) && c.flip()) { // by path
        if (!a.entries[k].checkName) discard();
        Bytes path = writeScratchFile(a.bytes);
        FileStreamOpener fo;
        ArchiveReader reader;
        reader.addStreamOpener(&fo);
        for (int turn = 0; turn < 2; turn++) {
            size_t i = turn ? k : (size_t)c.draw(k + 1);
            const Entry& e = a.entries[i];
            bool twin = e.type != EntryInfo::File; // another entry may bear the name or one above it
            for (size_t j = 0; j < a.entries.size(); j++) if (j != i && (e.name + "/").compare(0, a.entries[j].name.size() + 1, a.entries[j].name + "/") == 0) twin = true;
            if (twin || !e.checkName) continue;
            InputStream* s = reader.openStream(path + "/" + e.name);
            StreamStatus st = Error;
            Bytes got;
            if (s) got = drain(*s, genPlan(c), &st);
            c.note("opening %s: %s, %zu bytes", show(e.name).c_str(), s ? statusName(st) : "nothing", got.size());
            if (i < k) REQUIRE(st == Eof, "%s: entry %zu before the one that is %s is not opened", kind, i, what.c_str());
            if (st == Eof) requireSame(got, e.content, (std::string(kind) + " entry " + std::to_string(i) + " when entry " + std::to_string(k) + " is " + what).c_str());
            if (s) reader.closeStream(s);
            c.evaluations++;
        }
        c.label("by path");
        c.nontrivial();
        return;
    }
    auto src = genAnySource(c, a.bytes);
    std::unique_ptr<SubStreamProvider> sp(makeProvider(a.kind, src->top()));
    size_t i = 0;
    bool clean = true;
    for (;; i++) {
        InputStream* s = sp->nextEntry();
        if (!s) break;
        REQUIRE(i < a.entries.size(), "%s: an entry %s beyond the last one", kind, show(sp->entryInfo().filename).c_str());
        const Entry& e = a.entries[i];
        if (i < k) checkEntryInfo(sp->entryInfo(), e, i, kind);
        else if (e.checkName) REQUIRE(sp->entryInfo().filename == e.name, "%s entry %zu is called %s instead of %s", kind, i, show(sp->entryInfo().filename).c_str(), show(e.name).c_str());
        if (i == k ? c.chance(3, 4) : c.draw(3) != 0) {
            StreamStatus st;
            Bytes got = drain(*s, genPlan(c), &st);
            if (st == Eof) requireSame(got, e.content, (std::string(kind) + " entry " + std::to_string(i) + " when entry " + std::to_string(k) + " is " + what).c_str());
            else clean = false;
            if (i < k) REQUIRE(st == Eof, "%s: entry %zu before the one that is %s ends in error", kind, i, what.c_str());
        } else if (c.flip()) { const char* d; s->read(d, 1, 1); }
        c.evaluations++;
        if (i > 40) fail("%s: too many entries", kind);
    }
    REQUIRE(i >= k, "%s: entry %zu is missing (%s)", kind, i, sp->error());
    if (sp->status() == Eof) REQUIRE(i == a.entries.size() && clean, "%s: entry %zu is %s, and the iteration ends cleanly after %zu of %zu entries", kind, k, what.c_str(), i, a.entries.size());
    else REQUIRE(sp->status() == Error && *sp->error(), "%s: status %s without an error text", kind, statusName(sp->status()));
    for (int again = (int)c.draw(3); again > 0; again--) {
        REQUIRE(!sp->nextEntry() && sp->status() != Ok, "%s: an entry after the iteration has ended", kind);
    }
    c.nontrivial();
}
static Register r40({ "C40", c40,
    "random archives one member (or the header) of which is in a form that exists and that the library does not read: zip members that are encrypted, of other methods, stored with "
    "the sizes behind them or with zip64 sizes; tar numbers in binary; other cpio variants; OLE documents of other block sizes; thin ar archives; rpm payloads of other compressions; "
    "and gzip, zlib and bzip2 streams with unknown flags, methods, dictionaries. Members before it must be right; nothing else than the member's real content may be read to a clean end "
    "and the iteration may end cleanly only if everything was given. Half of the zip and tar archives are opened by path. Non-trivial: all", 60000, 1500000, 25, 20, 0 });
