// Independent writers of the archive formats.  Each takes a list of members
// and produces the bytes of an archive, using generated freedom in how the
// format allows them to be written, and notes what a reader must report.
#include "formats.h"
#include <strigi/tarinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/oleinputstream.h>
#include <zlib.h>
#include <ctime>
#include <algorithm>
using namespace Strigi;
using namespace pbt;

static struct UseUtc { UseUtc() { setenv("TZ", "UTC0", 1); tzset(); } } useUtc;

const char* kindName(int k) {
    static const char* n[] = { "tar", "zip", "ar", "cpio", "rpm", "mail", "sdf", "ole" };
    return k >= 0 && k < KindCount ? n[k] : "?";
}
std::string stdstr(int64_t v) { return std::to_string(v); }
SubStreamProvider* makeProvider(int kind, InputStream* in) {
    switch (kind) {
    case Tar: return new TarInputStream(in);
    case Zip: return new ZipInputStream(in);
    case Ar: return new ArInputStream(in);
    case Cpio: return new CpioInputStream(in);
    case Rpm: return new RpmInputStream(in);
    case Mail: return new MailInputStream(in);
    case Sdf: return new SdfInputStream(in);
    default: return new OleInputStream(in);
    }
}
bool headerAccepts(int kind, const char* d, int32_t n) {
    switch (kind) {
    case Tar: return TarInputStream::checkHeader(d, n);
    case Zip: return ZipInputStream::checkHeader(d, n);
    case Ar: return ArInputStream::checkHeader(d, n);
    case Cpio: return CpioInputStream::checkHeader(d, n);
    case Rpm: return RpmInputStream::checkHeader(d, n);
    case Mail: return MailInputStream::checkHeader(d, n);
    case Sdf: return SdfInputStream::checkHeader(d, n);
    default: return OleInputStream::checkHeader(d, n);
    }
}

// ---- members -----------------------------------------------------------------
static Bytes genContent(Choices& c, const GenOpts& o, const std::vector<int64_t>& near) {
    return genBytesOfSize(c, genSizeNear(c, near, o.maxSize));
}
// names that mean something in one of the formats, or nearly
static std::string genOddName(Choices& c) {
    static const std::vector<std::string> odd = { "TRAILER!!!", "@LongLink", "__.SYMDEF", "debian-binary", "070701", "PK", "!<arch>", "$$$$", "body", "Molecule1", "ustar",
        "a b", "\xc3\xa9t\xc3\xa9", "\xff\xfe", "caf\xe9.txt", "x;y=z", "%41", "#!", "V2000", "a..b", "~", "con:", "q\"r", "-", "_" };
    std::string s = c.pick(odd);
    if (c.flip()) s += c.flip() ? "." + genName(c, 4) : genName(c, 3);
    else if (c.chance(1, 3)) s = genName(c, 3) + s;
    return s;
}
static std::string genPath(Choices& c, size_t target, bool plain = false) {
    std::string s;
    do {
        if (!s.empty()) s += '/';
        s += !plain && c.chance(1, 12) ? genOddName(c) : genName(c, target ? 40 : 12);
    } while (target ? s.size() < target : c.chance(1, 3));
    if (target) {
        s.resize(target, 'z');
        if (s.back() == '/') s.back() = 'q';
    }
    return s;
}

// ---- tar -----------------------------------------------------------------------
namespace {
struct TarHeader {
    char h[512];
    TarHeader() { memset(h, 0, sizeof h); }
    void text(int off, const std::string& s) { memcpy(h + off, s.data(), s.size()); }
    // octal numbers: zero padded, or blank padded with a blank or NUL behind
    void octal(Choices& c, bool plain, int off, int width, uint64_t v, bool mayEndInSpace) {
        char b[40];
        int style = plain ? 0 : (int)c.draw(3);
        if (style == 0) snprintf(b, sizeof b, "%0*llo", width - 1, (unsigned long long)v);
        else snprintf(b, sizeof b, "%*llo", width - 1, (unsigned long long)v);
        memcpy(h + off, b, width - 1);
        h[off + width - 1] = style == 2 && mayEndInSpace ? ' ' : 0;
    }
    void finish() {
        memset(h + 148, ' ', 8);
        unsigned sum = 0;
        for (int i = 0; i < 512; i++) sum += (unsigned char)h[i];
        snprintf(h + 148, 8, "%06o", sum & 0777777);
        h[155] = ' ';
    }
};
}
static void tarPad(Bytes& b) { while (b.size() % 512) b += '\0'; }
static void tarLong(Choices& c, bool plain, Archive& a, char type, const std::string& text) {
    TarHeader t;
    t.text(0, "././@LongLink");
    t.octal(c, plain, 100, 8, plain ? 0 : c.draw(01000), false);
    t.octal(c, plain, 108, 8, 0, false);
    t.octal(c, plain, 116, 8, 0, false);
    t.octal(c, plain, 124, 12, text.size() + 1, true);
    t.octal(c, plain, 136, 12, 0, true);
    t.h[156] = type;
    memcpy(t.h + 257, "ustar  ", 8);
    t.finish();
    a.bytes.append(t.h, 512);
    a.bytes += text;
    a.bytes += '\0';
    tarPad(a.bytes);
}
static void writeTar(Choices& c, Archive& a, bool plain) {
    for (size_t i = 0; i < a.entries.size(); i++) {
        Entry& e = a.entries[i];
        if (!plain && c.chance(1, 12)) {
            // an entry for the directory the archive was made of
            TarHeader d;
            d.text(0, "./");
            d.octal(c, plain, 100, 8, 0755, false);
            d.octal(c, plain, 108, 8, 0, false);
            d.octal(c, plain, 116, 8, 0, false);
            d.octal(c, plain, 124, 12, 0, true);
            d.octal(c, plain, 136, 12, 7, true);
            d.h[156] = '5';
            d.finish();
            a.bytes.append(d.h, 512);
        }
        TarHeader t;
        std::string raw = e.name;
        int magic = plain ? 1 : (int)c.draw(3);     // none, POSIX, GNU
        char type = e.type == EntryInfo::Dir ? '5' : '0';
        if (e.type == EntryInfo::Unknown) {
            static const std::vector<char> others = { '2', '1', '3', '4', '6', '7' };
            type = c.pick(others);
            if (!i && !plain && c.chance(1, 4)) { type = 'V'; c.label("tar: label of a volume"); }
            if (type != '7') e.content.clear();
        }
        if (e.type == EntryInfo::File && !plain && c.chance(1, 4)) type = 0;
        if (e.type == EntryInfo::Dir) {
            e.content.clear();
            int s = plain ? 1 : (int)c.draw(3);
            if (s) raw += '/';
            if (s == 2) type = c.flip() ? 0 : '0'; // old style
        }
        std::string link;
        if (type == '1' || type == '2') link = genPath(c, c.chance(1, 4) ? c.chance(1, 4) ? 100 : 99 + c.draw(300) : 0);
        // a target of just 100 characters fits, one that is longer needs an
        // entry of its own; GNU tar then writes the first 100 here, others 99
        if (link.size() > 100 || (link.size() == 100 && c.flip())) { tarLong(c, plain, a, 'K', link); link.resize(99 + c.draw(2)); c.label("tar: long link target"); }
        if (link.size() == 100) c.label("tar: link target that fills its field");
        // tar writes the ./ it was told to archive, in long names as in others
        if (!plain && c.chance(1, 5)) raw = "./" + raw;
        std::string field = raw;
        if (raw.size() > 100 || (!plain && c.chance(1, 12))) {
            size_t cut = std::string::npos;
            if (magic == 1 && raw.size() <= 256 && raw.size() > 2 && c.flip()) {
                std::vector<size_t> cuts;
                for (size_t p = 1; p + 1 < raw.size() && p <= 155; p++)
                    if (raw[p] == '/' && raw.size() - p - 1 <= 100) cuts.push_back(p);
                if (!cuts.empty()) cut = c.pick(cuts);
            }
            if (cut != std::string::npos) {
                t.text(345, raw.substr(0, cut));
                field = raw.substr(cut + 1);
                c.label("tar: name with prefix");
            } else {
                tarLong(c, plain, a, 'L', raw);
                field = raw.substr(0, 100);
                c.label(raw.size() > 100 ? "tar: long name" : "tar: short name in a long-name entry");
            }
        }
        t.text(0, field.substr(0, 100));
        t.octal(c, plain, 100, 8, plain ? 0644 : c.draw(010000), false);
        t.octal(c, plain, 108, 8, plain ? 1000 : c.draw(02000000), false);
        t.octal(c, plain, 116, 8, plain ? 1000 : c.draw(02000000), false);
        if (type != 'V' || c.flip()) t.octal(c, plain, 124, 12, e.content.size(), true);
        if (e.mtime < 0) e.mtime = plain ? 1000000 + (int64_t)i : (int64_t)(c.flip() ? c.draw(0x7fffffff) : c.draw(0x1ffffffffull));
        t.octal(c, plain, 136, 12, (uint64_t)e.mtime, true);
        t.h[156] = type;
        t.text(157, link);
        if (magic == 1) memcpy(t.h + 257, "ustar\00000", 8);
        if (magic == 2) memcpy(t.h + 257, "ustar  ", 8);
        if (magic && !plain && c.flip()) { t.text(265, genName(c, 30)); t.text(297, genName(c, 30)); }
        t.finish();
        e.headerStart = (int64_t)a.bytes.size();
        a.bytes.append(t.h, 512);
        e.size = (int64_t)e.content.size();
        e.dataStart = (int64_t)a.bytes.size();
        a.bytes += e.content;
        e.dataEnd = (int64_t)a.bytes.size();
        tarPad(a.bytes);
    }
    a.endOfEntries = (int64_t)a.bytes.size();
    a.bytes.append(512 * (plain ? 2 : 2 + c.size(18)), '\0');
}
static std::string genTarName(Choices& c, const GenOpts& o) {
    if (o.plain) return genPath(c, 0, true);
    static const std::vector<int> lens = { 99, 100, 101, 98, 155, 156, 199, 255, 256, 257, 300, 511, 512, 513, 1000 };
    static const std::vector<int> longer = { 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 100000 };
    return genPath(c, c.chance(1, 3) ? (size_t)c.pick(c.chance(1, 60) ? longer : lens) : 0);
}

// ---- zip -------------------------------------------------------------------------
static void le16(Bytes& b, unsigned v) { b += (char)v; b += (char)(v >> 8); }
static void le32(Bytes& b, uint32_t v) { le16(b, v & 0xffff); le16(b, v >> 16); }
static Bytes rawDeflate(Choices& c, const Bytes& d, bool plain) {
    z_stream z;
    memset(&z, 0, sizeof z);
    static const std::vector<int> levels = { 6, 0, 1, 9 };
    deflateInit2(&z, plain ? 6 : c.pick(levels), Z_DEFLATED, -15, 8, plain ? 0 : (int)c.draw(5));
    Bytes out(deflateBound(&z, d.size()) + 64, '\0');
    z.next_in = (Bytef*)d.data();
    z.avail_in = (uInt)d.size();
    z.next_out = (Bytef*)&out[0];
    z.avail_out = (uInt)out.size();
    if (deflate(&z, Z_FINISH) != Z_STREAM_END) fail("harness: deflate failed");
    out.resize(z.total_out);
    deflateEnd(&z);
    return out;
}
static void writeZip(Choices& c, Archive& a, bool plain) {
    Bytes central;
    for (size_t i = 0; i < a.entries.size(); i++) {
        Entry& e = a.entries[i];
        std::string raw = e.name;
        if (e.type == EntryInfo::Dir) { raw += '/'; e.content.clear(); }
        int method = c.flip() ? 8 : 0;
        if (e.type == EntryInfo::Dir && c.chance(7, 8)) method = 0;
        bool descriptor = method == 8 && c.chance(1, 3);
        bool sizesToo = descriptor && !plain && c.chance(1, 4);
        bool signature = descriptor && c.flip();
        bool stray = method == 8 && !descriptor && !plain && c.chance(1, 10); // a descriptor nobody needs
        Bytes data = method == 8 ? rawDeflate(c, e.content, plain) : e.content;
        struct tm t;
        memset(&t, 0, sizeof t);
        if (e.mtime < 0) {
            t.tm_year = 80 + (int)c.draw(plain ? 40 : 128);
            t.tm_mon = (int)c.draw(12);
            t.tm_mday = 1 + (int)c.draw(28);
            t.tm_hour = (int)c.draw(24);
            t.tm_min = (int)c.draw(60);
            t.tm_sec = 2 * (int)c.draw(30);
            if (t.tm_hour < 5 && strcmp(getenv("TZ"), "UTC0")) t.tm_hour += 5; // clear of the hours that are not unique
            time_t guess = timegm(&t);
            struct tm local;
            localtime_r(&guess, &local);
            e.mtime = guess - local.tm_gmtoff;
            time_t v = (time_t)e.mtime;
            localtime_r(&v, &local);
            if (local.tm_hour != t.tm_hour) e.mtime += 3600 * (t.tm_hour - local.tm_hour);
            v = (time_t)e.mtime;
            localtime_r(&v, &local);
            if (local.tm_hour != t.tm_hour || local.tm_mday != t.tm_mday) discard();
        } else {
            time_t v = (time_t)e.mtime;
            gmtime_r(&v, &t);
        }
        uint32_t dos = (uint32_t)(t.tm_year - 80) << 25 | (uint32_t)(t.tm_mon + 1) << 21 | (uint32_t)t.tm_mday << 16
            | (uint32_t)t.tm_hour << 11 | (uint32_t)t.tm_min << 5 | (uint32_t)t.tm_sec / 2;
        unsigned flags = (descriptor ? 8 : 0) | (plain ? 0 : (unsigned)(c.draw(4) << 1)) | (!plain && c.flip() ? 0x800 : 0);
        Bytes extra;
        if (!plain && c.chance(1, 2)) {
            static const std::vector<int64_t> lens = { 251, 252, 1020, 4092, 32763, 32764, 40000, 65531 };
            Bytes x = c.chance(1, 12) ? genBytesOfSize(c, c.pick(lens)) : genBytes(c, 60);
            le16(extra, 0x5455 + (unsigned)c.draw(200));
            le16(extra, (unsigned)x.size());
            extra += x;
        }
        uint32_t crc = crc32Of(e.content);
        uint32_t offset = (uint32_t)a.bytes.size();
        Bytes common;
        le16(common, method == 8 || !plain ? 20 : 10);
        le16(common, flags);
        le16(common, (unsigned)method);
        le32(common, dos);
        e.headerStart = (int64_t)a.bytes.size();
        a.bytes += "PK\003\004";
        a.bytes += common;
        bool known = !descriptor || sizesToo;
        le32(a.bytes, known ? crc : 0);
        le32(a.bytes, known ? (uint32_t)data.size() : 0);
        le32(a.bytes, known ? (uint32_t)e.content.size() : 0);
        le16(a.bytes, (unsigned)raw.size());
        le16(a.bytes, (unsigned)extra.size());
        a.bytes += raw;
        a.bytes += extra;
        e.dataStart = (int64_t)a.bytes.size();
        a.bytes += data;
        e.dataEnd = (int64_t)a.bytes.size();
        if (descriptor || stray) {
            if (signature || stray) a.bytes += "PK\007\010";
            le32(a.bytes, crc);
            le32(a.bytes, (uint32_t)data.size());
            le32(a.bytes, (uint32_t)e.content.size());
            if (!stray) e.descriptorEnd = (int64_t)a.bytes.size();
            c.label(stray ? "zip: needless descriptor" : signature ? "zip: descriptor with signature" : "zip: descriptor without signature");
        }
        e.size = descriptor ? -3 : (int64_t)e.content.size();
        central += "PK\001\002";
        le16(central, 0x0314);
        central += common;
        le32(central, crc);
        le32(central, (uint32_t)data.size());
        le32(central, (uint32_t)e.content.size());
        Bytes comment = plain || c.chance(3, 4) ? Bytes() : genBytes(c, 30);
        le16(central, (unsigned)raw.size());
        le16(central, 0);
        le16(central, (unsigned)comment.size());
        le16(central, 0);
        le16(central, 0);
        le32(central, e.type == EntryInfo::Dir ? 0x10 : 0);
        le32(central, offset);
        central += raw + comment;
    }
    a.endOfEntries = (int64_t)a.bytes.size();
    uint32_t start = (uint32_t)a.bytes.size();
    a.bytes += central;
    a.bytes += "PK\005\006";
    le32(a.bytes, 0);
    le16(a.bytes, (unsigned)a.entries.size());
    le16(a.bytes, (unsigned)a.entries.size());
    le32(a.bytes, (uint32_t)central.size());
    le32(a.bytes, start);
    Bytes comment = plain || c.chance(2, 3) ? Bytes() : genBytes(c, 40);
    le16(a.bytes, (unsigned)comment.size());
    a.bytes += comment;
}

// ---- ar --------------------------------------------------------------------------
static void arHeader(Choices& c, bool plain, Archive& a, const std::string& name, int64_t mtime, int64_t size, bool blank = false) {
    char h[80];
    std::string t = blank ? "" : std::to_string(mtime);
    std::string u = blank || (!plain && c.chance(1, 4)) ? "" : "0", m = blank ? "" : "100644";
    snprintf(h, sizeof h, "%-16s%-12s%-6s%-6s%-8s%-10lld`\n", name.c_str(), t.c_str(), u.c_str(), u.c_str(), m.c_str(), (long long)size);
    a.bytes.append(h, 60);
}
static void writeAr(Choices& c, Archive& a, bool plain) {
    a.bytes = "!<arch>\n";
    auto pad = [&]() { if (a.bytes.size() % 2) a.bytes += '\n'; };
    if (!plain && c.chance(1, 3)) {
        Bytes sym = genBytes(c, 200);
        bool wide = c.chance(1, 3);
        arHeader(c, plain, a, wide ? "/SYM64/" : "/", 0, (int64_t)sym.size());
        a.bytes += sym;
        pad();
        c.label("ar: symbol table");
        if (!wide && c.chance(1, 4)) { // as in import libraries, a second one
            arHeader(c, plain, a, "/", 0, (int64_t)sym.size());
            a.bytes += sym;
            pad();
        }
    }
    std::vector<std::string> fields, inFront; // BSD style: names in front of the data
    std::string table;
    bool bsd = !plain && c.chance(1, 5);
    for (Entry& e : a.entries) {
        if (bsd) {
            bool shortName = e.name.size() <= 16 && e.name.find_first_of(" /") == std::string::npos && e.name.compare(0, 3, "#1/");
            inFront.push_back(shortName && c.chance(2, 3) ? "" : e.name + Bytes(c.chance(1, 3) ? c.draw(9) : (4 - e.name.size() % 4) % 4, '\0'));
            fields.push_back(inFront.back().empty() ? e.name : "#1/" + std::to_string(inFront.back().size()));
            if (!inFront.back().empty()) c.label("ar: name in front of the data");
            continue;
        }
        bool spaces = e.name.find(' ') != std::string::npos;
        std::string f;
        bool toTable = e.name.size() > 16 || (e.name.size() == 16 && spaces) || e.name[0] == '/' || (!plain && c.chance(1, 6));
        if (toTable) {
            f = "/" + std::to_string(table.size());
            table += e.name + "/\n";
        } else if (e.name.size() == 16 || (!spaces && !plain && c.flip())) {
            f = e.name; // ended by blanks or the field's end
        } else {
            f = e.name + "/";
        }
        fields.push_back(f);
    }
    if (!table.empty() || (!plain && c.chance(1, 12))) {
        if (!plain && c.flip() && table.size() % 2) table += '\n';
        arHeader(c, plain, a, "//", 0, (int64_t)table.size(), true);
        a.bytes += table;
        pad();
        c.label("ar: name table");
    }
    for (size_t i = 0; i < a.entries.size(); i++) {
        Entry& e = a.entries[i];
        if (e.mtime < 0) e.mtime = plain ? 77 + (int64_t)i : (int64_t)(c.chance(1, 8) ? c.draw(999999999999ull) : c.draw(0x7fffffff));
        e.type = EntryInfo::File;
        e.size = (int64_t)e.content.size();
        e.headerStart = (int64_t)a.bytes.size();
        arHeader(c, plain, a, fields[i], e.mtime, e.size + (bsd ? (int64_t)inFront[i].size() : 0));
        if (bsd) a.bytes += inFront[i];
        e.dataStart = (int64_t)a.bytes.size();
        a.bytes += e.content;
        e.dataEnd = (int64_t)a.bytes.size();
        a.endOfEntries = e.dataEnd;
        if (i + 1 < a.entries.size() || plain || c.chance(3, 4)) pad();
        else if (c.flip()) {
            // a closing byte
            pad();
            a.bytes += '\n';
            c.label("ar: closing byte");
        }
    }
    if (a.entries.empty()) a.endOfEntries = (int64_t)a.bytes.size();
}

// ---- cpio --------------------------------------------------------------------------
static void cpioHeader(Choices& c, bool plain, Archive& a, const std::string& name, uint32_t mode, uint32_t mtime, uint32_t size, size_t nul) {
    bool upper = !plain && c.flip();
    char b[20];
    auto f = [&](uint32_t v) { snprintf(b, sizeof b, upper ? "%08X" : "%08x", v); a.bytes += b; };
    a.bytes += "070701";
    f(plain ? 1 : (uint32_t)c.draw(1ull << 32));   // inode
    f(mode);
    f(plain ? 0 : (uint32_t)c.draw(70000));        // uid
    f(plain ? 0 : (uint32_t)c.draw(70000));        // gid
    f(1);                                          // links
    f(mtime);
    f(size);
    f(8); f(1); f(0); f(0);                        // devices
    f((uint32_t)(name.size() + nul));
    f(0);                                          // check
    a.bytes += name;
    a.bytes.append(nul, '\0');
    while (a.bytes.size() % 4) a.bytes += '\0';
}
static void writeCpio(Choices& c, Archive& a, bool plain) {
    for (size_t i = 0; i < a.entries.size(); i++) {
        Entry& e = a.entries[i];
        if (e.mtime < 0) e.mtime = plain ? 99 + (int64_t)i : (int64_t)c.draw(1ull << 32);
        std::string raw = e.name;
        if (e.type == EntryInfo::Dir) e.content.clear();
        if (!plain && c.chance(1, 4)) raw = "./" + raw;
        e.headerStart = (int64_t)a.bytes.size();
        cpioHeader(c, plain, a, raw, e.type == EntryInfo::Dir ? 040755 : 0100644, (uint32_t)e.mtime, (uint32_t)e.content.size(),
            plain || c.chance(9, 10) ? 1 : 1 + c.draw(8));
        e.checkType = false;
        e.size = (int64_t)e.content.size();
        e.dataStart = (int64_t)a.bytes.size();
        a.bytes += e.content;
        e.dataEnd = (int64_t)a.bytes.size();
        while (a.bytes.size() % 4) a.bytes += '\0';
    }
    a.endOfEntries = (int64_t)a.bytes.size();
    cpioHeader(c, plain, a, "TRAILER!!!", 0, 0, 0, 1);
    if (plain || c.flip()) while (a.bytes.size() % 512) a.bytes += '\0';
}

// ---- rpm ---------------------------------------------------------------------------
static void be32(Bytes& b, uint32_t v) { for (int i = 3; i >= 0; i--) b += (char)(v >> (8 * i)); }
static Bytes rpmHeader(Choices& c, bool plain, bool allowPad) {
    uint32_t n = plain ? 3 : (uint32_t)c.size(30);
    Bytes store = plain ? Bytes("some header text") : genBytes(c, 400);
    if (store.empty() && n) store = "x";
    Bytes r("\x8e\xad\xe8\x01\0\0\0\0", 8);
    be32(r, n);
    be32(r, (uint32_t)store.size());
    uint32_t off = 0;
    for (uint32_t i = 0; i < n; i++) {
        be32(r, 1000 + i);
        be32(r, (uint32_t)c.draw(10));
        be32(r, off);
        be32(r, 1 + (uint32_t)c.draw(4));
        off = (uint32_t)std::min<uint64_t>(off + c.draw(20), store.size() - 1);
    }
    r += store;
    if (allowPad) while ((r.size() - 16) % 8) r += '\0';
    return r;
}
static void writeRpm(Choices& c, Archive& a, bool plain) {
    Archive inner;
    inner.entries = a.entries;
    writeCpio(c, inner, plain);
    a.entries = inner.entries;
    Bytes lead("\xed\xab\xee\xdb\x03\x00", 6);
    Bytes rest = plain ? Bytes(90, '\0') : genBytesOfSize(c, 90);
    a.bytes = lead + rest;
    a.bytes += rpmHeader(c, plain, true);
    a.bytes += rpmHeader(c, plain, false);
    int codec = plain ? CGzip : c.weighted({ 3, 2, 1 }) == 0 ? CGzip : c.flip() ? CBz2 : CLzma;
    Bytes payload;
    if (codec == CLzma) payload = lzmaEncode(inner.bytes, 1 << 16, false, true, &c);
    else payload = encode(c, codec, inner.bytes).bytes;
    for (Entry& e : a.entries) { e.dataStart = e.dataEnd = -1; }
    a.notes.push_back(std::string("payload: ") + codecName(codec));
    c.label(std::string("rpm: ") + codecName(codec));
    a.endOfEntries = (int64_t)a.bytes.size(); // of what lies in front of the payload
    a.bytes += payload;
}

// ---- mail --------------------------------------------------------------------------
namespace {
struct MailWriter {
    Choices& c;
    Archive& a;
    bool plain;
    std::string nl;
    int leafs;
    std::vector<Entry> out;
    MailWriter(Choices& c_, Archive& a_, bool p) : c(c_), a(a_), plain(p), leafs(0) { nl = c.flip() ? "\r\n" : "\n"; }
    std::string anyCase(const std::string& s) {
        if (plain || c.chance(2, 3)) return s;
        std::string r = s;
        bool up = c.flip();
        for (char& ch : r) ch = (char)(up ? toupper(ch) : tolower(ch));
        return r;
    }
    std::string fold() { // separator of two words, possibly folded
        if (plain || c.chance(3, 4)) return " ";
        return nl + (c.flip() ? " " : c.flip() ? "\t" : "    ");
    }
    static std::string unfold(std::string s) {
        std::string r;
        for (size_t i = 0; i < s.size(); i++) if (s[i] != '\r' && s[i] != '\n') r += s[i];
        return r;
    }
    std::string brief; // a boundary that other text might hold by chance
    std::string boundaryText(const std::vector<std::string>& used) {
        static const char al[] = "abcXYZ0123456789'()+_,-./:=?";
        std::string b;
        do {
            b.clear();
            int n = 1 + (int)c.size(plain ? 20 : 66);
            for (int i = 0; i < n; i++) b += al[c.draw(plain ? 16 : i == 0 || i == n - 1 ? 16 : sizeof(al) - 1)];
            if (!used.empty() && c.chance(1, 4)) b = used.back() + b.substr(0, 3);
            if (b.size() < 3) {
                if (!plain && used.empty() && c.chance(1, 3)) {
                    b.resize(1);
                    brief = b;
                    c.label("mail: boundary of one character");
                } else {
                    b += "=_b";
                }
            }
        } while (std::find(used.begin(), used.end(), b) != used.end());
        return b;
    }
    // other attributes, whose names or values look like the one that is wanted
    std::string others(const std::string& wanted) {
        if (plain || !c.chance(1, 6)) return "";
        std::string r;
        for (int i = 1 + (int)c.draw(2); i; i--) {
            switch (c.draw(5)) {
            case 0: r += "x-" + wanted + "=" + genName(c, 8) + ";"; break;
            case 1: r += "title=\"a; " + wanted + "=b; " + wanted + "=\";"; break;
            case 2: r += wanted + "-x=1;"; break;
            case 3: r += "type=\"text/" + wanted + "\";"; break;
            default: r += "format=\"\\\";" + wanted + "=\\\\\";"; break;
            }
            r += fold();
        }
        c.label("mail: attributes like others");
        return r;
    }
    std::string ctype(const std::string& b) {
        bool token = b.find_first_of("'()+,/:=?_") == std::string::npos && c.flip();
        static const std::vector<std::string> types = { "multipart/mixed", "multipart/alternative", "multipart/related" };
        std::string r = (plain ? types[0] : c.pick(types)) + ";" + fold() + others("boundary") + anyCase("boundary") + eq() + (token ? b : "\"" + b + "\"");
        if (!plain && c.chance(1, 12)) r += " ";
        if (!plain && c.chance(1, 4)) r += "; charset=utf-8";
        return r;
    }
    std::string eq() {
        if (plain || !c.chance(1, 12)) return "=";
        static const std::vector<std::string> some = { " =", "= ", "\t=\t", " = " };
        return c.pick(some);
    }
    // blanks that were added to a boundary line on the way
    std::string padding() {
        if (plain || !c.chance(1, 12)) return "";
        static const std::vector<std::string> some = { " ", "\t", "  \t " };
        c.label("mail: padded boundary line");
        return c.pick(some);
    }
    Bytes lines(const std::vector<std::string>& avoid) { // harmless text in lines
        Bytes r;
        int n = (int)c.size(4);
        for (int i = 0; i < n; i++) {
            std::string l = c.chance(1, 6) ? "" : c.chance(1, 6) ? "--" + genName(c, 20) + "!" : genName(c, 60);
            if (!plain && !avoid.empty() && c.chance(1, 6)) {
                // not a boundary, but nearly one
                const std::string& b = avoid[c.draw(avoid.size())];
                static const std::vector<std::string> more = { "x", "-", "--x", "---", "\tx", "1", "-- --", " x", " -- ", " --" };
                l = c.chance(1, 4) ? "--" + b.substr(0, b.size() - 1) : c.chance(1, 3) ? "-" + b : c.chance(1, 3) ? "x--" + b : "--" + b + (c.flip() ? c.pick(more) : b);
                c.label("mail: line like a boundary");
            }
            bool bad = false;
            for (const std::string& b : avoid) { std::string t = l.substr(0, l.find_last_not_of(" \t") + 1); if (t == "--" + b || t == "--" + b + "--") bad = true; };
            if (bad) l = "text";
            r += l + nl;
        }
        return r;
    }
    Bytes leaf(Entry e, const std::string& boundary) {
        Bytes h;
        std::vector<Bytes> hs;
        leafs++;
        std::string number = std::to_string(leafs);
        int naming = plain ? 1 : (int)c.draw(4); // none, disposition, type, both
        if (e.name.empty()) naming = 0;
        bool quoted = plain || e.name.find_first_of(" ()<>@,:\\/[]?=") != std::string::npos || c.flip() || e.name.size() < 1;
        if (quoted && !plain && naming && c.chance(1, 6)) {
            // what ends an unquoted value is text in a quoted one
            static const std::vector<std::string> odd = { ";", "; size=1", "=", " ", "; name=x;", "\"", "\\", "\\\"", "\"; filename=\"y", "\\\\" };
            e.name.insert(1 + c.draw(e.name.size()), c.pick(odd));
            e.name += ".t";
            c.label("mail: separator in a quoted name");
        }
        std::string v;
        for (char ch : e.name) {
            if (ch == '"' || ch == '\\') v += '\\';
            v += ch;
        }
        if (quoted) v = "\"" + v + "\"";
        if (!plain && c.chance(1, 8)) v += c.flip() ? " ;" : c.flip() ? " " : c.flip() ? nl + "\t; size=12" : "\t; size=12";
        if (naming & 1) hs.push_back(anyCase("Content-Disposition") + ": attachment;" + fold() + others("filename") + "filename" + eq() + v + (!plain && c.chance(1, 5) ? "; size=12" : ""));
        if (naming >= 2) hs.push_back(anyCase("Content-Type") + ": text/plain;" + fold() + others("name") + "name" + eq() + (naming == 3 ? std::string("other") : v) + (!plain && c.chance(1, 5) ? "; charset=us-ascii" : ""));
        else if (c.flip()) hs.push_back("Content-Type: text/plain; charset=iso-8859-1");
        if (!plain && (naming == 0 || naming == 2) && c.chance(1, 6)) { hs.push_back("Content-Disposition: attachment; filename=\"\""); c.label("mail: empty name"); }
        bool base64 = c.chance(plain ? 2 : 1, plain ? 2 : 3);
        if (base64) hs.push_back(anyCase("Content-Transfer-Encoding") + ": " + anyCase("base64"));
        else if (c.chance(1, 3)) hs.push_back(std::string("Content-Transfer-Encoding: ") + (c.flip() ? "8bit" : "quoted-printable"));
        if (!plain && c.chance(1, 4)) hs.push_back("X-Other:" + fold() + genName(c, 30));
        if (!plain) for (size_t i = 0; i + 1 < hs.size(); i++) std::swap(hs[i], hs[i + c.draw(hs.size() - i)]);
        for (const Bytes& x : hs) h += x + nl;
        h += nl;
        if (naming == 0) e.name = number;
        Bytes body;
        if (base64) {
            Bytes enc = base64Of(e.content);
            size_t per = plain ? 76 : 4 * (1 + c.draw(30));
            if (!plain && c.chance(1, 20)) per = enc.size() + 1;
            for (size_t i = 0; i < enc.size(); i += per) body += enc.substr(i, per) + nl;
            c.label("mail: base64 part");
        } else {
            body = e.content;
            for (size_t p; (p = body.find("--" + boundary)) != Bytes::npos;) body[p] = '+';
            if (!brief.empty()) for (size_t p; (p = body.find("--" + brief)) != Bytes::npos;) body[p] = '+';
            // it ends in a line end so that the boundary starts a line
            if (!body.empty() || c.flip()) body += nl;
            e.content = body;
        }
        e.size = -2;
        e.mtime = -1;
        e.type = EntryInfo::File;
        out.push_back(e);
        return h + body;
    }
    // children: indices of members still to write
    Bytes multipart(std::vector<Entry>& todo, size_t count, std::vector<std::string>& boundaries, int depth) {
        std::string b = boundaries.back();
        Bytes r = plain ? Bytes() : lines(boundaries);
        for (size_t i = 0; i < count;) {
            r += "--" + b + padding() + nl;
            if (depth < 5 && !plain && c.chance(1, 4)) {
                size_t n = c.draw(count - i + 1);
                boundaries.push_back(boundaryText(boundaries));
                r += anyCase("Content-Type") + ": " + ctype(boundaries.back()) + nl;
                if (c.chance(1, 4)) r += "X-Foo: bar" + nl;
                r += nl;
                r += multipart(todo, n, boundaries, depth + 1);
                boundaries.pop_back();
                // the closing line is followed by text or the next boundary
                r += lines(boundaries);
                i += n;
                c.label("mail: nested multipart");
                if (n == 0 && c.flip()) break;
            } else {
                Entry e = todo.front();
                todo.erase(todo.begin());
                r += leaf(e, b);
                i++;
            }
        }
        r += "--" + b + "--" + padding() + nl;
        return r;
    }
    std::string words(bool encoded, std::string& want) {
        int n = (int)c.size(6);
        std::string raw;
        bool lastEncoded = false;
        want.clear();
        for (int i = 0; i < n; i++) {
            std::string sep = i ? fold() : "";
            raw += sep;
            if (encoded && c.chance(1, 3)) {
                // white space between encoded words is not part of the text
                if (lastEncoded && c.flip()) { // more of it
                    raw += " ";
                }
                if (!lastEncoded) want += unfold(sep);
                else c.label("mail: encoded words in a row");
                // text in a character set
                static const std::vector<std::string> sets = { "UTF-8", "utf-8", "ISO-8859-1", "iso-8859-15", "KOI8-R", "utf-7" };
                std::string set = c.pick(sets);
                std::string utf, coded;
                int len = 1 + (int)c.size(12);
                for (int j = 0; j < len; j++) {
                    if (c.chance(1, 2)) { char ch = (char)('a' + c.draw(26)); utf += ch; coded += ch; continue; }
                    if (c.chance(1, 8)) { utf += ' '; coded += ' '; continue; }
                    if (c.chance(1, 8)) { char ch = "?=_,;:\"()"[c.draw(9)]; utf += ch; coded += ch; continue; }
                    if (set == "utf-7") { utf += "\xe2\x82\xac"; coded += "+IKw-"; }
                    else if (set[0] == 'U' || set[0] == 'u') {
                        static const std::vector<std::string> chars = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xd0\x96" };
                        std::string x = c.pick(chars);
                        utf += x; coded += x;
                    } else if (set[0] == 'K') { utf += "\xd0\x96"; coded += "\xf6"; }
                    else if (set == "iso-8859-15") { utf += "\xe2\x82\xac"; coded += "\xa4"; }
                    else { utf += "\xc3\xa9"; coded += "\xe9"; }
                }
                std::string word = "=?" + set + "?";
                if (c.flip()) word += std::string(c.flip() ? "B" : "b") + "?" + base64Of(coded);
                else {
                    word += std::string(c.flip() ? "Q" : "q") + "?";
                    for (char ch : coded) {
                        char buf[8];
                        if (ch == ' ' && c.flip()) word += '_';
                        else if (isalnum((unsigned char)ch) && (unsigned char)ch < 128) word += ch;
                        else { snprintf(buf, sizeof buf, c.flip() ? "=%02X" : "=%02x", (unsigned char)ch); word += buf; }
                    }
                }
                raw += word + "?=";
                want += utf;
                lastEncoded = true;
                c.label("mail: encoded word");
            } else {
                want += unfold(sep);
                std::string w = genName(c, 10);
                if (!plain && c.chance(1, 6)) w = "<" + w + "@example.org>,";
                else if (!plain && encoded && c.chance(1, 10)) { // looks like an encoded word, but is none
                    static const std::vector<std::string> ways = { "x", "bq", "Base64", "", "=", " " };
                    static const std::vector<std::string> starts = { "=?", "=?utf-8", "=?utf-8?q", "?=", "=?=" };
                    if (c.flip()) w = "=?utf-8?" + c.pick(ways) + "?" + w + "?=";
                    else w = c.pick(starts);
                    c.label("mail: nearly an encoded word");
                }
                raw += w;
                want += w;
                lastEncoded = false;
            }
        }
        return raw;
    }
};
}
static void writeMail(Choices& c, Archive& a, bool plain) {
    MailWriter w(c, a, plain);
    std::vector<Bytes> hs;
    static const char* names[] = { "Subject", "From", "To", "Cc", "Bcc", "Message-ID", "In-Reply-To", "References" };
    for (int i = 0; i < 8; i++) {
        if (!c.chance(plain ? 1 : 2, 4)) continue;
        std::string want, raw = w.words(i < 5, want);
        std::string start = raw.empty() ? "" : plain || c.chance(3, 4) ? " " : c.flip() ? "" : w.fold();
        hs.push_back(w.anyCase(names[i]) + ":" + start + raw);
        a.headers.push_back(std::make_pair(std::string(names[i]), want));
    }
    if (!plain) {
        if (c.chance(1, 3)) hs.push_back("Received: from a" + w.fold() + "by b;" + w.fold() + "Thu, 1 Jan 1970 00:00:00 +0000");
        if (c.chance(1, 3)) {
            std::string v = genName(c, 60);
            if (v.size() > 40 && c.flip()) {
                // a long line, folded or not
                std::string l = v + (c.flip() ? w.nl + "\t" : " ");
                size_t n = 1000 + (size_t)c.size(150000);
                v.clear();
                while (v.size() < n) v += l;
                v += "x";
                if (v.size() > 65536) c.label("mail: header line above 64 KiB");
            }
            hs.push_back("X-" + genName(c, 8) + ": " + v);
        }
        if (c.chance(1, 3)) hs.push_back("MIME-Version: 1.0");
    }
    bool single = a.singleMail;
    std::string boundary, type;
    std::vector<std::string> boundaries;
    if (!single) {
        boundaries.push_back(w.boundaryText(boundaries));
        type = w.ctype(boundaries.back());
    } else if (c.flip()) {
        type = c.flip() ? "text/plain" : "text/html;" + w.fold() + "charset=utf-8";
    }
    if (!type.empty()) {
        hs.push_back(w.anyCase("Content-Type") + ": " + type);
        a.headers.push_back(std::make_pair(std::string("Content-Type"), type));
    }
    if (hs.empty()) hs.push_back("Date: today");
    if (!plain) for (size_t i = 0; i + 1 < hs.size(); i++) std::swap(hs[i], hs[i + c.draw(hs.size() - i)]);
    for (const Bytes& h : hs) a.bytes += h + w.nl;
    a.bytes += w.nl;
    if (single) {
        Entry& e = a.entries[0];
        if (e.content.empty()) e.content = "x";
        e.name = "body";
        e.size = -2;
        e.mtime = -1;
        e.type = EntryInfo::File;
        a.bytes += e.content;
        c.label("mail: single part");
    } else {
        std::vector<Entry> todo = a.entries;
        size_t n = todo.size();
        a.bytes += w.multipart(todo, n, boundaries, 0);
        a.entries = w.out;
        if (!plain) a.bytes += w.lines(std::vector<std::string>());
        c.label("mail: multipart");
    }
    a.endOfEntries = (int64_t)a.bytes.size();
    a.notes.push_back(w.nl == "\n" ? "LF lines" : "CRLF lines");
}

// ---- sdf ---------------------------------------------------------------------------
static void writeSdf(Choices& c, Archive& a, bool plain) {
    std::string nl = c.flip() ? "\r\n" : "\n";
    for (size_t i = 0; i < a.entries.size(); i++) {
        Entry& e = a.entries[i];
        Bytes t;
        if (i == 0) {
            t = genName(c, plain ? 10 : 80) + nl + (plain || c.flip() ? std::string("  program") : genName(c, 80)) + nl
                + (c.flip() ? "" : genName(c, 40)) + nl + "  3  2  0  0  0  0  0  0  0  0999 V2000" + nl;
        } else {
            t = "m";
        }
        t += e.content;
        bool brief = i && !plain && c.chance(1, 5);
        if (brief) t.resize(1 + c.size(std::min<int64_t>((int64_t)t.size() - 1, 12)));
        for (size_t p; (p = t.find("$$$$")) != Bytes::npos;) t[p] = 's';
        if (!brief) t += "M  END" + nl;
        else if (c.flip()) t += nl;
        else if (t.back() == '$') t += 'm';
        e.content = t;
        e.name = "Molecule" + std::to_string(i + 1);
        e.type = EntryInfo::File;
        e.size = (int64_t)t.size();
        e.mtime = -1;
        e.dataStart = (int64_t)a.bytes.size();
        a.bytes += t;
        e.dataEnd = (int64_t)a.bytes.size();
        a.bytes += "$$$$";
        if (i + 1 < a.entries.size() || c.chance(3, 4)) {
            a.bytes += nl;
            if (!plain) for (int k = (int)c.size(3); k > 0; k--) a.bytes += nl;
        }
    }
    a.endOfEntries = (int64_t)a.bytes.size();
    if (!plain && a.bytes.size() && a.bytes.back() != '$' && c.chance(1, 4)) a.bytes += "trailing text" + nl;
}

// ---- ole ---------------------------------------------------------------------------
static void put32(Bytes& b, size_t off, uint32_t v) { for (int i = 0; i < 4; i++) b[off + i] = (char)(v >> (8 * i)); }
static void writeOle(Choices& c, Archive& a, const GenOpts& g) {
    const bool plain = g.plain;
    const size_t B = (size_t)1 << g.oleShift, M = (size_t)1 << g.oleMiniShift; // the sizes of the blocks
    const uint32_t cutoff = g.oleCutoff;
    const int64_t perTable = (int64_t)B / 4;
    // directory: the root, the streams and, in between, entries that are none
    struct Dir { std::string name; int type; int32_t start; uint32_t size; int member; };
    std::vector<Dir> dir;
    dir.push_back(Dir{ "Root Entry", 5, -2, 0, -1 });
    std::vector<Entry> out;
    for (size_t i = 0; i < a.entries.size(); i++) {
        if (!plain && c.chance(1, 6)) dir.push_back(Dir{ "Storage", 1, 0, 0, -1 });
        if (!plain && c.chance(1, 8)) dir.push_back(Dir{ "", 0, 0, 0, -1 });
        if (!plain && c.chance(1, 10)) dir.push_back(Dir{ "Empty", 2, -2, 0, -1 });
        Entry e = a.entries[i];
        if (e.content.empty()) e.content = "x";
        e.size = (int64_t)e.content.size();
        e.mtime = -1;
        e.checkType = false;
        dir.push_back(Dir{ e.name, 2, -2, (uint32_t)e.content.size(), (int)out.size() });
        out.push_back(e);
    }
    a.entries = out;
    while (dir.size() % (B / 128)) dir.push_back(Dir{ "", 0, 0, 0, -1 });
    // small blocks, in any order
    auto blocksOf = [](int64_t n, int64_t s) { return (n + s - 1) / s; };
    int64_t nSmall = 0;
    for (const Dir& d : dir) if (d.member >= 0 && d.size < cutoff) nSmall += blocksOf(d.size, (int64_t)M);
    bool shuffle = !plain && c.chance(3, 4);
    Rng rng(c.draw(1 << 20));
    auto order = [&](int64_t n) {
        std::vector<int32_t> v((size_t)n);
        for (int64_t i = 0; i < n; i++) v[(size_t)i] = (int32_t)i;
        if (shuffle) for (int64_t i = n - 1; i > 0; i--) std::swap(v[(size_t)i], v[(size_t)rng.below((uint64_t)i + 1)]);
        return v;
    };
    int64_t spareSmall = nSmall && !plain ? (int64_t)c.draw(5) : 0;
    std::vector<int32_t> small = order(nSmall + spareSmall);
    std::vector<int32_t> sbat((size_t)(nSmall + spareSmall), -1);
    Bytes mini((size_t)(nSmall + spareSmall) * M, '\0');
    size_t s = 0;
    for (Dir& d : dir) {
        if (d.member < 0 || d.size >= cutoff) continue;
        const Bytes& t = a.entries[d.member].content;
        int32_t prev = -1;
        for (size_t o = 0; o < t.size(); o += M) {
            int32_t b = small[s++];
            memcpy(&mini[(size_t)b * M], t.data() + o, std::min<size_t>(M, t.size() - o));
            if (prev < 0) d.start = b; else sbat[prev] = b;
            prev = b;
        }
        sbat[prev] = -2;
    }
    int64_t nMini = blocksOf((int64_t)mini.size(), (int64_t)B), nSbat = blocksOf((int64_t)sbat.size() * 4, (int64_t)B);
    int64_t nDir = (int64_t)dir.size() / (int64_t)(B / 128), nBig = 0;
    for (const Dir& d : dir) if (d.member >= 0 && d.size >= cutoff) nBig += blocksOf(d.size, (int64_t)B);
    int64_t spare = plain ? 0 : (int64_t)c.draw(4);
    if (!plain && B == 512 && c.chance(1, 800)) { // needs more than 109 tables
        spare += 14100;
        c.label("ole: table of tables");
        if (g.oleHuge && c.chance(1, 3)) { spare += 16300 + (int64_t)c.draw(300); c.label("ole: two tables of tables"); }
    }
    int64_t used = nMini + nSbat + nDir + nBig + spare, nBat = 1, nXbat = 0;
    for (;;) {
        nXbat = nBat > 109 ? blocksOf(nBat - 109, perTable - 1) : 0;
        int64_t need = blocksOf(used + nBat + nXbat, perTable);
        if (need <= nBat) break;
        nBat = need;
    }
    int64_t N = used + nBat + nXbat;
    std::vector<int32_t> blocks = order(N);
    std::vector<int32_t> bat((size_t)nBat * perTable, -1);
    size_t next = 0;
    Bytes file((size_t)(N + 1) * B, '\0');
    auto store = [&](const Bytes& data) { // writes a chain, returns its first block
        int32_t first = -2, prev = -1;
        for (size_t o = 0; o < data.size(); o += B) {
            int32_t b = blocks[next++];
            memcpy(&file[(size_t)(b + 1) * B], data.data() + o, std::min<size_t>(B, data.size() - o));
            if (prev < 0) first = b; else bat[prev] = b;
            prev = b;
        }
        if (prev >= 0) bat[prev] = -2;
        return first;
    };
    for (Dir& d : dir) if (d.member >= 0 && d.size >= cutoff) d.start = store(a.entries[d.member].content);
    dir[0].start = store(mini);
    dir[0].size = (uint32_t)mini.size();
    Bytes sb((size_t)nSbat * B, '\xff');
    for (size_t i = 0; i < sbat.size(); i++) put32(sb, i * 4, (uint32_t)sbat[i]);
    int32_t sbatStart = store(sb);
    Bytes db;
    for (const Dir& d : dir) {
        Bytes e(128, '\0');
        for (size_t i = 0; i < d.name.size(); i++) e[2 * i] = d.name[i];
        e[0x40] = (char)(d.name.empty() ? 0 : 2 * (d.name.size() + 1));
        e[0x42] = (char)d.type;
        e[0x43] = 1;
        put32(e, 0x44, (uint32_t)-1);
        put32(e, 0x48, (uint32_t)-1);
        put32(e, 0x4c, (uint32_t)-1);
        put32(e, 0x74, (uint32_t)d.start);
        put32(e, 0x78, d.size);
        db += e;
    }
    int32_t dirStart = store(db);
    std::vector<int32_t> batBlocks, xbatBlocks;
    for (int64_t i = 0; i < nBat; i++) { batBlocks.push_back(blocks[next++]); bat[batBlocks.back()] = -3; }
    for (int64_t i = 0; i < nXbat; i++) { xbatBlocks.push_back(blocks[next++]); bat[xbatBlocks.back()] = -4; }
    for (int64_t i = 0; i < nBat; i++)
        for (int j = 0; j < perTable; j++) put32(file, (size_t)(batBlocks[i] + 1) * B + 4 * j, (uint32_t)bat[i * perTable + j]);
    static const unsigned char magic[] = { 0xd0, 0xcf, 0x11, 0xe0, 0xa1, 0xb1, 0x1a, 0xe1 };
    memcpy(&file[0], magic, 8);
    file[0x18] = 0x3e; file[0x1a] = (char)(B == 4096 ? 4 : 3); file[0x1c] = (char)0xfe; file[0x1d] = (char)0xff; file[0x1e] = (char)g.oleShift; file[0x20] = (char)g.oleMiniShift;
    put32(file, 0x2c, (uint32_t)nBat);
    put32(file, 0x30, (uint32_t)dirStart);
    put32(file, 0x38, cutoff);
    put32(file, 0x3c, (uint32_t)sbatStart);
    put32(file, 0x40, (uint32_t)nSbat);
    put32(file, 0x44, nXbat ? (uint32_t)xbatBlocks[0] : (uint32_t)-2);
    put32(file, 0x48, (uint32_t)nXbat);
    for (int64_t i = 0; i < 109; i++) put32(file, 76 + 4 * (size_t)i, i < nBat ? (uint32_t)batBlocks[i] : (uint32_t)-1);
    for (int64_t i = 0; i < nXbat; i++) {
        size_t at = (size_t)(xbatBlocks[i] + 1) * B;
        for (int64_t j = 0; j < perTable - 1; j++) put32(file, at + 4 * (size_t)j, 109 + i * (perTable - 1) + j < nBat ? (uint32_t)batBlocks[109 + i * (perTable - 1) + j] : (uint32_t)-1);
        put32(file, at + B - 4, i + 1 < nXbat ? (uint32_t)xbatBlocks[i + 1] : (uint32_t)-2);
    }
    a.bytes = file;
    a.endOfEntries = (int64_t)file.size();
}

// ---- choosing ------------------------------------------------------------------------
static void write(Choices& c, Archive& a, const GenOpts& g) {
    const bool plain = g.plain;
    switch (a.kind) {
    case Tar: writeTar(c, a, plain); break;
    case Zip: writeZip(c, a, plain); break;
    case Ar: writeAr(c, a, plain); break;
    case Cpio: writeCpio(c, a, plain); break;
    case Rpm: writeRpm(c, a, plain); break;
    case Mail: writeMail(c, a, plain); break;
    case Sdf: writeSdf(c, a, plain); break;
    default: writeOle(c, a, g); break;
    }
}
Archive writeArchive(Choices& c, int kind, std::vector<Entry> entries, bool plain) {
    Archive a;
    a.kind = kind;
    a.entries = entries;
    GenOpts g;
    g.plain = plain;
    write(c, a, g);
    return a;
}
Archive genArchive(Choices& c, int kind, const GenOpts& o) {
    static const std::vector<int64_t> tarNear = { 0, 1, 512, 511, 513, 1024, 1536, 2048 };
    static const std::vector<int64_t> evenNear = { 0, 1, 2, 3, 60, 1024, 2047 };
    static const std::vector<int64_t> textNear = { 0, 1, 70, 76, 1000, 1024, 2000 };
    static const std::vector<int64_t> sdfNear = { 0, 900, 960, 1010, 1020, 1985, 2044 };
    static const std::vector<int64_t> oleNear = { 1, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 4608, 5120, 8192 };
    static const std::vector<int> longNames = { 4095, 4096, 32767, 32768, 40000, 65534 };
    Archive a;
    a.kind = kind;
    int n = (int)c.size(o.maxEntries);
    GenOpts g = o;
    if (kind == Ole) g.maxSize = std::max<int64_t>(g.maxSize, 8300);
    if (kind == Mail) {
        a.singleMail = !o.multipartOnly && c.chance(1, 3);
        if (a.singleMail) n = 1;
    }
    for (int i = 0; i < n; i++) {
        Entry e;
        GenOpts h = g;
        // now and then one that does not fit any buffer
        if (o.maxSize >= 3000 && !o.plain && c.chance(1, 40)) h.maxSize = std::max<int64_t>(h.maxSize, kind == Mail || kind == Sdf ? 40000 : 300000);
        switch (kind) {
        case Tar:
            e.name = genTarName(c, o);
            e.type = c.chance(1, 5) ? EntryInfo::Dir : !o.plain && c.chance(1, 8) ? EntryInfo::Unknown : EntryInfo::File;
            e.content = genContent(c, h, tarNear);
            break;
        case Zip:
            e.name = o.plain || c.chance(9, 10) ? genPath(c, 0, o.plain) : genPath(c, c.chance(1, 12) ? (size_t)c.pick(longNames) : 1 + c.draw(1500));
            e.type = c.chance(1, 6) ? EntryInfo::Dir : EntryInfo::File;
            e.content = genContent(c, h, evenNear);
            break;
        case Ar:
            e.name = genName(c, c.chance(1, 4) ? 60 : 17);
            if (c.chance(1, o.plain ? 10 : 5)) { // as GNU ar stores them with the modifier P
                e.name = genPath(c, 0, true);
                if (!o.plain && c.chance(1, 4)) e.name = "/" + e.name;
                if (e.name.find('/') != std::string::npos) c.label("ar: name with directories");
            }
            if (!o.plain && e.name.size() > 2 && c.chance(1, 8)) e.name[e.name.size() / 2] = ' ';
            e.content = genContent(c, h, evenNear);
            break;
        case Cpio: case Rpm:
            e.name = o.plain || c.chance(9, 10) ? genPath(c, 0, o.plain) : genPath(c, c.chance(1, 12) ? (size_t)c.pick(longNames) : 1 + c.draw(1500));
            if (e.name == "TRAILER!!!") e.name = "x";
            e.type = c.chance(1, 6) ? EntryInfo::Dir : EntryInfo::File;
            e.content = genContent(c, h, evenNear);
            break;
        case Mail:
            e.name = c.chance(1, 4) ? Bytes() : genName(c, 20);
            if (!e.name.empty() && c.chance(1, 6)) e.name += " b";
            e.content = genContent(c, h, textNear);
            break;
        case Sdf:
            e.content = genContent(c, h, sdfNear);
            break;
        default:
            e.name = genName(c, 30);
            if (!o.plain && c.chance(1, 6)) e.name[0] = (char)5;
            e.content = genContent(c, h, oleNear);
        }
        a.entries.push_back(e);
    }
    write(c, a, o);
    return a;
}
void noteArchive(Choices& c, const Archive& a) {
    c.note("%s archive of %zu bytes", kindName(a.kind), a.bytes.size());
    for (const std::string& n : a.notes) c.note("  %s", n.c_str());
    for (const auto& h : a.headers) c.note("  header %s: %s", h.first.c_str(), show(h.second).c_str());
    for (const Entry& e : a.entries)
        c.note("  entry %s type %d size %lld time %lld data %s", show(e.name).c_str(), (int)e.type, (long long)e.size, (long long)e.mtime, show(e.content).c_str());
    c.note("  bytes %s", show(a.bytes, 1200).c_str());
}

// ---- checking ------------------------------------------------------------------------
void checkEntryInfo(const EntryInfo& got, const Entry& want, size_t index, const char* kind) {
    if (want.checkName) REQUIRE(got.filename == want.name, "%s entry %zu is called %s instead of %s", kind, index, show(got.filename).c_str(), show(want.name).c_str());
    if (want.checkType) REQUIRE(got.type == want.type, "%s entry %zu (%s) has type %d instead of %d", kind, index, show(want.name).c_str(), (int)got.type, (int)want.type);
    if (want.size == -3) REQUIRE(got.size == -1 || got.size == (int64_t)want.content.size(), "%s entry %zu has size %lld instead of %zu or unknown", kind, index, (long long)got.size, want.content.size());
    else if (want.size != -2) REQUIRE(got.size == want.size, "%s entry %zu (%s) has size %lld instead of %lld", kind, index, show(want.name).c_str(), (long long)got.size, (long long)want.size);
    if (want.mtime >= 0) REQUIRE((int64_t)got.mtime == want.mtime, "%s entry %zu has time %lld instead of %lld", kind, index, (long long)got.mtime, (long long)want.mtime);
}
void checkIteration(Choices& c, SubStreamProvider& p, const Archive& a, const ReadPlan& plan) {
    const char* kind = kindName(a.kind);
    for (size_t i = 0; i < a.entries.size(); i++) {
        InputStream* s = p.nextEntry();
        REQUIRE(s, "%s: entry %zu of %zu is missing (status %s: %s)", kind, i, a.entries.size(), statusName(p.status()), p.error());
        REQUIRE(p.status() != Error, "%s: status %s at entry %zu", kind, statusName(p.status()), i);
        REQUIRE(p.currentEntry() == s, "%s: currentEntry() is not what nextEntry() returned", kind);
        checkEntryInfo(p.entryInfo(), a.entries[i], i, kind);
        StreamStatus st;
        Bytes got = drain(*s, plan, &st);
        requireSame(got, a.entries[i].content, (std::string(kind) + " entry " + std::to_string(i)).c_str());
        REQUIRE(st == Eof, "%s: entry %zu ends in status %s (%s)", kind, i, statusName(st), s->error());
        REQUIRE(s->size() == (int64_t)got.size(), "%s: entry %zu has size() %lld at its end instead of %zu", kind, i, (long long)s->size(), got.size());
        c.evaluations++;
    }
    for (int k = 0; k < 2; k++) {
        InputStream* s = p.nextEntry();
        REQUIRE(!s, "%s: an entry %s beyond the last one", kind, show(p.entryInfo().filename).c_str());
        REQUIRE(p.status() == Eof, "%s: the iteration ends in status %s (%s)", kind, statusName(p.status()), p.error());
    }
}
