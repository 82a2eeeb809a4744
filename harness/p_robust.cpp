// C27: damaged and arbitrary bytes in every parser, used in arbitrary ways.
#include "formats.h"
#include <strigi/processinputstream.h>
#include <strigi/archivereader.h>
#include "../lib/base64inputstream.h"
#include <strigi/dataeventinputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/inputstreamreader.h>
#include <strigi/kmpsearcher.h>
#include <strigi/mailinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/textutils.h>
#include <iostream>
#include <algorithm>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <unistd.h>

using namespace Strigi;
using pbt::fail;
using pbt::show;

static struct Quiet { Quiet() { std::cerr.rdbuf(nullptr); } } quiet;

// the largest single allocation of a case
static volatile size_t biggest = 0;
// the blocks that are in use and were taken since the count began
struct Live {
    enum { Slots = 1 << 16 };
    const volatile void* slot[Slots];
    size_t size[Slots];
    size_t used;
    volatile bool on, full;
    void begin() { memset((void*)slot, 0, sizeof slot); used = 0; full = false; on = true; }
    void end() { on = false; }
    static size_t place(const volatile void* p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
    void add(const volatile void* p, size_t n) {
        if (used > Slots / 2) { full = true; return; }
        size_t i = place(p);
        while (slot[i] && slot[i] != (void*)1) i = (i + 1) % Slots;
        if (!slot[i]) used++;
        slot[i] = p;
        size[i] = n;
    }
    void drop(const volatile void* p) {
        for (size_t i = place(p); slot[i]; i = (i + 1) % Slots) if (slot[i] == p) { slot[i] = (void*)1; return; }
    }
    size_t count() const { size_t n = 0; for (size_t i = 0; i < Slots; i++) n += slot[i] > (void*)1; return n; }
};
static Live live;
static void onMalloc(const volatile void* p, size_t n) {
    if (n > biggest) biggest = n;
    if (live.on) live.add(p, n);
}
static void onFree(const volatile void* p) { if (live.on && p) live.drop(p); }
static struct Hooks { Hooks() { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); } } hooks;

namespace {
// ---- bytes ---------------------------------------------------------------------
void putNumber(Choices& c, Bytes& b, size_t p) {
    static const std::vector<uint64_t> odd = { 0, 1, 2, 0xffffffff, 0xfffffffe, 0xfffffffd, 0x7fffffff, 0x80000000, 0xffff, 0x8000, 0x7fff, 0x100, 0xff, 0x10000, 0x7fffffffffffffffull,
        0x8000000000000000ull, 0xffffffffffffffffull, 0x40000000, 0x3fffffff, 0x7ffffff0 };
    uint64_t v = c.flip() ? c.pick(odd) : c.flip() ? c.draw(b.size() + 40) : c.draw(70000);
    char t[40];
    std::string s;
    switch (c.draw(7)) {
    case 0: s.assign((const char*)&v, 4); break;
    case 1: s.assign((const char*)&v, 2); break;
    case 2: s.assign((const char*)&v, 8); break;
    case 3: for (int i = 3; i >= 0; i--) s += (char)(v >> (8 * i)); break;
    case 4: snprintf(t, sizeof t, "%011llo", (unsigned long long)(v & 077777777777ull)); s = t; break;
    case 5: snprintf(t, sizeof t, "%08llx", (unsigned long long)(v & 0xffffffff)); s = t; break;
    default: snprintf(t, sizeof t, "%lld", (long long)v); s = t;
    }
    for (size_t i = 0; i < s.size() && p + i < b.size(); i++) b[p + i] = s[i];
}
// a place to damage: more often where headers are
size_t genPlace(Choices& c, const Bytes& b, const std::vector<size_t>& marks) {
    switch (c.draw(4)) {
    case 0: return (size_t)c.draw(b.size());
    case 1: return std::min<size_t>(b.size() - 1, (size_t)c.draw(600));
    case 2: return std::min<size_t>(b.size() - 1, 4 * (size_t)c.draw((b.size() + 3) / 4));
    default: {
        if (marks.empty()) return (size_t)c.draw(b.size());
        size_t m = c.pick(marks), back = (size_t)c.size(600);
        return std::min<size_t>(b.size() - 1, m > back ? m - back : 0);
    }
    }
}
void corrupt(Choices& c, Bytes& b, const std::vector<size_t>& marks) {
    static const char odd[] = { 0, (char)0xff, 0x7f, (char)0x80, ' ', '\n', '\r', '/', '"', ':', '=', '9', '-', '0' };
    int n = 1 + (int)c.size(8);
    for (int i = 0; i < n && !b.empty(); i++) {
        size_t p = genPlace(c, b, marks);
        switch (c.draw(10)) {
        case 0: b[p] = (char)c.draw(256); break;
        case 1: b[p] = (char)(b[p] ^ (1 << c.draw(8))); break;
        case 2: b.erase(p, 1 + c.size(600)); break;
        case 3: b.insert(p, genBytes(c, 600)); break;
        case 4: if (c.chance(1, 3)) b.resize(p); break;
        case 5: { // a part repeated or moved
            Bytes part = b.substr(p, 1 + c.size(600));
            b.insert(genPlace(c, b, marks), part);
            break; }
        case 6: b[p] = odd[c.draw(sizeof odd)]; break;
        default: putNumber(c, b, p);
        }
        if (b.size() > 2000000) b.resize(2000000);
    }
    // a checksum must not hide what comes behind it
}
void fixTar(Choices& c, Bytes& b) {
    for (size_t p = 0; p + 512 <= b.size(); p += 512) {
        bool looks = b[p] && isdigit((unsigned char)b[p + 124]);
        if (!looks || c.chance(1, 8)) continue;
        unsigned sum = 0;
        for (size_t i = 0; i < 512; i++) sum += i >= 148 && i < 156 ? ' ' : (unsigned char)b[p + i];
        char t[9];
        snprintf(t, sizeof t, "%06o", sum & 0777777);
        memcpy(&b[p + 148], t, 7);
        b[p + 155] = ' ';
    }
}
const char* const starts[] = { "PK\003\004", "!<arch>\n", "070701", "\xed\xab\xee\xdb\x03", "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", "Subject: x\n", "From: a\r\n", "BZh9", "\x1f\x8b\x08", "\x78\x9c",
    "]", "a\nb\nc\n V2000\n", "$$$$", "Content-Type: multipart/mixed; boundary=\"b\"\n\n--b\n", "=?utf-8?q?", "" };
Bytes genInput(Choices& c, int what) {
    Bytes b;
    std::vector<size_t> marks;
    bool tar = false;
    switch (c.weighted({ 10, 2, 2, 1 })) {
    case 0: case 1: {
        if (what < KindCount) {
            GenOpts o;
            o.maxSize = c.chance(1, 10) ? 9000 : 1200;
            o.maxEntries = 5;
            o.plain = c.chance(1, 3);
            Archive a = genArchive(c, what, o);
            b = a.bytes;
            for (const Entry& e : a.entries) if (e.dataStart >= 0) { marks.push_back((size_t)e.dataStart); marks.push_back((size_t)e.dataEnd); }
            tar = what == Tar;
        } else {
            b = genEncoded(c, what - KindCount, c.chance(1, 10) ? 100000 : 2000).bytes;
        }
        break; }
    case 2: b = starts[c.draw(sizeof starts / sizeof *starts)] + genBytes(c, 3000); c.label("only the start is right"); break;
    default: b = genBytes(c, 3000); c.label("arbitrary bytes");
    }
    if (!b.empty() && c.chance(7, 8)) corrupt(c, b, marks);
    if (tar && c.chance(3, 4)) fixTar(c, b);
    return b;
}

// ---- use -----------------------------------------------------------------------
volatile unsigned touched = 0;
void touch(const char* d, int64_t n) {
    unsigned x = 0;
    for (int64_t i = 0; i < n; i++) x += (unsigned char)d[i];
    touched = x;
}
// reads, skips and rewinds as it likes; everything handed out is looked at
void abuse(Choices& c, InputStream& s, const char* what, int64_t limit) {
    int ops = 1 + (int)c.size(24);
    bool toEnd = c.chance(1, 2);
    const char* last = nullptr;
    int64_t lastPos = 0, lastLen = 0;
    for (int i = 0; i < ops; i++) {
        int64_t pos = s.position();
        if (s.status() != Error) REQUIRE(pos >= 0, "%s: position %lld", what, (long long)pos);
        switch (c.weighted({ 6, 2, 3, 1 })) {
        case 0: {
            int32_t min = c.chance(1, 30) ? 1 + (int32_t)c.draw(3000000) : 1 + (int32_t)c.size(5000), max = c.flip() ? 0 : c.flip() ? min : (int32_t)c.size(9000);
            if (c.chance(1, 20)) max = -(int32_t)c.draw(3);
            const char* d = nullptr;
            int32_t n = s.read(d, min, max);
            if (n > 0) {
                REQUIRE(d, "%s: read gave %d bytes at no address", what, n);
                REQUIRE(max < std::max(min, 1) || n <= max, "%s: read(%d, %d) gave %d", what, min, max, n);
                touch(d, n);
            }
            last = n > 0 ? d : nullptr;
            lastPos = pos;
            lastLen = n;
            if (s.status() == Ok) REQUIRE(n >= min || n > 0, "%s: read(%d, %d) gave %d and status Ok", what, min, max, n);
            if (s.status() != Error) REQUIRE(s.position() == pos + std::max(n, 0), "%s: position %lld after %d bytes at %lld", what, (long long)s.position(), n, (long long)pos);
            break; }
        case 1: {
            int64_t k = c.chance(1, 20) ? (int64_t)c.draw(1ull << 40) : c.size(4000);
            int64_t n = s.skip(k);
            REQUIRE(n <= k, "%s: skip(%lld) gave %lld", what, (long long)k, (long long)n);
            last = nullptr;
            break; }
        case 2: {
            int64_t to = last && c.chance(2, 3) ? lastPos + c.range(0, lastLen) : c.size(pos + 500);
            bool inside = last && s.status() != Error && to >= lastPos && to <= lastPos + lastLen && s.position() == lastPos + lastLen;
            int64_t r = s.reset(to);
            if (inside) {
                REQUIRE(r == to, "%s: rewinding to %lld within the last read [%lld, %lld) gave %lld, status %s", what, (long long)to, (long long)lastPos, (long long)(lastPos + lastLen), (long long)r,
                    statusName(s.status()));
                touch(last, lastLen);
            }
            last = nullptr;
            break; }
        default:
            for (int k = 0; k < 3; k++) { s.size(); s.status(); if (s.error()) touch(s.error(), (int64_t)strlen(s.error())); }
        }
        if (s.status() == Error) REQUIRE(s.error(), "%s: an error without a text", what);
    }
    if (!toEnd) return;
    int64_t total = 0;
    const char* d = nullptr;
    while (s.status() == Ok) {
        int32_t n = s.read(d, 1, 0);
        if (n <= 0) {
            REQUIRE(s.status() != Ok, "%s: read gave %d and status Ok", what, n);
            break;
        }
        touch(d, n);
        total += n;
        REQUIRE(total <= limit, "%s: more than %lld bytes", what, (long long)limit);
        if (total > (64 << 20)) { c.label("long output"); break; }
    }
}
int64_t limitFor(int kind, size_t input) { // what an entry can hold at most
    switch (kind) {
    case Tar: case Ar: case Cpio: case Mail: case Sdf: case Ole: return (int64_t)input;
    case Zip: return 1100 * (int64_t)input + 1000;
    default: return 1ll << 40;
    }
}
void useProvider(Choices& c, SubStreamProvider& p, int kind, size_t input, int depth) {
    size_t most = kind == Rpm ? 1000000 : input + 10;
    size_t n = 0;
    bool all = c.chance(3, 4);
    const char* name = kind < KindCount ? kindName(kind) : "archive";
    if (c.chance(1, 30)) p.currentEntry();
    while (InputStream* s = p.nextEntry()) {
        n++;
        REQUIRE(n <= most, "%s of %zu bytes: more than %zu entries", name, input, most);
        if (n > 3000) { c.label("many entries"); break; }
        REQUIRE(p.currentEntry() == s, "%s: currentEntry() is not the entry", name);
        const EntryInfo& e = p.entryInfo();
        touch(e.filename.data(), (int64_t)e.filename.size());
        touch(e.filename.c_str(), (int64_t)strlen(e.filename.c_str()));
        int how = n < 40 ? c.weighted({ 3, 2, 6, depth ? 1 : 0 }) : 0;
        if (how == 1) { const char* d; int32_t m = s->read(d, 1, 0); if (m > 0) touch(d, m); }
        else if (how == 2) abuse(c, *s, name, limitFor(kind, input));
        else if (how == 3) {
            int k = (int)c.draw(KindCount + CodecCount);
            if (k < KindCount) {
                std::unique_ptr<SubStreamProvider> q(makeProvider(k, s));
                useProvider(c, *q, KindCount, input, depth - 1);
            } else {
                std::unique_ptr<InputStream> q(makeDecoder(k - KindCount, s));
                abuse(c, *q, "decoder of an entry", 1ll << 40);
            }
        }
        if (!all && c.chance(1, 3)) return;
    }
    REQUIRE(p.status() != Ok, "%s: no entry and status Ok", name);
    if (p.status() == Error) REQUIRE(p.error(), "%s: an error without a text", name);
    for (int i = (int)c.size(3); i > 0; i--) REQUIRE(!p.nextEntry(), "%s: an entry behind the end", name);
    c.label(n == 0 ? "no entry" : p.status() == Error ? "entries, then an error" : "entries");
}
class Opener : public StreamOpener {
public:
    Choices& c;
    const Bytes& b;
    std::string name;
    std::vector<std::unique_ptr<Source> > srcs;
    Opener(Choices& c_, const Bytes& b_) : c(c_), b(b_), name("x/f") {}
    InputStream* openStream(const std::string& url) {
        if (url != name) return 0;
        if (c.chance(1, 2)) return new ChunkStream(b, genDelivery(c));
        return new StringInputStream(b.data(), (int32_t)b.size(), true);
    }
    int stat(const std::string& url, EntryInfo& e) {
        if (url != name) return -1;
        e.filename = "f";
        e.type = EntryInfo::File;
        e.size = (int64_t)b.size();
        e.mtime = 1;
        return 0;
    }
};
void useReader(Choices& c, const Bytes& b) {
    Opener op(c, b);
    ArchiveReader r;
    r.addStreamOpener(&op);
    std::vector<std::string> urls(1, op.name);
    std::vector<InputStream*> open;
    int budget = 400;
    for (size_t i = 0; i < urls.size() && i < 30; i++) {
        std::string url = urls[i];
        if (c.chance(1, 6)) r.isArchive(url);
        if (c.chance(1, 6)) r.canHandle(url);
        if (c.chance(1, 4)) { EntryInfo e; r.stat(url, e); }
        if (c.chance(1, 3)) {
            InputStream* s = r.openStream(url);
            if (s) {
                abuse(c, *s, "opened stream", 1ll << 40);
                if (c.flip()) r.closeStream(s); else open.push_back(s);
            }
        }
        ArchiveReader::DirLister l(r.dirEntries(url));
        EntryInfo e;
        int abandon = c.chance(1, 4) ? (int)c.draw(4) : 1 << 20;
        while (abandon-- > 0 && budget-- > 0 && l.nextEntry(e)) {
            touch(e.filename.data(), (int64_t)e.filename.size());
            if (urls.size() < 40) urls.push_back(url + "/" + e.filename);
        }
        if (c.chance(1, 8)) { ArchiveReader::DirLister m(l); l = m; m.nextEntry(e); }
    }
    for (InputStream* s : open) r.closeStream(s);
}
// the reader of a block of exactly these bytes: reading outside shows
struct Exact {
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Exact(const Bytes& b) : p(new char[b.size()]), n(b.size()) { memcpy(p.get(), b.data(), n); }
};
void useHelpers(Choices& c, const Bytes& in) {
    // the sizes that decide if there is enough to tell
    static const std::vector<int64_t> edges = { 0, 1, 2, 3, 4, 6, 8, 12, 13, 16, 18, 26, 28, 30, 46, 60, 68, 76, 84, 96, 100, 110, 124, 128, 148, 156, 157, 240, 244, 256, 257, 262, 263, 345, 500, 512, 1024, 4096 };
    int64_t n = c.chance(2, 3) ? c.pick(edges) + c.range(-1, 1) : c.size((int64_t)in.size());
    Bytes b = in.substr(0, (size_t)std::max<int64_t>(0, n));
    Exact x(b);
    for (int k = 0; k < KindCount; k++) headerAccepts(k, x.p.get(), (int32_t)x.n);
    char nb;
    checkUtf8(x.p.get(), (int32_t)x.n, nb);
    checkUtf8(x.p.get(), (int32_t)x.n);
    Base64InputStream::decode(x.p.get(), x.n);
    KmpSearcher k(genBytes(c, 20));
    k.search(x.p.get(), (int32_t)x.n);
    std::string z(b.c_str());
    std::unique_ptr<char[]> t(new char[z.size() + 1]);
    memcpy(t.get(), z.c_str(), z.size() + 1);
    convertNewLines(t.get());
}
struct Ears : public DataEventHandler {
    int64_t n = 0;
    bool handleData(const char* d, uint32_t k) { touch(d, k); n += k; return true; }
    void handleEnd() {}
};
template <class R> void readWide(Choices& c, R& r) {
    for (int i = 1 + (int)c.size(20); i > 0 && r.status() == Ok; i--) {
        const wchar_t* d = nullptr;
        int32_t n = r.read(d, 1 + (int32_t)c.size(3000), c.flip() ? 0 : (int32_t)c.size(3000));
        wchar_t x = 0;
        for (int32_t k = 0; k < n; k++) x = (wchar_t)(x ^ d[k]);
        touched = (unsigned)x;
        if (n > 0 && c.flip()) {
            int64_t to = r.position() - c.range(0, n);
            REQUIRE(r.reset(to) == to, "reader: no rewind into the last read");
        }
    }
}
// files that are there, missing, empty or no files
void useFiles(Choices& c, const Bytes& b) {
    std::string f = writeScratchFile(c.chance(1, 4) ? Bytes() : b, pbt::scratchDir() + "/u" + std::to_string(getpid()));
    std::string path;
    switch (c.weighted({ 6, 2, 2, 1, 1 })) {
    case 0: path = f; break;
    case 1: path = pbt::scratchDir(); c.label("a directory"); break;
    case 2: path = f + ".missing"; c.label("missing file"); break;
    case 3: path = f + "/x"; break;
    default: path = std::string(c.flip() ? 300 : 5000, 'x');
    }
    static const FileInputStream::StreamTypeHint modes[] = { FileInputStream::Automatic, FileInputStream::Buffered, FileInputStream::Unbuffered, FileInputStream::MMap };
    FileStreamOpener o;
    int how = (int)c.draw(6);
    c.note("file %s, way %d", path.c_str(), how);
    std::unique_ptr<InputStream> s;
    if (how < 4) s.reset(FileInputStream::open(path.c_str(), modes[how], 1 + (int)c.size(10000)));
    else if (how == 4) { EntryInfo e; o.stat(path, e); s.reset(o.openStream(path)); }
    else {
        ArchiveReader r;
        r.addStreamOpener(&o);
        EntryInfo e;
        if (c.flip()) r.stat(path, e);
        if (c.flip()) r.isArchive(path);
        if (InputStream* t = r.openStream(path)) { abuse(c, *t, "opened file", 1ll << 40); r.closeStream(t); }
        ArchiveReader::DirLister l(r.dirEntries(path));
        for (int i = 0; i < 20 && l.nextEntry(e); i++) touch(e.filename.data(), (int64_t)e.filename.size());
    }
    if (s) {
        abuse(c, *s, "file", (int64_t)b.size());
        if (c.flip()) {
            std::unique_ptr<InputStream> d(makeDecoder((int)c.draw(CodecCount), s.get()));
            abuse(c, *d, "decoder of a file", 1ll << 40);
        }
    }
    unlink(f.c_str());
}
// output of a process, with or without input, read in any way
void useProcess(Choices& c, const Bytes& b) {
    const char* helper = getenv("VERIF_HELPER_child");
    REQUIRE(helper, "harness: no helper");
    std::vector<std::string> args(1, helper);
    switch (c.draw(5)) {
    case 0: args.push_back("e-1"); break;
    case 1: args.push_back("w" + std::to_string(c.size(200000))); break;
    case 2: args.push_back("e" + std::to_string(c.size(5000))); args.push_back("x1"); break;
    case 3: break;
    default: args[0] += ".missing"; c.label("missing command");
    }
    std::unique_ptr<Source> src;
    if (c.chance(2, 3)) src = genAnySource(c, b);
    c.note("process %s %s%s", args[0].c_str(), args.size() > 1 ? args[1].c_str() : "", src ? ", with input" : "");
    ProcessInputStream s(args, src ? src->top() : nullptr);
    const char* d;
    // amounts that do not depend on when the output comes
    for (int i = (int)c.size(6); i > 0 && s.status() == Ok; i--) {
        int32_t want = 1 + (int32_t)c.size(100000);
        int32_t n = s.read(d, want, want);
        if (n > 0) touch(d, n);
    }
    if (c.flip()) s.skip(c.size(50000));
}
// one use of the library on one input; returns the size of the input
size_t scenario(Choices& c, bool failing) {
    int what = (int)c.draw(KindCount + CodecCount);
    Bytes b = genInput(c, what);
    // compressed archives, with the damage inside
    int shell = 0;
    if (what < KindCount && c.chance(1, 8)) { b = gzipOf(b); shell = 1; }
    c.note("%s, %zu bytes: %s", what < KindCount ? kindName(what) : codecName(what - KindCount), b.size(), show(b, 6000).c_str());
    int use = c.weighted({ 10, 3, 3, 2, 2, failing ? 2 : 1, failing ? 1 : 0 });
    if (shell && use == 0) use = c.flip() ? 1 : 2;
    if (use == 5) { c.label("files"); useFiles(c, b); return b.size(); }
    if (use == 6) { c.label("process"); useProcess(c, b); return b.size(); }
    c.label(what < KindCount ? kindName(what) : codecName(what - KindCount));
    size_t input = b.size();
    {
        std::unique_ptr<Source> src;
        if (failing && c.chance(1, 3)) {
            Delivery d = genDelivery(c);
            d.failAt = c.size((int64_t)b.size());
            src.reset(new Source);
            src->owned.push_back(std::unique_ptr<InputStream>(new ChunkStream(b, d)));
            src->desc = "failing source";
            c.label("failing source");
        } else src = genAnySource(c, b);
        InputStream* in = src->top();
        if (!b.empty() && c.chance(1, 12)) in->skip((int64_t)c.size((int64_t)b.size()));
        c.note("from %s at %lld", src->desc.c_str(), (long long)in->position());
        switch (use) {
        case 0: {
            bool right = c.chance(9, 10);
            int k = right ? what : (int)c.draw(KindCount + CodecCount);
            if (k < KindCount) {
                c.note("as %s", kindName(k));
                std::unique_ptr<SubStreamProvider> p(makeProvider(k, in));
                if (k == Mail) {
                    MailInputStream& m = static_cast<MailInputStream&>(*p);
                    touched = (unsigned)(m.subject().size() + m.to().size() + m.contentType().size());
                }
                useProvider(c, *p, k, input, 2);
            } else {
                c.note("as %s", codecName(k - KindCount));
                std::unique_ptr<InputStream> d(makeDecoder(k - KindCount, in));
                abuse(c, *d, codecName(k - KindCount), 1ll << 40);
                if (d->status() == Error) c.label("decoder: error");
                else c.label(d->position() ? "decoder: data" : "decoder: no data");
            }
            break; }
        case 1: {
            c.label("chosen by content");
            SubStreamProviderProvider pp;
            std::unique_ptr<SubStreamProvider> p(pp.subStreamProvider(in));
            if (p) useProvider(c, *p, KindCount, input * 1100 + 1000, 2);
            break; }
        case 2:
            c.label("archive reader");
            useReader(c, b);
            break;
        case 3:
            c.label("helpers");
            useHelpers(c, b);
            break;
        default: {
            static const std::vector<const char*> sets = { "UTF-8", "UTF-16", "UTF-16LE", "UTF-32BE", "SHIFT_JIS", "ISO-2022-JP", "GB18030", "BIG5", "UTF-7", "EUC-KR", "HZ", "TSCII", "US-ASCII", "IBM930", "nonsense", "" };
            const char* set = c.pick(sets);
            c.note("character set %s", set);
            switch (c.draw(4)) {
            case 0: { EncodingInputStream e(in, set); abuse(c, e, "converter", 1ll << 40); c.label("converter"); break; }
            case 1: { InputStreamReader e(in, set); readWide(c, e); c.label("reader of wide characters"); break; }
            case 2: if (in->position() == 0) { Ears h; DataEventInputStream e(in, h); abuse(c, e, "event stream", 1ll << 40); c.label("event stream"); } break;
            default: { StringTerminatedSubStream e(in, b.empty() ? "x" : b.substr((size_t)c.draw(b.size()), 1 + (size_t)c.size(30))); abuse(c, e, "terminated part", 1ll << 40); c.label("terminated part"); }
            } }
        }
    }
        return input;
}
void c27(Choices& c) {
    biggest = 0;
    size_t input = scenario(c, false);
    // sizes in the input must not decide how much memory is taken
    REQUIRE(biggest <= (96u << 20) + 64 * input, "%zu bytes of memory were taken at once for %zu bytes of input", (size_t)biggest, input);
    if (input > 8) c.nontrivial();
}

// ---- C33: everything is given back -----------------------------------------------
int lowestDescriptor() {
    int f = dup(2);
    if (f >= 0) close(f);
    return f;
}
// the parts of files that are mapped, and memory that does not come from malloc
size_t mappings() {
    size_t n = 0;
    FILE* f = fopen("/proc/self/maps", "r");
    if (!f) return 0;
    char line[4096];
    while (fgets(line, sizeof line, f)) if (strstr(line, pbt::scratchDir().c_str())) n++;
    fclose(f);
    return n;
}
std::string who(const volatile void* p) {
    void* trace[12];
    int tid;
    size_t n = __asan_get_alloc_stack((void*)p, trace, 12, &tid);
    std::string s;
    for (size_t i = 0; i < n; i++) {
        char t[400];
        __sanitizer_symbolize_pc(trace[i], "%f %S", t, sizeof t);
        s += "  ";
        s += t;
        s += '\n';
    }
    return s;
}
static uint64_t buffer[Choices::MaxChoices];
void c33(Choices& c) {
    size_t input;
    // once as it is: what the library keeps for later (tables, converters) is kept now
    try {
        input = scenario(c, true);
    } catch (pbt::Fail&) { // C27 and others tell
        pbt::discard();
    }
    std::vector<uint64_t> drawn = c.drawn();
    size_t left = 0, bytes = 0;
    std::string where;
    int fd0 = lowestDescriptor();
    size_t maps0 = mappings();
    // what the C library loads again and again (its converters) comes and goes: only what grows with every
    // repetition was not given back
    live.begin();
    for (int round = 0; round < 8; round++) {
        volatile uint32_t count = 0;
        live.on = true;
        try {
            Choices again(buffer, &count, &drawn, 0, true, false);
            scenario(again, true);
        } catch (...) {
            live.end();
            pbt::discard(); // not the same twice
        }
        live.end();
        if (live.full) { c.label("too many blocks to tell"); break; }
        size_t now = live.count();
        if (now <= left) { left = 0; break; }
        left = now;
    }
    int fd1 = lowestDescriptor();
    REQUIRE(fd1 == fd0, "descriptors were left open (the lowest free one was %d, now %d)", fd0, fd1);
    REQUIRE(mappings() <= maps0, "%zu files were left mapped", mappings() - maps0);
    if (left && !live.full) {
        for (size_t i = 0; i < Live::Slots; i++) if (live.slot[i] > (void*)1) {
            bytes += live.size[i];
            if (where.empty()) where = who(live.slot[i]);
        }
        c.note("%s", where.c_str());
        fail("%zu blocks with %zu bytes are still in use after everything was closed, eight times", left, bytes);
    }
    if (input > 8) c.nontrivial();
}
}
static pbt::Register r33({ "C33", c33,
    "the inputs and uses of C27, also with sources that fail and streams of processes, and abandoned at any point: run twice, the second time counting the blocks of memory, descriptors and mapped files that are "
    "left when everything was closed (seven more times when some are, and only what grows every time counts, not what is kept for reuse). Non-trivial: more than eight bytes", 40000, 2000000, 35, 10, 0 });
static pbt::Register r27({ "C27", c27,
    "valid archives of eight formats and encodings of six kinds with up to nine edits (bytes, bits, numbers in the forms the headers use, parts removed, inserted, moved or cut; tar "
    "checksums mended), right beginnings followed by anything, and arbitrary bytes; given to the parser, to the wrong parser, to the chooser, to the archive reader, to converters and "
    "helpers, through random sources, and read, skipped, rewound with sane and odd arguments, nested and abandoned; sanitizers, time and memory limits and the stream invariants judge. "
    "Non-trivial: more than eight bytes", 150000, 4000000, 35, 10, 0 });
