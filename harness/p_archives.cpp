// C15-C22: every archive format against its own writer.
// C23: consumption of entries does not matter.  C24: delivery does not matter.
// C29: cut archives.  C31: format detection.
#include "formats.h"
#include <strigi/archivereader.h>
#include "huge.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <algorithm>
using namespace Strigi;
using namespace pbt;

static GenOpts genOpts(Choices& c) {
    GenOpts o;
    o.maxEntries = c.chance(1, 30) ? 40 : 6;
    return o;
}
// an archive may begin anywhere in a stream
struct PlacedArchive {
    std::unique_ptr<Source> src;
    InputStream* in() const { return src->top(); }
};
static PlacedArchive placeArchive(Choices& c, const Bytes& bytes, bool atStart = false) {
    PlacedArchive p;
    Bytes before = atStart || c.chance(3, 4) ? Bytes() : genBytes(c, 600);
    p.src = genAnySource(c, before + bytes);
    c.note("at %zu of %s", before.size(), p.src->desc.c_str());
    if (!before.empty()) {
        if (p.in()->skip((int64_t)before.size()) != (int64_t)before.size()) fail("harness: the source does not skip %zu", before.size());
        c.label("not at the start");
    }
    return p;
}
static void labelArchive(Choices& c, const Archive& a) {
    int64_t total = 0;
    for (const Entry& e : a.entries) total += (int64_t)e.content.size();
    if (a.entries.empty()) c.label("no entries");
    if (a.entries.size() > 1 && total > 1) c.nontrivial();
    if (total > 200000) c.label("large");
}
static void checkMailHeaders(MailInputStream& m, const Archive& a) {
    for (const auto& h : a.headers) {
        std::string got;
        if (h.first == "Subject") got = m.subject();
        else if (h.first == "Content-Type") got = m.contentType();
        else if (h.first == "From") got = m.from();
        else if (h.first == "To") got = m.to();
        else if (h.first == "Cc") got = m.cc();
        else if (h.first == "Bcc") got = m.bcc();
        else if (h.first == "Message-ID") got = m.messageid();
        else if (h.first == "In-Reply-To") got = m.inreplyto();
        else if (h.first == "References") got = m.references();
        else fail("harness: header %s", h.first.c_str());
        REQUIRE(got == h.second, "mail: header %s is %s instead of %s", h.first.c_str(), show(got, 200).c_str(), show(h.second, 200).c_str());
    }
    static const char* all[] = { "Subject", "From", "To", "Cc", "Bcc", "Message-ID", "In-Reply-To", "References", "Content-Type" };
    std::string values[] = { m.subject(), m.from(), m.to(), m.cc(), m.bcc(), m.messageid(), m.inreplyto(), m.references(), m.contentType() };
    for (int i = 0; i < 9; i++) {
        bool present = false;
        for (const auto& h : a.headers) if (h.first == all[i]) present = true;
        REQUIRE(present || values[i].empty(), "mail: header %s is %s without being there", all[i], show(values[i]).c_str());
    }
}
// archives of small members around one or two of several GiB
static void le(Bytes& b, uint64_t v, int n) { while (n--) { b += (char)v; v >>= 8; } }
static Bytes smallHeader(int kind, const std::string& name, int64_t size, const Bytes* data) {
    char h[512];
    memset(h, 0, sizeof h);
    Bytes r;
    switch (kind) {
    case Tar:
        snprintf(h, 100, "%s", name.c_str());
        snprintf(h + 100, 8, "0000644"); snprintf(h + 108, 8, "0000000"); snprintf(h + 116, 8, "0000000");
        snprintf(h + 124, 12, "%011llo", (unsigned long long)size);
        snprintf(h + 136, 12, "%011o", 1234567);
        h[156] = '0';
        memcpy(h + 257, "ustar  ", 8);
        memset(h + 148, ' ', 8);
        { unsigned sum = 0; for (int i = 0; i < 512; i++) sum += (unsigned char)h[i]; snprintf(h + 148, 8, "%06o", sum); h[155] = ' '; }
        return Bytes(h, 512);
    case Ar:
        snprintf(h, sizeof h, "%-16s%-12d%-6d%-6d%-8s%-10lld`\n", (name + "/").c_str(), 1234567, 0, 0, "100644", (long long)size);
        return Bytes(h, 60);
    case Cpio:
        snprintf(h, sizeof h, "070701%08x%08x%08x%08x%08x%08x%08llx%08x%08x%08x%08x%08x%08x", 1, 0100644, 0, 0, 1, 1234567, (unsigned long long)size, 8, 1, 0, 0, (unsigned)name.size() + 1, 0);
        r = Bytes(h, 110) + name + '\0';
        while (r.size() % 4) r += '\0';
        return r;
    default:
        r = Bytes("PK\3\4", 4);
        le(r, 20, 2); le(r, 0, 2); le(r, 0, 2); le(r, 0x3c8f6000, 4);
        le(r, data ? crc32Of(*data) : 0, 4); le(r, (uint64_t)size, 4); le(r, (uint64_t)size, 4); le(r, name.size(), 2); le(r, 0, 2);
        return r + name;
    }
}
static void hugeEntries(Choices& c, int kind) {
    HugeStream h(c.flip());
    int64_t limit = kind == Tar ? 077777777777ll : kind == Ar ? 9999999999ll : 0xfffffffell;
    struct Member { std::string name; int64_t size, at; Bytes data; bool huge; };
    std::vector<Member> ms;
    if (c.chance(1, 3)) h.fill(c.flip() ? c.size(2000) : genHugeSize(c, 1ll << 33));
    int64_t start = h.total();
    if (kind == Ar) h.add("!<arch>\n");
    int n = 1 + (int)c.draw(3);
    for (int i = 0; i < n; i++) {
        Member m;
        m.name = "m" + std::to_string(i);
        m.huge = i == n / 2 || c.chance(1, 3);
        if (!m.huge) m.data = genBytes(c, 1500);
        m.size = m.huge ? genHugeSize(c, limit) : (int64_t)m.data.size();
        h.add(smallHeader(kind, m.name, m.size, m.huge ? nullptr : &m.data));
        m.at = h.total();
        if (m.huge) h.fill(m.size); else if (m.size) h.add(m.data);
        int64_t block = kind == Tar ? 512 : kind == Cpio ? 4 : kind == Ar ? 2 : 1, pad = (block - m.size % block) % block;
        if (pad) h.add(Bytes((size_t)pad, kind == Ar ? '\n' : '\0'));
        ms.push_back(m);
        c.note("%s member %s of %lld bytes at %lld", kindName(kind), m.name.c_str(), (long long)m.size, (long long)m.at);
    }
    if (kind == Tar) h.add(Bytes(1024, '\0'));
    if (kind == Cpio) h.add(smallHeader(Cpio, "TRAILER!!!", 0, nullptr));
    if (kind == Zip) h.add(Bytes("PK\5\6", 4) + Bytes(18, '\0'));
    if (h.skip(start) != start) fail("harness: skip");
    std::unique_ptr<SubInputStream> window;
    InputStream* in = &h;
    if (c.chance(1, 3)) { window.reset(new SubInputStream(&h, c.flip() ? -1 : h.total() - start)); in = window.get(); start = 0; }
    std::unique_ptr<SubStreamProvider> sp(makeProvider(kind, in));
    for (size_t i = 0; i < ms.size(); i++) {
        const Member& m = ms[i];
        InputStream* s = sp->nextEntry();
        REQUIRE(s, "%s: entry %zu is missing (status %s: %s)", kindName(kind), i, statusName(sp->status()), sp->error());
        REQUIRE(sp->entryInfo().filename == m.name && sp->entryInfo().size == m.size, "%s: entry %zu is %s of %lld bytes instead of %s of %lld", kindName(kind), i,
            show(sp->entryInfo().filename).c_str(), (long long)sp->entryInfo().size, m.name.c_str(), (long long)m.size);
        if (!m.huge) requireSame(drain(*s, genPlan(c)), m.data, "small member");
        else if (!c.chance(1, 4)) exerciseHuge(c, *s, m.size, m.at, c.flip(), "huge member");
        c.evaluations++;
    }
    InputStream* s = sp->nextEntry();
    REQUIRE(!s && sp->status() == Eof, "%s: the iteration ends in status %s (%s)", kindName(kind), statusName(sp->status()), sp->error());
    c.label("members of several GiB");
    c.nontrivial();
}
static void setZone(const char* z) { setenv("TZ", z, 1); tzset(); }
static void iterates(Choices& c, int kind) {
    if (kind == Zip) { // which stores local times
        static const std::vector<const char*> zones = { "UTC0", "UTC0", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:45", "NZST-12NZDT,M9.5.0,M4.1.0/3" };
        const char* z = c.pick(zones);
        setZone(z);
        c.note("zone %s", z);
    }
    if ((kind == Tar || kind == Zip || kind == Ar || kind == Cpio) && c.chance(1, 20)) { hugeEntries(c, kind); return; }
    GenOpts opts = genOpts(c);
    opts.oleHuge = true;
    Archive a = genArchive(c, kind, opts);
    noteArchive(c, a);
    ReadPlan plan = genPlan(c);
    PlacedArchive p;
    if (kind == Ole && a.bytes.size() > 9900000) {
        // documents this large are read from sources with a known size only
        static const std::vector<int> known = { SrcString, SrcFile, SrcSkipping, SrcMMap, SrcSubKnown };
        p.src = genSource(c, a.bytes, known);
    } else {
        p = placeArchive(c, a.bytes);
    }
    std::unique_ptr<SubStreamProvider> sp(makeProvider(kind, p.in()));
    if (kind == Mail) checkMailHeaders(static_cast<MailInputStream&>(*sp), a);
    checkIteration(c, *sp, a, plan);
    labelArchive(c, a);
    if (kind == Mail && !a.headers.empty()) c.nontrivial();
}
#define ITERATION(n, id, kind, quick, thorough, what) \
    static void n(Choices& c) { iterates(c, kind); } \
    static Register r##n({ id, n, "random archives written by an independent writer (" what "), delivered by a random source, iterated with random request sizes; " \
        "every entry's data, size, name, type and time and the end are checked. Non-trivial: two entries or more with content", quick, thorough, 25, 20, 0 });
ITERATION(c15, "C15", Tar, 110000, 1500000, "old, ustar and GNU headers, long names and link targets, prefixes, padding variants, directories, links and devices")
ITERATION(c16, "C16", Zip, 110000, 1500000, "stored and deflated, sizes in front or in descriptors with and without signature, extra fields, comments, directories")
ITERATION(c17, "C17", Ar, 110000, 1500000, "short names in both styles, name tables, symbol tables, odd sizes")
ITERATION(c18, "C18", Cpio, 110000, 1500000, "any alignment, upper and lower case digits, leading ./, padded names")
ITERATION(c19, "C19", Rpm, 40000, 700000, "any lead, signature and header sizes, gzip, bzip2 or lzma payload")
ITERATION(c20, "C20", Mail, 110000, 1500000, "headers folded, in any case and order, with encoded words; nested parts, base64 or not, named or numbered; single parts, non-trivial also with headers")
ITERATION(c21, "C21", Sdf, 110000, 1500000, "molecules of any size, CRLF and LF, empty lines between")
ITERATION(c22, "C22", Ole, 60000, 700000, "big and small blocks in any order, spare blocks, storages, empty streams, tables of tables")

// ---- C23 -------------------------------------------------------------------------
static void c23(Choices& c) {
    int kind = (int)c.draw(KindCount);
    c.label(kindName(kind));
    Archive a = genArchive(c, kind, genOpts(c));
    noteArchive(c, a);
    PlacedArchive p = placeArchive(c, a.bytes);
    std::unique_ptr<SubStreamProvider> sp(makeProvider(kind, p.in()));
    bool partial = false;
    for (size_t i = 0; i < a.entries.size(); i++) {
        const Entry& e = a.entries[i];
        InputStream* s = sp->nextEntry();
        REQUIRE(s, "%s: entry %zu of %zu is missing (status %s: %s)", kindName(kind), i, a.entries.size(), statusName(sp->status()), sp->error());
        checkEntryInfo(sp->entryInfo(), e, i, kindName(kind));
        std::string what = std::string(kindName(kind)) + " entry " + std::to_string(i);
        int how = (int)c.draw(6);
        c.note("entry %zu: way %d", i, how);
        ContractOptions o;
        o.full = false;
        o.maxOps = 20;
        switch (how) {
        case 0: break;
        case 1: case 2: // some operations
            o.finish = false;
            o.rewinds = how == 1;
            exercise(c, *s, e.content, o, what.c_str());
            break;
        case 3:
            exercise(c, *s, e.content, o, what.c_str());
            break;
        case 4: { // the same entry's data twice, then on
            const char* d;
            int32_t n = s->read(d, 1 + (int32_t)c.size((int64_t)e.content.size()), 0);
            if (n > 0) {
                REQUIRE(s->reset(0) == 0, "%s: cannot rewind", what.c_str());
                int32_t m = s->read(d, n, n);
                REQUIRE(m == n && e.content.compare(0, n, d, n) == 0, "%s: other data after a rewind", what.c_str());
                if (c.flip()) s->reset(c.range(0, n));
            }
            break; }
        default: {
            ReadPlan plan = genPlan(c);
            StreamStatus st;
            requireSame(drain(*s, plan, &st), e.content, what.c_str());
            REQUIRE(st == Eof, "%s ends in status %s", what.c_str(), statusName(st)); }
        }
        if (how < 3 || how == 4) partial = partial || e.content.size() > 1;
        c.evaluations++;
    }
    InputStream* s = sp->nextEntry();
    REQUIRE(!s, "%s: an entry %s beyond the last one", kindName(kind), show(sp->entryInfo().filename).c_str());
    REQUIRE(sp->status() == Eof, "%s: the iteration ends in status %s: %s", kindName(kind), statusName(sp->status()), sp->error());
    if (partial && a.entries.size() > 1) c.nontrivial();
}
static Register r23({ "C23", c23,
    "random archives of all eight formats; each entry is left unread, partly read, skipped, rewound or read to its end in random ways before moving on; names, types, "
    "sizes, times and content of all entries are checked. Non-trivial: two entries or more, one of them with content not read completely", 90000, 1500000, 25, 20, 0 });

// ---- C24 -------------------------------------------------------------------------
struct Seen {
    struct Item { std::string name; int type; int64_t size; int64_t mtime; Bytes data; StreamStatus st; int64_t endSize; };
    std::vector<Item> items;
    StreamStatus end = Ok;
    std::vector<std::string> headers;
};
static Seen observe(int what, InputStream* in, const ReadPlan& plan, const std::vector<bool>& readIt) {
    Seen r;
    if (what >= KindCount) {
        std::unique_ptr<InputStream> d(makeDecoder(what - KindCount, in));
        Seen::Item it;
        it.type = 0; it.size = -1; it.mtime = 0;
        it.data = drain(*d, plan, &it.st);
        it.endSize = it.st == Eof ? d->size() : -1;
        r.end = it.st;
        r.items.push_back(it);
        return r;
    }
    std::unique_ptr<SubStreamProvider> sp(makeProvider(what, in));
    if (what == Mail) {
        MailInputStream& m = static_cast<MailInputStream&>(*sp);
        r.headers = { m.subject(), m.contentType(), m.from(), m.to(), m.cc(), m.bcc(), m.messageid(), m.inreplyto(), m.references() };
    }
    size_t i = 0;
    while (InputStream* s = sp->nextEntry()) {
        Seen::Item it;
        it.name = sp->entryInfo().filename;
        it.type = (int)sp->entryInfo().type;
        it.size = sp->entryInfo().size;
        it.mtime = (int64_t)sp->entryInfo().mtime;
        it.st = Ok;
        it.endSize = -1;
        if (readIt[i++ % readIt.size()]) {
            it.data = drain(*s, plan, &it.st);
            if (it.st == Eof) it.endSize = s->size();
        }
        r.items.push_back(it);
        if (r.items.size() > 100000) fail("%s: more than 100000 entries", kindName(what));
    }
    r.end = sp->status();
    return r;
}
static void damage(Choices& c, Bytes& b) {
    int n = 1 + (int)c.draw(3);
    for (int i = 0; i < n && !b.empty(); i++) {
        size_t p = (size_t)c.size((int64_t)b.size() - 1);
        if (c.flip()) p = (size_t)c.draw(b.size());
        switch (c.draw(5)) {
        case 0: b[p] = (char)c.draw(256); break;
        case 1: b[p] = (char)(b[p] ^ (1 << c.draw(8))); break;
        case 2: b.erase(p, 1 + c.size(40)); break;
        case 3: b.insert(p, genBytes(c, 40)); break;
        default: b.resize(p); break;
        }
    }
}
// the same file through the archive reader, delivered by two openers
class DeliveringOpener : public StreamOpener {
public:
    struct Opened : public InputStream {
        std::unique_ptr<Source> src;
        std::unique_ptr<StringInputStream> mem;
        InputStream* t;
        Opened(std::unique_ptr<Source> s, const Bytes& b) : src(std::move(s)), mem(src ? nullptr : new StringInputStream(b.data(), (int32_t)b.size(), true)), t(src ? src->top() : mem.get()) { sync(); }
        void sync() { m_status = t->status(); m_size = t->size(); m_position = t->position(); if (m_status == Error) m_error = t->error(); }
        int32_t read(const char*& start, int32_t min, int32_t max) { int32_t r = t->read(start, min, max); sync(); return r; }
        int64_t skip(int64_t n) { int64_t r = t->skip(n); sync(); return r; }
        int64_t reset(int64_t p) { int64_t r = t->reset(p); sync(); return r; }
    };
    Choices* c;
    const Bytes& bytes;
    DeliveringOpener(Choices* ch, const Bytes& b) : c(ch), bytes(b) {}
    InputStream* openStream(const std::string& url) {
        if (url != "f") return 0;
        return new Opened(c ? genAnySource(*c, bytes) : nullptr, bytes);
    }
    int stat(const std::string& url, EntryInfo& e) {
        if (url != "f") return -1;
        e.filename = "f";
        e.type = EntryInfo::File;
        e.size = (int64_t)bytes.size();
        e.mtime = 3;
        return 0;
    }
};
// everything below a path, as text
static void listAll(ArchiveReader& r, const std::string& path, int depth, std::string& out, size_t& n) {
    std::vector<EntryInfo> es;
    {
        ArchiveReader::DirLister l = r.dirEntries(path);
        EntryInfo e;
        while (es.size() < 200 && l.nextEntry(e)) es.push_back(e);
    }
    for (const EntryInfo& e : es) {
        if (++n > 60) return;
        std::string p = path + "/" + e.filename;
        out += pbt::show(p, 200) + " type " + std::to_string((int)e.type) + " size " + std::to_string((long long)e.size) + " time " + std::to_string((long long)e.mtime);
        if (e.type & EntryInfo::File) {
            InputStream* s = r.openStream(p);
            if (s) {
                StreamStatus st;
                ReadPlan plain;
                plain.reqs.push_back(std::make_pair(1, 0));
                Bytes d = drain(*s, plain, &st);
                out += ", holds " + std::to_string(d.size()) + " bytes " + std::to_string(std::hash<std::string>()(d)) + " " + statusName(st);
                r.closeStream(s);
            } else {
                out += ", does not open";
            }
        }
        out += "\n";
        if ((e.type & EntryInfo::Dir) && depth < 3) listAll(r, p, depth + 1, out, n);
    }
}
static void throughReader(Choices& c, const Bytes& bytes) {
    std::string seen[2];
    for (int i = 0; i < 2; i++) {
        DeliveringOpener op(i ? &c : nullptr, bytes);
        ArchiveReader r;
        r.addStreamOpener(&op);
        size_t n = 0;
        listAll(r, "f", 0, seen[i], n);
        c.evaluations++;
    }
    if (seen[0].size()) c.label("reader: entries");
    REQUIRE(seen[0] == seen[1], "the archive reader sees\n%s, and from the other source\n%s", seen[0].c_str(), seen[1].c_str());
}
static void c24(Choices& c) {
    int what = (int)c.draw(KindCount + CodecCount);
    const char* name = what < KindCount ? kindName(what) : codecName(what - KindCount);
    c.label(name);
    Bytes bytes;
    if (what < KindCount) {
        Archive a = genArchive(c, what, genOpts(c));
        noteArchive(c, a);
        bytes = a.bytes;
        if (a.entries.size() > 0) c.nontrivial();
    } else {
        Encoded e = genEncoded(c, what - KindCount, c.chance(1, 20) ? 300000 : 3000);
        c.note("%s: %zu bytes as %zu", e.desc.c_str(), e.plain.size(), e.bytes.size());
        bytes = e.bytes;
        if (e.plain.size() > 1) c.nontrivial();
    }
    bool damaged = c.chance(1, 2);
    if (damaged) { damage(c, bytes); c.label("damaged"); }
    if (c.chance(1, 6)) bytes += genBytes(c, 3000);
    // Damaged compressed data may be found out early or late, depending on how
    // much of it the decompressor has at hand; a reader of what it contains
    // may then be ready before, or not.
    bool late = damaged && (what == Zip || what == Rpm);
    std::vector<bool> readIt(5, true);
    if (c.chance(1, 3)) for (size_t i = 0; i < 5; i++) readIt[i] = c.flip();
    ReadPlan plan = genPlan(c), plain;
    plain.reqs.push_back(std::make_pair(1, 0));
    c.note("bytes %s", show(bytes, 3000).c_str());
    c.note("plan %s", describe(plan).c_str());
    StringInputStream simple(bytes.data(), (int32_t)bytes.size(), true);
    Seen a = observe(what, &simple, plain, readIt);
    auto src = genAnySource(c, bytes);
    c.note("other source: %s", src->desc.c_str());
    Seen b = observe(what, src->top(), plan, readIt);
    for (size_t i = 0; i < a.headers.size(); i++)
        REQUIRE(a.headers[i] == b.headers[i], "mail header %zu is %s, and %s from the other source", i, show(a.headers[i]).c_str(), show(b.headers[i]).c_str());
    bool parted = false;
    for (size_t i = 0; i < a.items.size() && i < b.items.size() && !parted; i++) {
        const Seen::Item &x = a.items[i], &y = b.items[i];
        REQUIRE(x.name == y.name, "%s: entry %zu is called %s, and %s from the other source", name, i, show(x.name).c_str(), show(y.name).c_str());
        REQUIRE(x.type == y.type && x.mtime == y.mtime, "%s: entry %zu differs in type or time", name, i);
        REQUIRE(x.size == y.size || x.size == -1 || y.size == -1, "%s: entry %zu has size %lld, and %lld from the other source", name, i, (long long)x.size, (long long)y.size);
        if (late && x.st != y.st && (x.st == Error || y.st == Error)) parted = true;
        else REQUIRE(x.st == y.st, "%s: entry %zu ends in status %s, and %s from the other source", name, i, statusName(x.st), statusName(y.st));
        if (x.st == Error || y.st == Error) {
            size_t n = std::min(x.data.size(), y.data.size());
            requireSame(y.data.substr(0, n), x.data.substr(0, n), "the data before an error, from the other source,");
        } else {
            requireSame(y.data, x.data, "an entry from the other source");
            REQUIRE(x.endSize == y.endSize, "%s: entry %zu has size() %lld at its end, and %lld from the other source", name, i, (long long)x.endSize, (long long)y.endSize);
        }
        c.evaluations++;
    }
    if (late && (a.end == Error || b.end == Error)) {
        const Seen &l = a.items.size() >= b.items.size() ? a : b, &f = a.items.size() >= b.items.size() ? b : a;
        REQUIRE(parted || l.items.size() == f.items.size() || f.end == Error, "%s: %zu entries and a clean end, and %zu from the other source", name, f.items.size(), l.items.size());
        c.label("ends in error");
        return;
    }
    REQUIRE(a.items.size() == b.items.size(), "%s: %zu entries, and %zu from the other source (%s / %s)", name, a.items.size(), b.items.size(), statusName(a.end), statusName(b.end));
    REQUIRE(a.end == b.end, "%s: the iteration ends in status %s, and %s from the other source", name, statusName(a.end), statusName(b.end));
    if (a.end == Error) c.label("ends in error");
    c.label("entries: " + std::to_string(std::min<size_t>(3, a.items.size())));
    if ((!damaged || (!late && what < KindCount)) && c.chance(1, 5)) throughReader(c, bytes);
}
static Register r24({ "C24", c24,
    "random archives and encoded streams, half of them damaged by random edits, read once from memory with the simplest requests and once from a random source (chunks, "
    "files, mapped files, windows, decompressed, unknown size) with random request sizes; entries, data and final status must be equal; one in five (not of the damaged compressed ones) also through the archive reader, listed to the "
    "bottom and every member opened. Non-trivial: there is an entry "
    "or data", 70000, 1500000, 25, 20, 0 });

// ---- C29 -------------------------------------------------------------------------
static void c29(Choices& c) {
    static const std::vector<int> kinds = { Tar, Zip, Ar, Cpio, Rpm, Ole };
    int kind = c.pick(kinds);
    c.label(kindName(kind));
    GenOpts o = genOpts(c);
    Archive a = genArchive(c, kind, o);
    if (a.bytes.empty()) discard();
    noteArchive(c, a);
    int64_t cut;
    std::vector<int64_t> marks;
    for (const Entry& e : a.entries) if (e.dataStart >= 0) { marks.push_back(e.dataStart); marks.push_back(e.dataEnd); }
    std::vector<size_t> full;
    for (size_t i = 0; i < a.entries.size(); i++) if (a.entries[i].dataEnd - a.entries[i].dataStart > 1) full.push_back(i);
    std::vector<size_t> behind;
    for (size_t i = 0; i < a.entries.size(); i++) if (a.entries[i].descriptorEnd >= 0) behind.push_back(i);
    switch (c.draw(5)) {
    case 0: cut = (int64_t)c.draw(a.bytes.size()); break;
    case 4: {
        const Entry* e = !behind.empty() && c.flip() ? &a.entries[c.pick(behind)] : nullptr;
        if (e) { cut = c.range(e->dataEnd, e->descriptorEnd - 1); break; }
        if (!a.entries.empty()) e = &a.entries[c.draw(a.entries.size())];
        if (!e || e->headerStart < 0) cut = (int64_t)c.draw(a.bytes.size());
        else cut = c.range(e->headerStart, e->dataStart);
        break; }
    case 1: cut = marks.empty() ? (int64_t)c.draw(a.bytes.size()) : c.pick(marks) + c.range(0, 8) - 4; break;
    case 2: cut = (int64_t)a.bytes.size() - 1 - c.size((int64_t)a.bytes.size() - 1); break;
    default:
        if (full.empty()) cut = (int64_t)c.draw(a.bytes.size());
        else { const Entry& e = a.entries[c.pick(full)]; cut = c.range(e.dataStart + 1, e.dataEnd - 1); }
    }
    cut = std::max<int64_t>(0, std::min<int64_t>(cut, (int64_t)a.bytes.size() - 1));
    Bytes bytes = a.bytes.substr(0, (size_t)cut);
    c.note("cut at %lld of %zu", (long long)cut, a.bytes.size());
    bool inData = false;
    for (const Entry& e : a.entries) if (e.dataStart >= 0 && cut > e.dataStart && cut < e.dataEnd) inData = true;
    // what belongs to an entry (ar allows for a closing byte)
    bool inRecord = false;
    for (const Entry& e : a.entries) if (e.headerStart >= 0 && cut > e.headerStart + (kind == Ar) && cut < std::max(e.dataEnd, e.descriptorEnd)) inRecord = true;
    ReadPlan plan = genPlan(c);
    auto src = genAnySource(c, bytes);
    c.note("source: %s", src->desc.c_str());
    std::unique_ptr<SubStreamProvider> sp(makeProvider(kind, src->top()));
    size_t i = 0;
    bool complete = true, anyError = false, allRead = true;
    while (InputStream* s = sp->nextEntry()) {
        REQUIRE(i < a.entries.size(), "%s: an entry %s that was not in the archive", kindName(kind), show(sp->entryInfo().filename).c_str());
        checkEntryInfo(sp->entryInfo(), a.entries[i], i, kindName(kind));
        const Entry& e = a.entries[i];
        int how = c.weighted({ 5, 1, 1 });
        if (how == 0) {
            StreamStatus st;
            Bytes got = drain(*s, plan, &st);
            if (st == Eof) requireSame(got, e.content, "an entry read to a clean end");
            else {
                REQUIRE(got.size() <= e.content.size() && e.content.compare(0, got.size(), got) == 0, "%s: entry %zu delivers other data before its error", kindName(kind), i);
                anyError = true;
            }
            // (all of a deflated entry may be there although its code was cut)
            if (st == Eof && e.dataStart >= 0 && kind != Zip) REQUIRE(cut >= e.dataEnd, "%s: entry %zu is read to a clean end, but was cut", kindName(kind), i);
        } else if (how == 1) {
            const char* d;
            int32_t k = s->read(d, 1, 0);
            REQUIRE(k <= (int32_t)e.content.size() && (k <= 0 || e.content.compare(0, k, d, k) == 0), "%s: entry %zu delivers other data", kindName(kind), i);
            allRead = false;
        } else allRead = false;
        i++;
        c.evaluations++;
    }
    complete = i == a.entries.size();
    StreamStatus st = sp->status();
    REQUIRE(st != Ok, "%s: no entry, but status Ok", kindName(kind));
    c.note("%zu entries, status %s", i, statusName(st));
    if (inData && kind != Ole) REQUIRE(st == Error, "%s: cut inside the data of an entry, but the iteration ends cleanly", kindName(kind));
    if (inRecord) REQUIRE(st == Error, "%s: cut inside a header or what belongs to an entry behind its data, but the iteration ends cleanly", kindName(kind));
    if (inRecord && !inData) c.label("cut in a header or descriptor");
    if (kind == Rpm && cut >= a.endOfEntries && !complete) REQUIRE(st == Error, "rpm: cut in the payload, %zu of %zu entries, but the iteration ends cleanly", i, a.entries.size());
    if (kind == Rpm && cut < a.endOfEntries) REQUIRE(st == Error && i == 0, "rpm: cut before the payload, but the iteration ends cleanly");
    if (kind == Ole && cut < 512) REQUIRE(st == Error && i == 0, "ole: cut in the header, but the iteration ends cleanly");
    // all entries are missed only if the archive could not be listed
    if (st == Eof && kind == Ole) REQUIRE(complete, "ole: %zu of %zu entries and a clean end", i, a.entries.size());
    if (inData || inRecord || anyError) c.nontrivial();
    if (inData) c.label("cut in data");
    (void)allRead;
}
static Register r29({ "C29", c29,
    "random tar, zip, ar, cpio, rpm and ole archives cut at random places, in particular inside entries and around their ends, from random sources; listed entries must "
    "be the original ones in order, entries read to a clean end complete, and the iteration must end in error when the cut is inside an entry's header, data or descriptor. Non-trivial: the "
    "cut is inside one of these or an entry was reported as cut", 60000, 2000000, 25, 20, 0 });

// ---- C34 -------------------------------------------------------------------------
// changes a part that a reader must recognize as wrong; false if there is none
static bool damageHeader(Choices& c, Archive& a, size_t& k) {
    Bytes& b = a.bytes;
    auto other = [&](int64_t p, const char* allowed) { // another byte, none of those
        if (p < 0 || p >= (int64_t)b.size()) return false;
        unsigned char old = (unsigned char)b[(size_t)p], x;
        static const std::vector<int> odd = { 'x', ' ', '/', '-', '+', '.', 'G', 'g', '@', ':', '9', '8', '\n', 0xff, 0x80, 0xb0, 1 };
        x = c.flip() ? (unsigned char)c.pick(odd) : (unsigned char)c.draw(256);
        if (x == old || x == 0 || strchr(allowed, x)) x = 'x';
        if (x == old) return false;
        b[(size_t)p] = (char)x;
        c.note("byte %lld: %02x becomes %02x", (long long)p, old, x);
        return true;
    };
    const int kind = a.kind;
    if (kind == Ole) { k = 0; return other(c.range(0, 7), ""); }
    if (kind == Rpm) {
        k = 0;
        auto be = [&](int64_t p) { int64_t v = 0; for (int i = 0; i < 4; i++) v = v * 256 + (unsigned char)b[(size_t)(p + i)]; return v; };
        int64_t p = 96;
        if (c.flip()) { int64_t n = be(p + 8) * 16 + be(p + 12); p += 16 + (n + 7) / 8 * 8; }
        if (c.chance(1, 4)) { // a negative number of entries or bytes
            int64_t q = p + (c.flip() ? 8 : 12);
            b[(size_t)q] = (char)(0x80 + c.draw(128));
            c.note("the size at %lld is negative", (long long)q);
            return true;
        }
        return other(p + c.range(0, 3), "");
    }
    if (a.entries.empty()) return false;
    k = (size_t)c.draw(a.entries.size());
    if (kind == Ar && c.chance(1, 6)) { k = 0; return other(c.range(0, 7), ""); }
    int64_t h = a.entries[k].headerStart;
    if (h < 0) return false;
    c.note("%s: header of entry %zu at %lld", kindName(kind), k, (long long)h);
    switch (kind) {
    case Zip: {
        if (!other(h + c.range(0, 3), "")) return false;
        Bytes sig = b.substr((size_t)h, 4); // the parts behind the members
        return sig != "PK\1\2" && sig != "PK\5\6" && sig != "PK\6\6" && sig != "PK\6\x8";
    }
    case Ar:
        if (c.chance(1, 4)) { // a name behind the end of the table
            b.replace((size_t)h, 16, "/9999999        ");
            c.note("name outside of the table");
            return true;
        }
        if (c.chance(1, 8)) {
            b.replace((size_t)h, 16, Bytes(16, c.flip() ? ' ' : '\0'));
            c.note("no name");
            return true;
        }
        if (c.flip()) return other(h + c.range(58, 59), "");
        return other(h + 48, "0123456789 ");
    case Cpio:
        switch (c.draw(5)) {
        case 0: return other(h + c.range(0, 5), "");
        case 1: return other(h + 54 + c.range(0, 7), "0123456789abcdefABCDEF");
        case 2: return other(h + 46 + c.range(0, 7), "0123456789abcdefABCDEF");
        case 3: return other(h + 94 + c.range(0, 7), "0123456789abcdefABCDEF");
        default: b.replace((size_t)h + 94, 8, "00000000"); c.note("no name"); return true;
        }
    default:
        switch (c.draw(5)) {
        case 4: {
            size_t n = strnlen(b.data() + h, 100);
            bool prefix = b[(size_t)h + 345] != 0;
            size_t q = h ? b.rfind("././@LongLink", (size_t)h - 1) : Bytes::npos;
            if (q != Bytes::npos && (int64_t)q + 512 + (strtol(b.c_str() + q + 124, nullptr, 8) + 511) / 512 * 512 == h) return false; // the name is in there
            b.replace((size_t)h, n, Bytes(n, '\0'));
            c.note("no name");
            return !prefix && n > 0; }
        case 0: return b[(size_t)h + 156] != 'V' && other(h + 124, "01234567 "); // a label has no size
        case 1: return other(h + 136, "01234567 ");
        case 2: { static const std::vector<int> ends = { 107, 115, 123, 256 };
            int at = c.pick(ends);
            if (at == 256 && (b[(size_t)h + 156] == '1' || b[(size_t)h + 156] == '2')) return false; // the target of a link may fill its field
            return other(h + at, ""); }
        default: {
            size_t n = strnlen(b.data() + h, 100);
            if (n > 98) return false;
            return other(h + c.range((int64_t)n + 1, 99), ""); }
        }
    }
}
static void c34(Choices& c) {
    static const std::vector<int> kinds = { Tar, Zip, Ar, Cpio, Rpm, Ole };
    int kind = c.pick(kinds);
    c.label(kindName(kind));
    Archive a = genArchive(c, kind, genOpts(c));
    noteArchive(c, a);
    size_t k = 0;
    if (!damageHeader(c, a, k)) discard();
    ReadPlan plan = genPlan(c);
    auto src = genAnySource(c, a.bytes);
    c.note("source: %s", src->desc.c_str());
    std::unique_ptr<SubStreamProvider> sp(makeProvider(kind, src->top()));
    for (size_t i = 0; i < k; i++) {
        InputStream* s = sp->nextEntry();
        REQUIRE(s, "%s: entry %zu is missing (status %s: %s)", kindName(kind), i, statusName(sp->status()), sp->error());
        checkEntryInfo(sp->entryInfo(), a.entries[i], i, kindName(kind));
        if (c.chance(2, 3)) requireSame(drain(*s, plan), a.entries[i].content, "an entry before the damage");
        else if (c.flip()) { const char* d; s->read(d, 1, 1); }
        c.evaluations++;
    }
    for (int i = 1 + (int)c.draw(3); i > 0; i--) {
        InputStream* s = sp->nextEntry();
        REQUIRE(!s, "%s: entry %zu has a damaged header, but %s is given", kindName(kind), k, show(sp->entryInfo().filename).c_str());
        REQUIRE(sp->status() == Error, "%s: entry %zu has a damaged header, but the iteration ends in status %s", kindName(kind), k, statusName(sp->status()));
    }
    c.label(k ? "damaged later header" : "damaged first header");
    c.nontrivial();
}
static Register r34({ "C34", c34,
    "random tar, zip, ar, cpio, rpm and ole archives with one byte (or number) of one header made impossible: signatures, digits of sizes and times, terminators, references to "
    "names; entries before it are read, partly read or left and must be right, then the iteration must end in error, however often it is asked. Non-trivial: all", 60000, 1500000, 25, 20, 0 });

// ---- C31 -------------------------------------------------------------------------
static bool codecAccepts(int codec, const char* d, int32_t n) {
    switch (codec) {
    case CGzip: return GZipInputStream::checkHeader(d, n);
    case CBz2: return BZ2InputStream::checkHeader(d, n);
    default: return LZMAInputStream::checkHeader(d, n);
    }
}
static void c31(Choices& c) {
    static const std::vector<int> codecs = { CGzip, CBz2, CLzma };
    int what = (int)c.draw(KindCount + 3); // formats, then codecs
    const int nFormats = KindCount + 3;
    auto accepts = [&](int f, const char* d, int32_t n) { return f < KindCount ? headerAccepts(f, d, n) : codecAccepts(codecs[f - KindCount], d, n); };
    auto nameOf = [&](int f) { return f < KindCount ? kindName(f) : codecName(codecs[f - KindCount]); };
    c.label(nameOf(what));
    Bytes bytes;
    Archive a;
    a.kind = what;
    if (what < KindCount) {
        a = genArchive(c, what, genOpts(c));
        noteArchive(c, a);
        if (what == Tar || what == Sdf || what == Zip) if (a.entries.empty()) discard(); // nothing there to recognize
        bytes = a.bytes;
    } else {
        Encoded e = genEncoded(c, codecs[what - KindCount], 3000);
        c.note("%s", e.desc.c_str());
        bytes = e.bytes;
    }
    // as much as a reader looks at: 1024 bytes or more, or everything
    int64_t n = std::min<int64_t>((int64_t)bytes.size(), c.flip() ? 1024 : 1024 + c.size(5000));
    std::unique_ptr<char[]> head(new char[n ? n : 1]); // overreads are seen
    memcpy(head.get(), bytes.data(), n);
    bool ascii = true;
    for (int64_t i = 0; i < n; i++) if (bytes[i] & 0x80) ascii = false;
    // in a mail of LF lines the check takes everything for one header line, in which CR LF has a meaning
    if (what == Mail && a.notes.size() && a.notes[0] == "LF lines" && memchr(head.get(), '\r', n)) ascii = false;
    bool own = accepts(what, head.get(), (int32_t)n);
    if (what == Mail && !ascii) c.label("mail that is not 7-bit");
    else REQUIRE(own, "%s: the beginning of a valid one (%lld bytes) is not accepted", nameOf(what), (long long)n);
    for (int f = 0; f < nFormats; f++) {
        if (f == what) continue;
        // text formats are told apart by their text
        if ((f == Sdf && (what == Mail)) || (f == Mail && what == Sdf)) continue;
        if (f == Tar && (what == Sdf || what == Mail) && memchr(head.get(), 0, std::min<int64_t>(n, 257))) continue;
        // the beginning of one long file name is not told from a mail's
        if (f == Mail && what == Cpio && memchr(head.get(), 0, n) == nullptr) continue;
        REQUIRE(!accepts(f, head.get(), (int32_t)n), "the beginning of a %s is accepted as %s", nameOf(what), nameOf(f));
        c.evaluations++;
    }
    // too short
    static const int needs[] = { 257, 9, 8, 6, 6, 1, 11, 9, 3, 10, 13 };
    for (int f = 0; f < nFormats; f++) {
        int64_t k = c.draw((uint64_t)needs[f]);
        if (k > n) k = n;
        std::unique_ptr<char[]> few(new char[k ? k : 1]);
        memcpy(few.get(), bytes.data(), k);
        REQUIRE(!accepts(f, few.get(), (int32_t)k), "%lld bytes of a %s are accepted as %s", (long long)k, nameOf(what), nameOf(f));
    }
    // with another signature it is something else
    if (n > 0) {
        int64_t from = 0, to = -1;
        switch (what) {
        case Zip: case Rpm: to = 3; break;
        case Ar: case Ole: to = 7; break;
        case Cpio: to = 5; break;
        case Mail: // a part of the first header's name
            if (own) to = (int64_t)bytes.find(':') - 1;
            if (to >= n) to = -1;
            break;
        case Sdf:
            from = (int64_t)bytes.find("V2000");
            to = from + 4;
            break;
        case KindCount: to = 1; break;
        case KindCount + 1:
            from = c.flip() ? 0 : 4;
            to = from ? 9 : 1;
            break;
        default: break; // no signature
        }
        if (from >= 0 && to >= from && to < n) {
            int64_t at = c.range(from, to);
            const char was = head[at];
            if (what != Mail) head[at] = (char)c.draw(256);
            else head[at] = (char)(c.flip() ? c.flip() ? 255 : c.range(128, 254) : c.chance(1, 4) ? 127 : c.range(0, 32));
            if (head[at] != was) {
                // another line of an SD file may hold it, too
                bool elsewhere = what == Sdf && Bytes(head.get(), (size_t)n).find("V2000") != Bytes::npos;
                if (!elsewhere) REQUIRE(!accepts(what, head.get(), (int32_t)n), "%s: with byte %02x instead of %02x at %lld it is still accepted", nameOf(what), (uint8_t)head[at], (uint8_t)was, (long long)at);
                head[at] = was;
                c.label("another signature");
                c.evaluations++;
            }
        }
    }
    if (what == Sdf && accepts(Sdf, head.get(), (int32_t)n)) {
        // lines may end in a carriage return alone
        Bytes t(head.get(), (size_t)n);
        for (size_t p; (p = t.find("\r\n")) != Bytes::npos;) t.erase(p, 1);
        for (char& ch : t) if (ch == '\n') ch = '\r';
        std::unique_ptr<char[]> x(new char[t.size()]);
        memcpy(x.get(), t.data(), t.size());
        REQUIRE(accepts(Sdf, x.get(), (int32_t)t.size()), "an SD file whose lines end in a carriage return is not accepted");
        // only the fourth line counts
        t.assign(head.get(), (size_t)n);
        for (size_t p; (p = t.find("V2000")) != Bytes::npos;) t[p + 1] = '3';
        size_t at = 0;
        int lines = (int)c.draw(6);
        if (lines >= 3) lines++;
        for (int i = 0; i < lines && at != Bytes::npos; i++) at = (at = t.find('\n', at)) == Bytes::npos ? at : at + 1;
        if (at != Bytes::npos) {
            t.insert(at, "0  V2000\n");
            x.reset(new char[t.size()]);
            memcpy(x.get(), t.data(), t.size());
            REQUIRE(!accepts(Sdf, x.get(), (int32_t)t.size()), "V2000 in line %d is accepted as an SD file", lines + 1);
            c.label("V2000 in another line");
            c.evaluations++;
        }
    }
    // a name and then nothing is no member
    if (what == Tar && n >= 512) {
        std::unique_ptr<char[]> none(new char[512]);
        memcpy(none.get(), head.get(), 100);
        memset(none.get() + 100, 0, 412);
        REQUIRE(!accepts(what, none.get(), 512), "a name with 412 zero bytes behind it is accepted as tar");
    }
    // chosen by content
    PlacedArchive p = placeArchive(c, bytes, true);
    SubStreamProviderProvider spp;
    std::unique_ptr<SubStreamProvider> sp(spp.subStreamProvider(p.in()));
    bool offered = what == Zip || what == Sdf || (what == Mail && ascii);
    if (what == Sdf || what == Zip || what == Mail || sp) {
        if (offered) REQUIRE(sp != nullptr, "no provider is chosen for a %s", nameOf(what));
        if (sp && what < KindCount) {
            c.label("provider chosen");
            if (what == Zip || what == Mail) checkIteration(c, *sp, a, genPlan(c));
            else if (what == Sdf) { // an sdf whose first lines look like a mail's is a mail
                if (!headerAccepts(Mail, head.get(), (int32_t)std::min<int64_t>(n, 1024))) checkIteration(c, *sp, a, genPlan(c));
            }
        }
    }
    if (!sp) requireSame(drain(*p.in(), genPlan(c)), bytes, "the data after looking for a provider");
    if (what >= KindCount || !a.entries.empty()) c.nontrivial();
}
static Register r31({ "C31", c31,
    "the beginnings of random archives and streams of eleven formats are given to the header checks of all of them, whole, cut short and with a changed signature, on exact-size heap blocks; the "
    "provider chosen by content iterates the archive, and where none is chosen everything can still be read. Non-trivial: the archive has an entry", 90000, 1500000, 25, 20, 0 });
