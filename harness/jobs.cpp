// Pieces of work for C35 and C38.
#include "jobs.h"
#include "../lib/base64inputstream.h"
#include "../lib/gzipcompressstream.h"
#include "../lib/mmapfileinputstream.h"
#include "../lib/skippingfileinputstream2.h"
#include <strigi/archivereader.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/inputstreamreader.h>
#include <strigi/kmpsearcher.h>
#include <strigi/processinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/textutils.h>
#include <iconv.h>
using namespace Strigi;
using namespace pbt;

namespace {
Bytes num(int64_t n) { return std::to_string(n) + ";"; }
Bytes condensed(const Bytes& b) { return num((int64_t)b.size()) + num(crc32Of(b)) + (b.size() < 48 ? b : b.substr(0, 24) + b.substr(b.size() - 24)); }
Bytes endOf(const InputStream& s) {
    return num(s.status()) + num(s.position()) + num(s.size()) + (s.status() == Error ? Bytes(s.error()) : Bytes());
}
// everything the stream delivers
Bytes contents(InputStream& s, const ReadPlan& p) {
    Bytes out;
    for (size_t i = 0; s.status() == Ok && out.size() < (16u << 20); i++) {
        auto q = p.reqs[i % p.reqs.size()];
        const char* d = nullptr;
        int32_t n = s.read(d, q.first, q.second);
        if (n > 0) out.append(d, n);
        else if (n <= 0 && s.status() == Ok && i > 100000) return out + "does not go on";
    }
    return condensed(out) + endOf(s);
}
Bytes entries(SubStreamProvider& p, const ReadPlan& plan, int depth) {
    Bytes out;
    for (int i = 0; i < 1000; i++) {
        InputStream* s = p.nextEntry();
        if (!s) break;
        const EntryInfo& e = p.entryInfo();
        out += e.filename + num(e.size) + num(e.mtime) + num(e.type);
        for (auto& q : e.properties) out += q.first + "=" + q.second + ";";
        if (depth > 0) {
            SubStreamProviderProvider spp;
            std::unique_ptr<SubStreamProvider> sub(spp.subStreamProvider(s));
            if (sub) out += "{" + entries(*sub, plan, depth - 1) + "}";
            else out += contents(*s, plan);
        } else out += contents(*s, plan);
    }
    return out + num(p.status()) + (p.status() == Error ? Bytes(p.error()) : Bytes());
}
struct Condenser : DataEventHandler {
    Bytes seen;
    int ends = 0;
    bool handleData(const char* p, uint32_t n) { seen.append(p, n); return true; }
    void handleEnd() { ends++; }
};
void damage(Choices& c, Bytes& b) {
    if (b.empty() || !c.chance(1, 5)) return;
    if (c.flip()) b.resize(c.draw(b.size()));
    else for (int i = 1 + (int)c.draw(3); i; i--) b[c.draw(b.size())] = (char)c.draw(256);
}
void list(ArchiveReader& r, const std::string& url, int depth, Bytes& out) {
    ArchiveReader::DirLister l = r.dirEntries(url);
    EntryInfo e;
    for (int i = 0; i < 200 && l.nextEntry(e); i++) {
        std::string u = url + "/" + e.filename;
        out += u + num(e.size) + num(e.mtime) + num(e.type);
        if (depth > 0 && (e.type & EntryInfo::Dir)) list(r, u, depth - 1, out);
        if (e.type & EntryInfo::File) {
            InputStream* s = r.openStream(u);
            if (s) {
                ReadPlan p;
                p.reqs.push_back(std::make_pair(1, 0));
                out += contents(*s, p);
                r.closeStream(s);
            }
        }
    }
}
} // namespace
Job genJob(Choices& c, std::vector<std::shared_ptr<JobFile> >& files, int maxEntries) {
    Job j;
    ReadPlan plan = genPlan(c);
    GenOpts go;
    go.maxEntries = maxEntries;
    go.maxSize = 1500;
    switch (c.weighted({ 6, 6, 2, 2, 2, 4, 1, 1, 1, 1, 2 })) {
    case 0: {
        int codec = (int)c.draw(CodecCount);
        auto e = std::make_shared<Encoded>(genEncoded(c, codec, 3000));
        damage(c, e->bytes);
        j.desc = Bytes("decode ") + codecName(codec);
        j.run = [e, plan] {
            StringInputStream in(e->bytes.data(), (int32_t)e->bytes.size(), true);
            std::unique_ptr<InputStream> d(makeDecoder(e->codec, &in));
            return contents(*d, plan) + endOf(in);
        };
        break;
    }
    case 1: {
        int kind = (int)c.draw(KindCount);
        auto a = std::make_shared<Archive>(genArchive(c, kind, go));
        damage(c, a->bytes);
        j.desc = Bytes("read ") + kindName(kind);
        j.localTime = kind == Zip;
        j.run = [a, plan, kind] {
            StringInputStream in(a->bytes.data(), (int32_t)a->bytes.size(), true);
            std::unique_ptr<SubStreamProvider> p(makeProvider(kind, &in));
            return entries(*p, plan, 0) + endOf(in);
        };
        break;
    }
    case 2: { // an archive in an archive, found out from its header
        go.plain = true;
        static const std::vector<int> holders = { Tar, Zip, Ar, Cpio };
        Archive inner = genArchive(c, (int)c.draw(KindCount), go);
        Entry e;
        e.name = "inner";
        e.content = inner.bytes;
        if (c.flip()) e.content = gzipOf(e.content);
        auto a = std::make_shared<Archive>(writeArchive(c, c.pick(holders), { e }, true));
        damage(c, a->bytes);
        j.localTime = inner.kind == Zip || a->kind == Zip;
        j.desc = Bytes("nested ") + kindName(inner.kind) + " in " + kindName(a->kind);
        j.run = [a, plan] {
            StringInputStream in(a->bytes.data(), (int32_t)a->bytes.size(), true);
            SubStreamProviderProvider spp;
            std::unique_ptr<SubStreamProvider> p(spp.subStreamProvider(&in));
            return p ? entries(*p, plan, 2) : Bytes("no archive");
        };
        break;
    }
    case 3: { // an archive on disk
        go.plain = true;
        Archive a = genArchive(c, c.flip() ? Tar : (int)c.draw(KindCount), go);
        damage(c, a.bytes);
        auto f = std::make_shared<JobFile>();
        f->path = writeScratchFile(a.bytes);
        files.push_back(f);
        std::string path = f->path;
        j.localTime = a.kind == Zip;
        j.desc = Bytes("archive reader on a ") + kindName(a.kind);
        j.run = [path] {
            ArchiveReader r;
            FileStreamOpener o;
            r.addStreamOpener(&o);
            Bytes out;
            list(r, path, 3, out);
            return out;
        };
        break;
    }
    case 4: {
        static const std::vector<const char*> sets = { "UTF-8", "ISO-8859-1", "UTF-16", "UTF-16LE", "SHIFT_JIS", "KOI8-R", "ISO-2022-JP" };
        const char* set = c.pick(sets);
        // conversions are loaded before the threads start, the loader is not what is tested
        static std::vector<iconv_t> loaded;
        if (loaded.empty()) for (const char* n : sets) { loaded.push_back(iconv_open("UTF-8", n)); loaded.push_back(iconv_open("WCHAR_T", n)); }
        auto b = std::make_shared<Bytes>(genBytes(c, 2000));
        bool chars = c.flip();
        j.desc = Bytes("text in ") + set;
        j.run = [b, set, plan, chars] {
            StringInputStream in(b->data(), (int32_t)b->size(), true);
            if (!chars) {
                EncodingInputStream e(&in, set);
                return contents(e, plan);
            }
            InputStreamReader r(&in, set);
            Bytes out;
            while (r.status() == Ok) {
                const wchar_t* d;
                int32_t n = r.read(d, 1, 0);
                if (n > 0) out.append((const char*)d, n * sizeof *d);
            }
            return condensed(out) + num(r.status()) + Bytes(r.status() == Error ? r.error() : "");
        };
        break;
    }
    case 5: { // files
        auto b = std::make_shared<Bytes>(genBytes(c, 20000));
        auto f = std::make_shared<JobFile>();
        f->path = writeScratchFile(*b);
        files.push_back(f);
        std::string path = f->path;
        if (c.chance(1, 6)) path += ".none";
        int how = (int)c.draw(6);
        j.desc = "file";
        j.run = [path, plan, how] {
            if (how == 3) {
                MMapFileInputStream s(path.c_str());
                return contents(s, plan);
            }
            if (how == 4) {
                FileStreamOpener o;
                EntryInfo e;
                Bytes out = num(o.stat(path, e) == 0 ? e.size : -1) + num(e.type);
                std::unique_ptr<InputStream> s(o.openStream(path));
                return out + (s ? contents(*s, plan) : Bytes("none"));
            }
            if (how == 5) {
                FILE* f = fopen(path.c_str(), "rb");
                FileInputStream s(f, path.c_str(), 700);
                return contents(s, plan);
            }
            if (how == 2) {
                SkippingFileInputStream2 s(path.c_str(), 3000);
                return contents(s, plan);
            }
            if (how) {
                FileInputStream s(path.c_str());
                return contents(s, plan);
            }
            std::unique_ptr<InputStream> s(FileInputStream::open(path.c_str()));
            return contents(*s, plan);
        };
        break;
    }
    case 6: {
        auto b = std::make_shared<Bytes>(genBytes(c, 5000));
        int level = (int)c.draw(10);
        j.desc = "compress";
        j.run = [b, plan, level] {
            StringInputStream in(b->data(), (int32_t)b->size(), true);
            GZipCompressInputStream z(&in, level);
            return contents(z, plan);
        };
        break;
    }
    case 7: {
        auto q = std::make_shared<Bytes>(genBytes(c, 12));
        auto b = std::make_shared<Bytes>(genBytes(c, 2000) + *q + genBytes(c, 100));
        j.desc = "search";
        j.run = [q, b, plan] {
            KmpSearcher s(*q);
            const char* p = s.search(b->data(), (int32_t)b->size());
            Bytes out = num(p ? p - b->data() : -1);
            if (!q->empty()) {
                StringInputStream in(b->data(), (int32_t)b->size(), true);
                StringTerminatedSubStream t(&in, *q);
                out += contents(t, plan) + endOf(in);
            }
            return out;
        };
        break;
    }
    case 8: {
        auto b = std::make_shared<Bytes>(base64Of(genBytes(c, 300)));
        damage(c, *b);
        j.desc = "base64 text";
        j.run = [b] { return condensed(Base64InputStream::decode(b->data(), b->size())); };
        break;
    }
    case 10: {
        auto b = std::make_shared<Bytes>(genBytes(c, 3000));
        j.desc = "process";
        j.run = [b, plan] {
            StringInputStream in(b->data(), (int32_t)b->size(), true);
            ProcessInputStream p(std::vector<std::string>(1, "/bin/cat"), &in);
            return contents(p, plan) + endOf(in);
        };
        break;
    }
    default: {
        auto b = std::make_shared<Bytes>(genBytes(c, 3000));
        j.desc = "events and text helpers";
        j.run = [b, plan] {
            StringInputStream in(b->data(), (int32_t)b->size(), true);
            Condenser h;
            DataEventInputStream ev(&in, h);
            Bytes out = contents(ev, plan) + condensed(h.seen) + num(h.ends);
            Bytes z = *b;
            z.resize(z.size() + 4);
            out += num(readLittleEndianUInt32(z.data())) + num(readBigEndianUInt32(z.data()));
            char need = 0;
            const char* bad = checkUtf8(b->data(), (int32_t)b->size(), need);
            return out + num(bad ? bad - b->data() : -1) + num(need);
        };
    }
    }
    return j;
}
