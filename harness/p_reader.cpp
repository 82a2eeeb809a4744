// C25, C26: trees of nested and compressed archives opened and listed through
// the archive reader, against a model tree.
#include "formats.h"
#include <strigi/archivereader.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <iostream>
#include <algorithm>

using namespace Strigi;
using pbt::fail;
using pbt::show;

// the reader reports unclosed streams
static struct Quiet { Quiet() { std::cerr.rdbuf(nullptr); } } quiet;

namespace {
struct Node {
    bool file = false, dir = false;
    Bytes content;              // of a file
    int64_t size = -1;          // as a listing reports it
    std::set<int64_t> mtimes;   // what a listing may report; empty: not checked
    int64_t mtime = -1;         // what it reports in the end
    std::map<std::string, Node> kids;
    bool container = false;
};
struct Top {
    std::string path;
    Node node;
    int64_t mtime = 0;
    bool gone = false; // the file was removed
};

// serves files from memory through random kinds of streams
class MemOpener : public StreamOpener {
public:
    struct Opened : public InputStream {
        std::unique_ptr<Source> src;
        explicit Opened(std::unique_ptr<Source> s) : src(std::move(s)) { sync(); }
        void sync() {
            InputStream* t = src->top();
            m_status = t->status();
            m_size = t->size();
            m_position = t->position();
            if (m_status == Error) m_error = t->error();
        }
        int32_t read(const char*& start, int32_t min, int32_t max) { int32_t r = src->top()->read(start, min, max); sync(); return r; }
        int64_t skip(int64_t n) { int64_t r = src->top()->skip(n); sync(); return r; }
        int64_t reset(int64_t p) { int64_t r = src->top()->reset(p); sync(); return r; }
    };
    Choices& c;
    std::map<std::string, Top*> files;
    std::set<std::string> dirs;
    int open;
    explicit MemOpener(Choices& c_) : c(c_), open(0) {}
    InputStream* openStream(const std::string& url) {
        auto i = files.find(url);
        if (i == files.end() || !i->second) return 0;
        static const std::vector<int> kinds = { SrcString, SrcChunk, SrcFill, SrcSubKnown, SrcGzip };
        return new Opened(genSource(c, i->second->node.content, kinds));
    }
    int stat(const std::string& url, EntryInfo& e) {
        auto i = files.find(url);
        if (i != files.end() && !i->second) i = files.end(); // removed
        if (i == files.end() && !dirs.count(url)) return -1;
        e.filename = url.substr(url.rfind('/') + 1);
        e.type = i == files.end() ? EntryInfo::Dir : EntryInfo::File;
        e.size = i == files.end() ? 0 : (int64_t)i->second->node.content.size();
        e.mtime = i == files.end() ? 5 : i->second->mtime;
        return 0;
    }
};

struct Builder {
    Choices& c;
    int nodes = 0, nested = 0, wrapped = 0;
    explicit Builder(Choices& c_) : c(c_) {}
    std::string name() {
        // names that are beginnings of one another
        static const std::vector<std::string> close = { "a", "ab", "abc", "a.b", "b", "a-", "aa", "body", "1", "Molecule1", "x.tar", "x.tar.gz" };
        return c.flip() ? c.pick(close) : genName(c, 12);
    }
    // content of a plain file, which must not look like anything else
    Bytes leaf(int64_t max) {
        static const std::vector<Bytes> starts = { Bytes(1, '\n'), " ", "\xfe", "\x81", Bytes(1, '\0') };
        if (c.chance(1, 6)) return Bytes();
        Bytes b = c.pick(starts) + genBytes(c, max);
        // no marks of an SD file
        for (size_t p; (p = b.find("V2000")) != Bytes::npos;) b[p] = 'v';
        return b;
    }
    Bytes wrap(const Bytes& b) {
        Bytes r = b;
        int n = c.chance(1, 3) ? 1 + (int)c.size(2) : 0;
        if (n == 3 && b.size() < 20000 && c.chance(1, 4)) { n += (int)c.draw(20); c.label("compressed many times"); }
        for (int i = 0; i < n; i++) {
            wrapped++;
            switch (c.draw(3)) {
            case 0: r = gzipOf(r); break;
            case 1: { Encoded e; r = encode(c, CBz2, r).bytes; break; }
            default: r = lzmaEncode(r, 1 << 16, false, true, &c); break;
            }
        }
        return r;
    }
    // fills n as a container; its content are the archive's bytes
    void container(Node& n, int depth) {
        static const std::vector<int> kinds = { Tar, Zip, Ar, Tar, Zip, Rpm, Mail, Sdf };
        int kind = c.pick(kinds);
        n.file = true;
        if (kind == Sdf || kind == Mail) {
            GenOpts o;
            o.plain = true;
            o.maxEntries = 4;
            o.maxSize = 600;
            std::vector<Entry> es;
            Archive a;
            if (kind == Mail) {
                int k = (int)c.size(4);
                std::set<std::string> used;
                for (int i = 0; i < k; i++) {
                    Entry e;
                    e.name = c.chance(1, 4) ? "" : name();
                    if (!used.insert(e.name.empty() ? std::to_string(i + 1) : e.name).second) continue;
                    e.content = leaf(500);
                    if (e.content.empty()) e.content = " ";
                    es.push_back(e);
                }
                // unnamed parts are numbered: the number must not be taken
                for (size_t i = 0; i < es.size(); i++) if (es[i].name.empty()) {
                    for (size_t j = 0; j < es.size(); j++) if (es[j].name == std::to_string(i + 1)) es[i].name = "part-" + std::to_string(i);
                }
                a = writeArchive(c, Mail, es, true);
            } else {
                a = genArchive(c, kind, o);
            }
            bool ok = !a.entries.empty();
            // the check of a mail accepts only what begins in 7 bits
            if (kind == Mail && !headerAccepts(Mail, a.bytes.data(), (int32_t)std::min<size_t>(1024, a.bytes.size()))) ok = false;
            std::set<std::string> seen;
            for (const Entry& e : a.entries) {
                if (!seen.insert(e.name).second) ok = false;
                // a part of a mail that may look like a mail itself, or the like
                if (kind == Sdf && headerAccepts(Mail, e.content.data(), (int32_t)std::min<size_t>(1024, e.content.size()))) ok = false;
                if (kind == Mail && !e.content.empty() && e.content[0] > 32 && e.content[0] < 127) ok = false;
            }
            // the first line of a molecule is no mail header, as it ends in a line end
            if (ok) {
                n.content = wrap(a.bytes);
                n.dir = n.container = true;
                for (size_t i = 0; i < a.entries.size(); i++) {
                    const Entry& e = a.entries[i];
                    Node& k = n.kids[e.name];
                    k.file = true;
                    k.content = e.content;
                    k.size = (int64_t)e.content.size();
                    nodes++;
                }
                c.label(kind == Mail ? "mail" : "SD file");
                return;
            }
            kind = Zip;
        }
        std::vector<Entry> es;
        int count = c.chance(1, 8) ? (int)c.size(3) : 1 + (int)c.draw(7);
        std::map<std::string, Node*> at; // path -> node
        for (int i = 0; i < count; i++) {
            Entry e;
            int parts = kind == Ar && !c.chance(1, 4) ? 1 : 1 + (int)c.size(3);
            for (int k = 0; k < parts; k++) e.name += (k ? "/" : "") + name();
            if (e.name == "TRAILER!!!") continue;
            bool isDir = (kind == Tar || kind == Zip) && c.chance(1, 5);
            // the tree must be consistent
            Node* p = &n;
            bool ok = true;
            std::vector<std::string> ps;
            for (size_t s = 0; s != std::string::npos;) {
                size_t q = e.name.find('/', s);
                ps.push_back(e.name.substr(s, q == std::string::npos ? q : q - s));
                s = q == std::string::npos ? q : q + 1;
            }
            for (size_t k = 0; ok && k < ps.size(); k++) {
                auto f = p->kids.find(ps[k]);
                if (f == p->kids.end()) { p = nullptr; break; }
                p = &f->second;
                if (k + 1 < ps.size() && p->file) ok = false;
            }
            if (!ok) continue;
            bool had = p != nullptr;
            if (had && (p->file || !isDir || p->mtime != 0)) continue; // known already
            p = &n;
            for (size_t k = 0; k < ps.size(); k++) {
                bool fresh = !p->kids.count(ps[k]);
                p = &p->kids[ps[k]];
                if (fresh && k + 1 < ps.size()) {
                    p->dir = true;
                    p->size = 0;
                    p->mtime = 0;
                    p->mtimes.insert(0);
                    nodes++;
                }
            }
            nodes++;
            if (isDir) {
                p->dir = true;
                p->size = 0;
                e.type = EntryInfo::Dir;
                if (had) c.label("directory entry after its members");
            } else if (depth > 0 && c.chance(1, 3)) {
                nested++;
                container(*p, depth - 1);
                e.content = p->content;
            } else {
                p->file = true;
                p->content = e.content = leaf(c.chance(1, 10) ? 9000 : 700);
            }
            if (!isDir) p->size = (int64_t)e.content.size();
            es.push_back(e);
            at[e.name] = p;
        }
        Archive a = writeArchive(c, kind, es, true);
        for (const Entry& e : a.entries) {
            Node* p = at[e.name];
            REQUIRE(p, "harness: no node for %s", e.name.c_str());
            p->mtime = e.mtime;
            p->mtimes.insert(e.mtime);
        }
        if (c.chance(1, 40)) c.label("empty archive");
        c.note("%s archive: %s", kindName(kind), show(a.bytes, 3000).c_str());
        n.content = wrap(a.bytes);
        n.container = !es.empty();
        n.dir = n.container;
        c.label(kindName(kind));
    }
};

void collect(const Node& n, const std::string& path, std::vector<std::pair<std::string, const Node*> >& out) {
    out.push_back(std::make_pair(path, &n));
    for (auto& k : n.kids) collect(k.second, path + "/" + k.first, out);
}
void dump(Choices& c, const Node& n, const std::string& name, int indent) {
    c.note("%*s%s%s%s size %lld%s", indent, "", name.c_str(), n.dir ? "/" : "", n.container ? " (archive)" : "", (long long)n.size,
        n.container || !n.file ? "" : (" " + show(n.content, 40)).c_str());
    for (auto& k : n.kids) dump(c, k.second, k.first, indent + 2);
}

struct World {
    std::vector<std::unique_ptr<Top> > tops;
    std::unique_ptr<MemOpener> mem[2];
    FileStreamOpener files;
    std::vector<std::pair<std::string, const Node*> > all;
    std::vector<std::string> scratch;
    int nested = 0, wrapped = 0;
    ~World() { for (auto& s : scratch) unlink(s.c_str()); }
    World() {}
    World(const World&) = delete;
    const Node* find(const std::string& url) const {
        for (auto& p : all) if (p.first == url) return p.second;
        return nullptr;
    }
    const Top* top(const std::string& url) const {
        for (auto& t : tops) if (t->path == url && !t->gone) return t.get();
        return nullptr;
    }
};
void build(Choices& c, World& w, ArchiveReader& r) {
    Builder b(c);
    w.mem[0].reset(new MemOpener(c));
    w.mem[1].reset(new MemOpener(c));
    int n = 1 + (int)c.size(2);
    for (int i = 0; i < n; i++) {
        std::unique_ptr<Top> t(new Top);
        bool onDisk = c.chance(1, 6);
        std::string name = c.chance(1, 4) ? std::string(1, (char)('p' + i)) : b.name() + std::to_string(i);
        if (c.chance(1, 5)) {
            t->node.file = true;
            t->node.content = b.leaf(400);
        } else {
            b.container(t->node, (int)c.size(3));
        }
        t->node.size = (int64_t)t->node.content.size();
        t->mtime = 1000 + i;
        if (onDisk) {
            t->path = writeScratchFile(t->node.content);
            w.scratch.push_back(t->path);
            struct stat s;
            if (stat(t->path.c_str(), &s) == 0) t->mtime = s.st_mtime;
            c.label("archive on disk");
        } else {
            static const std::vector<std::string> where = { "", "d/", "d/e/" , "/abs/" };
            std::string dir = c.pick(where);
            t->path = dir + name;
            MemOpener& m = *w.mem[c.draw(2)];
            m.files[t->path] = t.get();
            if (!dir.empty()) m.dirs.insert(dir.substr(0, dir.size() - 1));
        }
        t->node.mtime = t->mtime;
        t->node.mtimes.clear();
        t->node.mtimes.insert(t->mtime);
        collect(t->node, t->path, w.all);
        dump(c, t->node, t->path, 0);
        w.tops.push_back(std::move(t));
    }
    w.nested = b.nested;
    w.wrapped = b.wrapped;
    int first = (int)c.draw(2);
    r.addStreamOpener(w.mem[first].get());
    if (c.flip()) { r.addStreamOpener(&w.files); r.addStreamOpener(w.mem[1 - first].get()); }
    else { r.addStreamOpener(w.mem[1 - first].get()); r.addStreamOpener(&w.files); }
    if (b.nested) c.label("archive in an archive");
    if (b.wrapped) c.label("compressed");
}
// an existing or a made-up path
std::string genUrl(Choices& c, const World& w) {
    std::string u = c.pick(w.all).first;
    if (c.chance(1, 2)) return u;
    switch (c.draw(10)) {
    case 0: return u + "/" + genName(c, 3);
    case 1: return u + genName(c, 2);
    case 2: return u.substr(0, u.size() - 1);
    case 3: return u + "/";
    case 4: { size_t p = u.rfind('/'); return p == std::string::npos || p == 0 ? u + "x" : u.substr(0, p); }
    case 5: { // another member's name below this one
        std::string v = c.pick(w.all).first;
        size_t p = v.rfind('/');
        return u + "/" + v.substr(p == std::string::npos ? 0 : p + 1);
    }
    case 6: { // a component left out
        std::vector<size_t> s;
        for (size_t i = 1; i < u.size(); i++) if (u[i] == '/') s.push_back(i);
        if (s.size() < 2) return u + "/a";
        size_t k = c.draw(s.size() - 1);
        return u.substr(0, s[k]) + u.substr(s[k + 1]);
    }
    case 7: { // another last component
        size_t p = u.rfind('/');
        if (p == std::string::npos) return u + "a";
        static const std::vector<std::string> close = { "a", "ab", "abc", "b", "1", "body" };
        return u.substr(0, p + 1) + c.pick(close);
    }
    case 8: { // a letter changed
        std::string v = u;
        size_t p = v.size() - 1 - c.draw(std::min<size_t>(v.size(), 4));
        if (v[p] != '/') v[p] = v[p] == 'z' ? 'y' : 'z';
        return v;
    }
    default: return genName(c, 6);
    }
}
std::string tail(const std::string& u) { size_t p = u.rfind('/'); return p == std::string::npos ? u : u.substr(p + 1); }

void checkInfo(const std::string& url, const EntryInfo& e, const Node& n, bool final, const char* how) {
    REQUIRE(e.filename == tail(url), "%s of %s: the name is %s", how, url.c_str(), e.filename.c_str());
    int want = (n.file ? EntryInfo::File : 0) | (n.dir ? EntryInfo::Dir : 0);
    REQUIRE((int)e.type == want, "%s of %s: type %d instead of %d", how, url.c_str(), (int)e.type, want);
    REQUIRE(e.size == n.size, "%s of %s: size %lld instead of %lld", how, url.c_str(), (long long)e.size, (long long)n.size);
    if (n.mtime >= 0 && final) REQUIRE((int64_t)e.mtime == (int64_t)(unsigned)n.mtime || (int64_t)e.mtime == n.mtime,
        "%s of %s: time %lld instead of %lld", how, url.c_str(), (long long)e.mtime, (long long)n.mtime);
    else if (!n.mtimes.empty()) {
        bool ok = false;
        for (int64_t t : n.mtimes) if ((int64_t)e.mtime == t || (int64_t)e.mtime == (int64_t)(unsigned)t) ok = true;
        REQUIRE(ok, "%s of %s: time %lld instead of %lld", how, url.c_str(), (long long)e.mtime, (long long)n.mtime);
    }
}
struct Open {
    InputStream* s;
    const Node* n;
    std::string url;
    int64_t pos = 0;
};
// reads a little, or everything
void readSome(Choices& c, Open& o, bool all) {
    const Bytes& want = o.n->content;
    int steps = all ? 1 << 20 : 1 + (int)c.size(4);
    if (c.chance(1, 4) && o.pos < (int64_t)want.size()) {
        int64_t n = c.size((int64_t)want.size() - o.pos);
        int64_t r = o.s->skip(n);
        REQUIRE(r == n, "skip(%lld) at %lld of %s (%zu bytes) returned %lld: %s", (long long)n, (long long)o.pos, o.url.c_str(), want.size(), (long long)r,
            o.s->error() ? o.s->error() : "");
        o.pos += r;
    }
    for (int i = 0; i < steps; i++) {
        const char* d = nullptr;
        int32_t min = c.flip() ? 1 : 1 + (int32_t)c.size(3000), max = c.flip() ? 0 : min + (int32_t)c.size(2000);
        int64_t left = (int64_t)want.size() - o.pos;
        int32_t r = o.s->read(d, min, max);
        if (left == 0) {
            REQUIRE(r < 1 && o.s->status() == Eof, "at the end of %s read gave %d, status %s", o.url.c_str(), r, statusName(o.s->status()));
            REQUIRE(o.s->size() == (int64_t)want.size(), "%s has size %lld at its end, not %zu", o.url.c_str(), (long long)o.s->size(), want.size());
            return;
        }
        REQUIRE(r >= std::min<int64_t>(min, left) && r <= left && (max < min || r <= max),
            "read(%d, %d) at %lld of %s (%zu bytes) gave %d: %s", min, max, (long long)o.pos, o.url.c_str(), want.size(), r, o.s->error() ? o.s->error() : "");
        REQUIRE(memcmp(d, want.data() + o.pos, (size_t)r) == 0, "wrong bytes at %lld of %s", (long long)o.pos, o.url.c_str());
        o.pos += r;
        if (c.chance(1, 5)) {
            int64_t back = c.size(r);
            REQUIRE(o.s->reset(o.pos - back) == o.pos - back, "reset into the last read of %s failed", o.url.c_str());
            o.pos -= back;
        }
    }
}
bool mayHandle(const World& w, const std::string& url) {
    // the longest beginning that is a physical file decides
    std::string u = url;
    while (true) {
        const Top* t = w.top(u);
        if (t) return t->node.container;
        for (auto& m : w.mem) if (m->dirs.count(u)) return false;
        size_t p = u.rfind('/');
        if (p == std::string::npos || p == 0) return false;
        u.resize(p);
    }
}
bool under(const World& w, const std::string& dir) { // scratch files lie in real directories
    for (auto& t : w.tops) if (t->path[0] == '/' && t->path.compare(0, dir.size(), dir) == 0 && t->path != dir) return true;
    return false;
}

void c25(Choices& c) {
    World w;
    ArchiveReader* r = new ArchiveReader;
    build(c, w, *r);
    std::vector<Open> open;
    int deep = 0, missing = 0;
    int ops = 2 + (int)c.draw(16);
    for (int i = 0; i < ops; i++) {
        if (!open.empty() && c.chance(1, 3)) {
            size_t k = c.draw(open.size());
            if (c.flip()) readSome(c, open[k], false);
            else {
                c.note("close %s", open[k].url.c_str());
                r->closeStream(open[k].s);
                open.erase(open.begin() + (long)k);
            }
            continue;
        }
        std::string url = genUrl(c, w);
        const Node* n = w.find(url);
        if (n && !n->file) n = nullptr;
        c.note("open %s", url.c_str());
        c.evaluations++;
        InputStream* s = r->openStream(url);
        if (!n) {
            missing++;
            REQUIRE(!s, "%s names no file, yet it was opened", url.c_str());
            continue;
        }
        REQUIRE(s, "%s (%zu bytes) was not opened", url.c_str(), n->content.size());
        Open o;
        o.s = s;
        o.n = n;
        o.url = url;
        open.push_back(o);
        if (c.flip()) readSome(c, open.back(), c.chance(2, 3));
        size_t inside = 0;
        for (auto& t : w.tops) if (url.compare(0, t->path.size() + 1, t->path + "/") == 0) {
            const Node* q = &t->node;
            for (std::string u = url.substr(t->path.size() + 1);;) {
                if (q->container) inside++;
                size_t p = u.find('/');
                auto f = q->kids.find(u.substr(0, p));
                if (f == q->kids.end() || p == std::string::npos) break;
                q = &f->second;
                u = u.substr(p + 1);
            }
        }
        if (inside >= 2) { deep++; c.label("opened a member of a nested archive"); }
        else if (inside == 1) c.label("opened a member");
        if (c.chance(1, 6)) {
            std::string q = genUrl(c, w);
            if (!under(w, q)) {
                bool got = r->canHandle(q);
                REQUIRE(got == mayHandle(w, q), "canHandle(%s) is %d", q.c_str(), got);
            }
            const Top* t = w.top(q);
            bool arch = t && t->node.container;
            REQUIRE(r->isArchive(q) == arch, "isArchive(%s) is %d", q.c_str(), !arch);
        }
    }
    for (auto& o : open) readSome(c, o, true);
    // members may be closed by the reader's end, physical files are ours
    bool closeAll = c.chance(3, 4);
    while (!open.empty()) {
        size_t k = c.draw(open.size());
        if (closeAll || w.top(open[k].url)) r->closeStream(open[k].s);
        open.erase(open.begin() + (long)k);
    }
    delete r;
    if (deep && missing) c.nontrivial();
}

struct Lister {
    ArchiveReader::DirLister d;
    const Node* n;
    std::string url;
    std::set<std::string> left;
    bool ended = false;
    Lister(const ArchiveReader::DirLister& d_, const Node* n_, const std::string& u) : d(d_), n(n_), url(u) {
        if (n) for (auto& k : n->kids) left.insert(k.first);
    }
};
void step(Lister& l, bool final = false) {
    EntryInfo e;
    e.size = -77;
    bool more = l.d.nextEntry(e);
    if (!more) {
        REQUIRE(l.left.empty(), "the listing of %s ended without %s", l.url.c_str(), l.left.begin()->c_str());
        l.ended = true;
        return;
    }
    REQUIRE(!l.ended, "the listing of %s went on behind its end with %s", l.url.c_str(), e.filename.c_str());
    REQUIRE(l.left.erase(e.filename) == 1, "the listing of %s named %s, which is %s", l.url.c_str(), e.filename.c_str(),
        l.n && l.n->kids.count(e.filename) ? "listed already" : "no member");
    checkInfo(l.url + "/" + e.filename, e, l.n->kids.at(e.filename), final, "listing");
}
void c26(Choices& c) {
    World w;
    ArchiveReader* r = new ArchiveReader;
    build(c, w, *r);
    std::vector<std::unique_ptr<Lister> > ls;
    std::vector<Open> open;
    bool shared = false, ended = false;
    std::vector<std::string> dirs; // directories, those with more members first
    for (auto& p : w.all) if (p.second->dir) dirs.push_back(p.first);
    std::stable_sort(dirs.begin(), dirs.end(), [&](const std::string& a, const std::string& b) {
        return w.find(a)->kids.size() > w.find(b)->kids.size(); });
    if (dirs.size() > 3 && c.flip()) dirs.resize(3);
    int ops = 3 + (int)c.draw(30);
    for (int i = 0; i < ops; i++) {
        switch (c.weighted({ 6, 2, 2, 2, 1, 1, 1 })) {
        case 0: { // go on with a lister
            if (!ls.empty()) {
                Lister& l = *ls[c.draw(ls.size())];
                int n = c.chance(1, 3) ? 1000 : 1 + (int)c.size(3);
                int done = 0;
                for (; n > 0 && !l.ended; n--, done++) step(l);
                if (l.ended && c.chance(1, 3)) step(l);
                c.note("%d steps of the lister of %s%s", done, l.url.c_str(), l.ended ? ": its end" : "");
                if (l.ended && l.n && l.n->kids.size() > 1) ended = true;
                for (auto& o : ls) if (o.get() != &l && o->n == l.n && l.n && !o->ended && !o->left.empty() && o->left.size() < l.n->kids.size()) shared = true;
                break;
            }
        } // fall through
        case 1: {
            std::string url;
            if (!ls.empty() && c.chance(1, 3)) url = ls[c.draw(ls.size())]->url;
            else if (!dirs.empty() && c.chance(3, 4)) url = c.pick(dirs);
            else url = genUrl(c, w);
            const Node* n = w.find(url);
            if (n && !n->dir) n = nullptr;
            c.note("lister of %s", url.c_str());
            c.evaluations++;
            ls.push_back(std::unique_ptr<Lister>(new Lister(r->dirEntries(url), n, url)));
            break;
        }
        case 2: { // copy, assign or destroy
            if (ls.empty()) break;
            size_t k = c.draw(ls.size());
            switch (c.draw(3)) {
            case 0:
                c.note("copy of the lister of %s", ls[k]->url.c_str());
                ls.push_back(std::unique_ptr<Lister>(new Lister(*ls[k])));
                c.label("lister copied");
                break;
            case 1: {
                size_t j = c.draw(ls.size());
                c.note("assign the lister of %s to that of %s", ls[k]->url.c_str(), ls[j]->url.c_str());
                Lister& a = *ls[j];
                const Lister& b = *ls[k];
                a.d = b.d;
                a.n = b.n;
                a.url = b.url;
                std::set<std::string> left = b.left;
                a.left = left;
                a.ended = b.ended;
                c.label("lister assigned");
                break;
            }
            default:
                c.note("destroy the lister of %s", ls[k]->url.c_str());
                if (!ls[k]->ended && !ls[k]->left.empty()) c.label("lister abandoned");
                ls.erase(ls.begin() + (long)k);
            }
            break;
        }
        case 3: { // stat
            std::string url = genUrl(c, w);
            if (under(w, url)) break;
            const Node* n = w.find(url);
            bool physicalDir = false;
            for (auto& m : w.mem) if (m->dirs.count(url)) physicalDir = true;
            if (physicalDir) break;
            c.note("stat %s", url.c_str());
            c.evaluations++;
            EntryInfo e;
            int x = r->stat(url, e);
            REQUIRE((x == 0) == (n != nullptr), "stat of %s, which %s, gave %d", url.c_str(), n ? "exists" : "does not exist", x);
            if (n) checkInfo(url, e, *n, false, "stat");
            break;
        }
        case 4: {
            std::string url = genUrl(c, w);
            const Node* n = w.find(url);
            if (n && !n->file) n = nullptr;
            c.note("open %s", url.c_str());
            InputStream* s = r->openStream(url);
            REQUIRE((s != 0) == (n != nullptr), "opening %s gave %s", url.c_str(), s ? "a stream" : "nothing");
            if (!s) break;
            Open o;
            o.s = s;
            o.n = n;
            o.url = url;
            open.push_back(o);
            readSome(c, open.back(), false);
            break;
        }
        case 5: {
            if (open.empty()) break;
            size_t k = c.draw(open.size());
            readSome(c, open[k], c.flip());
            c.note("close %s", open[k].url.c_str());
            r->closeStream(open[k].s);
            open.erase(open.begin() + (long)k);
            break;
        }
        default: {
            std::string url = genUrl(c, w);
            if (!under(w, url)) {
                bool got = r->canHandle(url);
                REQUIRE(got == mayHandle(w, url), "canHandle(%s) is %d", url.c_str(), got);
            }
            const Top* t = w.top(url);
            bool arch = t && t->node.container;
            REQUIRE(r->isArchive(url) == arch, "isArchive(%s) is %d", url.c_str(), !arch);
        }
        }
    }
    // finally everything is listed, and listed again from what is known now
    if (c.flip()) {
        for (auto& t : w.tops) {
            Lister l(r->dirEntries(t->path), t->node.container ? &t->node : nullptr, t->path);
            while (!l.ended) step(l);
        }
        for (auto& p : w.all) {
            bool dir = p.second->dir;
            Lister l(r->dirEntries(p.first), dir ? p.second : nullptr, p.first);
            while (!l.ended) step(l, true);
            EntryInfo e;
            REQUIRE(r->stat(p.first, e) == 0, "stat of %s failed after the listing", p.first.c_str());
            checkInfo(p.first, e, *p.second, true, "stat");
        }
        c.label("complete listing");
    }
    for (auto& l : ls) while (!l->ended && c.chance(7, 8)) step(*l);
    for (auto& o : open) {
        if (c.flip()) readSome(c, o, true);
        r->closeStream(o.s);
    }
    ls.clear();
    delete r;
    if (shared && ended) c.nontrivial();
    if (shared) c.label("listers of one directory in turns");
}
// gives a physical file other contents, another time, or removes it
struct Changer {
    World& w;
    Builder b;
    std::vector<std::unique_ptr<Top> > retired; // listers may still be at work on these
    std::vector<std::string> oldUrls;
    std::map<std::pair<std::string, int64_t>, std::set<size_t> > used; // sizes of the files with a path and time
    int64_t clock = 2000;
    int changes = 0;
    Changer(Choices& c, World& w_) : w(w_), b(c) {
        for (auto& t : w.tops) used[std::make_pair(t->path, t->mtime)].insert(t->node.content.size());
    }
    void install(Top& t) {
        if (std::find(w.scratch.begin(), w.scratch.end(), t.path) != w.scratch.end()) {
            if (t.gone) { unlink(t.path.c_str()); return; }
            // another file takes the place, the old one remains for those who use it
            std::string f = writeScratchFile(t.node.content, t.path + ".new");
            struct timespec ts[2] = { { (time_t)t.mtime, 0 }, { (time_t)t.mtime, 0 } };
            REQUIRE(utimensat(AT_FDCWD, f.c_str(), ts, 0) == 0 && rename(f.c_str(), t.path.c_str()) == 0, "harness: cannot replace %s", t.path.c_str());
            return;
        }
        for (auto& m : w.mem) if (m->files.count(t.path)) {
            m->files[t.path] = t.gone ? nullptr : &t;
        }
    }
    void change(Choices& c) {
        size_t i = c.draw(w.tops.size());
        std::unique_ptr<Top> t(new Top);
        t->path = w.tops[i]->path;
        const Top& old = *w.tops[i];
        int how = (int)c.weighted({ 6, 1, 2, 1 });
        bool alone = true;
        for (auto& o : w.tops) if (o.get() != &old && !o->gone) alone = false;
        if (how == 2 && (old.gone || alone)) how = 0;
        if (old.gone && how == 1) how = 0;
        const Top* before = nullptr; // put back one that was there before
        if (how == 3) {
            for (auto& r : retired) if (r->path == t->path && !r->gone) before = r.get();
            if (!before) how = 0;
        }
        switch (how) {
        case 0:
            if (c.chance(1, 5)) {
                t->node.file = true;
                t->node.content = b.leaf(400);
            } else {
                b.container(t->node, (int)c.size(2));
            }
            t->node.size = (int64_t)t->node.content.size();
            break;
        case 1: t->node = old.node; break;
        case 3: t->node = before->node; break;
        default: t->gone = true;
        }
        if (!t->gone) {
            const Top* same = how == 3 ? before : &old;
            std::set<size_t>& sizes = used[std::make_pair(t->path, same->mtime)];
            clock += 3;
            if (how == 3 && c.flip()) t->mtime = before->mtime;
            else if (how != 1 && c.chance(1, 4) && !same->gone && !sizes.count(t->node.content.size())) { t->mtime = same->mtime; c.label("same time, other size"); }
            else t->mtime = c.flip() ? clock : 4000 - clock / 3; // also back in time
            used[std::make_pair(t->path, t->mtime)].insert(t->node.content.size());
            t->node.mtime = t->mtime;
            t->node.mtimes.clear();
            t->node.mtimes.insert(t->mtime);
        }
        static const char* const hows[] = { "other contents", "another time", "removed", "as it was before" };
        c.note("CHANGE %s: %s, time %lld", t->path.c_str(), hows[how], (long long)t->mtime);
        if (!t->gone) dump(c, t->node, t->path, 0);
        c.label(hows[how]);
        install(*t);
        for (auto& p : w.all) oldUrls.push_back(p.first);
        retired.push_back(std::move(w.tops[i]));
        w.tops[i] = std::move(t);
        w.all.clear();
        for (auto& o : w.tops) if (!o->gone) collect(o->node, o->path, w.all);
        changes++;
    }
    std::string url(Choices& c) {
        if (!oldUrls.empty() && c.chance(1, 3)) return c.pick(oldUrls);
        return genUrl(c, w);
    }
};
void c36(Choices& c) {
    World w;
    ArchiveReader* r = new ArchiveReader;
    build(c, w, *r);
    Changer ch(c, w);
    std::vector<std::unique_ptr<Lister> > ls;
    std::vector<Open> open;
    std::set<std::string> known; // what was asked for since its file changed
    bool stale = false, old = false;
    int ops = 4 + (int)c.draw(24);
    auto ask = [&](const std::string& url) {
        if (ch.changes && known.count(url)) { stale = true; c.label("asked again after a change"); }
        known.insert(url);
    };
    for (int i = 0; i < ops; i++) {
        switch (c.weighted({ 4, 4, 4, 4, 2, 1 })) {
        case 0:
            if (!ls.empty()) {
                Lister& l = *ls[c.draw(ls.size())];
                int n = c.flip() ? 1000 : 1 + (int)c.size(3);
                int done = 0;
                for (; n > 0 && !l.ended; n--, done++) {
                    step(l);
                    for (auto& t : ch.retired) if (l.n && !l.ended && l.url.compare(0, t->path.size(), t->path) == 0 && l.n != w.find(l.url)) { old = true; c.label("listing of what was replaced"); }
                }
                c.note("%d steps of the lister of %s%s", done, l.url.c_str(), l.ended ? ": its end" : "");
                break;
            }
            // fall through
        case 1: {
            std::string url = ch.url(c);
            const Node* n = w.find(url);
            if (n && !n->dir) n = nullptr;
            c.note("lister of %s", url.c_str());
            c.evaluations++;
            ask(url);
            ls.push_back(std::unique_ptr<Lister>(new Lister(r->dirEntries(url), n, url)));
            if (c.flip()) while (!ls.back()->ended) step(*ls.back());
            break;
        }
        case 2: {
            std::string url = ch.url(c);
            bool physicalDir = under(w, url);
            for (auto& m : w.mem) if (m->dirs.count(url)) physicalDir = true;
            if (physicalDir) break;
            const Node* n = w.find(url);
            c.note("stat %s", url.c_str());
            c.evaluations++;
            ask(url);
            EntryInfo e;
            int x = r->stat(url, e);
            REQUIRE((x == 0) == (n != nullptr), "stat of %s, which %s, gave %d", url.c_str(), n ? "exists" : "does not exist", x);
            if (n) checkInfo(url, e, *n, false, "stat");
            break;
        }
        case 3: ch.change(c); break;
        case 4: {
            std::string url = ch.url(c);
            const Node* n = w.find(url);
            if (n && !n->file) n = nullptr;
            c.note("open %s", url.c_str());
            InputStream* s = r->openStream(url);
            REQUIRE((s != 0) == (n != nullptr), "opening %s gave %s", url.c_str(), s ? "a stream" : "nothing");
            if (!s) break;
            Open o;
            o.s = s;
            o.n = n;
            o.url = url;
            open.push_back(o);
            readSome(c, open.back(), false);
            break;
        }
        default: {
            std::string url = ch.url(c);
            if (!under(w, url)) {
                bool got = r->canHandle(url);
                REQUIRE(got == mayHandle(w, url), "canHandle(%s) is %d", url.c_str(), got);
            }
            const Top* t = w.top(url);
            bool arch = t && t->node.container;
            REQUIRE(r->isArchive(url) == arch, "isArchive(%s) is %d", url.c_str(), !arch);
        }
        }
    }
    // finally everything is as the model says
    for (auto& p : w.all) {
        if (c.chance(1, 4)) continue;
        Lister l(r->dirEntries(p.first), p.second->dir ? p.second : nullptr, p.first);
        while (!l.ended) step(l);
        EntryInfo e;
        REQUIRE(r->stat(p.first, e) == 0, "stat of %s failed in the end", p.first.c_str());
        checkInfo(p.first, e, *p.second, false, "stat");
    }
    for (auto& u : ch.oldUrls) if (!w.find(u) && c.flip()) {
        EntryInfo e;
        REQUIRE(r->stat(u, e) != 0, "stat of %s, which is not there anymore, succeeded", u.c_str());
        REQUIRE(!r->dirEntries(u).nextEntry(e), "%s, which is not there anymore, has an entry %s", u.c_str(), e.filename.c_str());
    }
    for (auto& l : ls) while (!l->ended && c.chance(7, 8)) step(*l);
    for (auto& o : open) {
        if (c.flip()) readSome(c, o, true);
        r->closeStream(o.s);
    }
    ls.clear();
    delete r;
    if (ch.changes && stale) c.nontrivial();
    (void)old;
}
}
static pbt::Register r25({ "C25", c25,
    "one to three trees of archives (tar, zip, ar, rpm, mail, SD file; nested up to four deep; compressed with gzip, bzip2 or LZMA up to three times; names that are "
    "beginnings of one another), on disk or from an opener that serves them through random streams; existing and made-up paths are opened, several at a time, read in turns "
    "and closed in any order. Non-trivial: a member of a nested archive was opened and a path that names no file was tried", 10000, 600000, 25, 20, 0 });
static pbt::Register r26({ "C26", c26,
    "trees of archives as for C25; random histories of listing directories, copying, assigning and abandoning listers, stat, opening, reading and closing, against a model "
    "tree; in half of them everything is listed again at the end. Non-trivial: two listers of one directory were used in turns and a listing of two or more members ended", 10000, 600000, 25, 20, 0 });
static pbt::Register r36({ "C36", c36,
    "trees of archives as for C25 whose files are replaced by other archives or plain files, touched, removed and put back (also with an earlier time, or the same time and "
    "another size) in the middle of random histories of listings, stats, opens and reads. Non-trivial: a path was asked for before and after a change", 8000, 500000, 25, 20, 0 });
