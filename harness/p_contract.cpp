// C02, C03: the stream contract over every kind of stream.
// C28: failing sources.  C32: stacks of streams.
#include "stacks.h"
#include "../lib/gzipcompressstream.h"
#include <strigi/inputstreamreader.h>
#include <strigi/encodinginputstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/processinputstream.h>
#include "../lib/mmapfileinputstream.h"
#include "../lib/skippingfileinputstream.h"
#include "../lib/skippingfileinputstream2.h"
#include <algorithm>
#include <iostream>
#include <unistd.h>
using namespace Strigi;
using namespace pbt;

static MakeSource anySource(Choices& c) { return [&c](const Bytes& b) { return genAnySource(c, b); }; }
static Bytes genContent(Choices& c, bool big) {
    static const std::vector<int64_t> near = { 0, 1, 2, 64, 512, 1024, 4096, 65536 };
    int64_t n = genSizeNear(c, near, big && c.chance(1, 30) ? 600000 : c.chance(1, 8) ? 70000 : 2500);
    Bytes b = genBytesOfSize(c, n);
    if (c.chance(1, 5)) for (char& ch : b) { ch &= 0x7f; if (!ch) ch = 'o'; }
    return b;
}

// ---- C02 -----------------------------------------------------------------------------
// reads, and rewinds into what was read last; everything is compared
template <class T>
static void rewinds(Choices& c, StreamBase<T>& s, const std::basic_string<T>& e, const char* what) {
    const int64_t size = (int64_t)e.size();
    int64_t pos = 0;
    int ops = 1 + (int)c.size(25);
    bool back = false, atEnd = false;
    for (int i = 0; i < ops; i++) {
        if (c.chance(1, 10)) {
            int64_t k = c.size(size + 2), r = s.skip(k);
            REQUIRE(r == std::min(k, size - pos) || (pos == size && r == -1), "%s: skip(%lld) at %lld of %lld returned %lld", what, (long long)k, (long long)pos, (long long)size, (long long)r);
            if (r > 0) pos += r;
        }
        int32_t mn = 1 + (int32_t)(c.flip() ? 0 : c.size(size + 5)), mx = c.draw(3) ? 0 : c.flip() ? mn : mn + (int32_t)c.size(200);
        const T* d = nullptr;
        int32_t n = s.read(d, mn, mx);
        c.note("  read(%d,%d) = %d at %lld of %lld", mn, mx, n, (long long)pos, (long long)size);
        if (n <= 0) {
            REQUIRE(pos == size && n >= -1 && s.status() == Eof, "%s: read(%d,%d) returned %d at %lld of %lld, status %s %s", what, mn, mx, n, (long long)pos, (long long)size, statusName(s.status()), s.error());
            if (c.flip()) { // the segment of this read is empty
                REQUIRE(s.reset(pos) == pos, "%s: reset to the position at the end", what);
                continue;
            }
            break;
        }
        REQUIRE(n <= size - pos && !memcmp(d, e.data() + pos, n * sizeof(T)), "%s: wrong data at %lld", what, (long long)pos);
        int64_t start = pos;
        pos += n;
        int k = (int)c.size(6);
        for (int j = 0; j < k; j++) {
            int64_t t = c.draw(3) == 0 ? start : c.draw(4) == 0 ? start + n : c.range(start, start + n);
            int64_t r = s.reset(t);
            c.note("  reset(%lld) = %lld [%s]", (long long)t, (long long)r, statusName(s.status()));
            REQUIRE(r == t, "%s: reset(%lld) into the last read [%lld,%lld) returned %lld, status %s", what, (long long)t, (long long)start, (long long)(start + n), (long long)r, statusName(s.status()));
            REQUIRE(s.position() == t, "%s: position() is %lld after reset(%lld)", what, (long long)s.position(), (long long)t);
            REQUIRE(t == size || s.status() == Ok, "%s: status %s after reset(%lld) of %lld", what, statusName(s.status()), (long long)t, (long long)size);
            REQUIRE(s.status() != Error, "%s: status Error after reset(%lld): %s", what, (long long)t, s.error());
            REQUIRE(!memcmp(d, e.data() + start, n * sizeof(T)), "%s: the last read's data changed by a reset", what);
            if (t < pos) back = true;
            if (pos == size && t < pos) atEnd = true;
            pos = t;
        }
        c.evaluations++;
    }
    // and the rest once more
    if (c.flip()) {
        Bytes dummy;
        int64_t guard = 0;
        while (pos < size) {
            const T* d = nullptr;
            int32_t n = s.read(d, 1 + (int32_t)c.size(50), 0);
            REQUIRE(n > 0 && n <= size - pos && !memcmp(d, e.data() + pos, n * sizeof(T)), "%s: wrong rest at %lld of %lld: %d, status %s", what, (long long)pos, (long long)size, n, statusName(s.status()));
            pos += n;
            if (++guard > size + 10) fail("%s: no progress", what);
        }
        const T* d = nullptr;
        int32_t n = s.read(d, 1, 0);
        REQUIRE(n <= 0 && n >= -1 && s.status() == Eof, "%s: read at the end returned %d, status %s", what, n, statusName(s.status()));
    }
    if (back && size > 1) c.nontrivial();
    if (atEnd) c.label("rewound from the end");
}
// ---- C03 -----------------------------------------------------------------------------
template <class T>
static void ends(Choices& c, StreamBase<T>& s, const std::basic_string<T>& e, const char* what) {
    const int64_t size = (int64_t)e.size();
    int64_t pos = 0, early = -1;
    auto look = [&](const char* op) {
        REQUIRE(s.status() != Error, "%s: status Error after %s at %lld of %lld: %s", what, op, (long long)pos, (long long)size, s.error());
        REQUIRE(s.position() == pos, "%s: position() is %lld after %s, not %lld", what, (long long)s.position(), op, (long long)pos);
        REQUIRE(pos == size || s.status() == Ok, "%s: status %s after %s at %lld of %lld", what, statusName(s.status()), op, (long long)pos, (long long)size);
        int64_t z = s.size();
        REQUIRE(z == -1 || z == size, "%s: size() is %lld after %s at %lld, the real size is %lld", what, (long long)z, op, (long long)pos, (long long)size);
        REQUIRE(early == -1 || z == early, "%s: size() was %lld and is %lld after %s", what, (long long)early, (long long)z, op);
        early = z;
        REQUIRE(s.status() != Eof || z == size, "%s: size() is %lld at the end after %s, not %lld", what, (long long)z, op, (long long)size);
    };
    look("opening");
    int rounds = 1 + (int)c.draw(3);
    for (int r = 0; r < rounds; r++) {
        int64_t segStart = pos;
        int64_t guard = 0;
        while (pos < size) {
            if (c.chance(1, 3)) {
                int64_t k = c.flip() ? size - pos : c.chance(1, 6) ? size - pos + 1 + c.size(70000) : c.size(size - pos);
                int64_t n = s.skip(k);
                c.note("  skip(%lld) = %lld at %lld of %lld [%s]", (long long)k, (long long)n, (long long)pos, (long long)size, statusName(s.status()));
                REQUIRE(n == std::min(k, size - pos), "%s: skip(%lld) at %lld of %lld returned %lld", what, (long long)k, (long long)pos, (long long)size, (long long)n);
                pos += n;
                segStart = pos;
                look("skip");
            } else {
                int32_t mn = 1 + (int32_t)(c.flip() ? 0 : c.size(size + 5)), mx = c.flip() ? 0 : mn + (int32_t)c.size(size);
                if (mx && c.chance(1, 4)) mx = mn = (int32_t)(size - pos);
                const T* d = nullptr;
                int32_t n = s.read(d, mn, mx);
                c.note("  read(%d,%d) = %d at %lld of %lld [%s]", mn, mx, n, (long long)pos, (long long)size, statusName(s.status()));
                REQUIRE(n > 0, "%s: read(%d,%d) returned %d at %lld of %lld", what, mn, mx, n, (long long)pos, (long long)size);
                REQUIRE(n <= size - pos && !memcmp(d, e.data() + pos, n * sizeof(T)), "%s: wrong data at %lld", what, (long long)pos);
                REQUIRE(n >= mn || n == size - pos, "%s: read(%d,%d) returned only %d at %lld of %lld", what, mn, mx, n, (long long)pos, (long long)size);
                segStart = pos;
                pos += n;
                look("read");
                if (c.chance(1, 6)) { // away from the end, if it was one
                    int64_t t = c.range(segStart, pos);
                    REQUIRE(s.reset(t) == t, "%s: reset(%lld) into the last read", what, (long long)t);
                    pos = t;
                    look("reset");
                }
            }
            if (++guard > 4 * size + 1000) fail("%s: no progress", what);
        }
        int k = 1 + (int)c.draw(4);
        for (int i = 0; i < k; i++) {
            const T* d = nullptr;
            if (i && c.chance(1, 4)) {
                int64_t n = s.skip(1 + c.size(10));
                REQUIRE(n <= 0, "%s: a skip at the end passed %lld items", what, (long long)n);
                look("skip at the end");
                REQUIRE(s.status() == Eof, "%s: status %s after a skip at the end", what, statusName(s.status()));
                continue;
            }
            int32_t n = s.read(d, 1 + (int32_t)c.size(size + 3), c.flip() ? 0 : 1 + (int32_t)c.size(1000));
            REQUIRE(n == 0 || n == -1, "%s: read at the end returned %d", what, n);
            look("read at the end");
            REQUIRE(s.status() == Eof, "%s: status %s after a read at the end", what, statusName(s.status()));
            segStart = pos;
        }
        REQUIRE(s.size() == size, "%s: size() is %lld at the end, not %lld", what, (long long)s.size(), (long long)size);
        if (c.flip() && s.reset(pos) != pos) fail("%s: reset to where it is", what);
        c.evaluations++;
        if (r + 1 < rounds) { // a rewind, as far as it goes
            int64_t t = s.reset(c.range(0, size));
            REQUIRE(t >= 0 && t <= size, "%s: a rewind from the end returned %lld: %s", what, (long long)t, s.error());
            pos = t;
            look("a rewind from the end");
        }
    }
    if (size > 1) c.nontrivial();
}
// a random stream of any kind
template <class Narrow, class Wide>
static void withStream(Choices& c, const Narrow& narrow, const Wide& wide) {
    if (c.chance(1, 8)) { // wide characters
        if (c.flip()) {
            std::wstring w;
            Bytes b = genContent(c, false);
            for (char ch : b) w += (wchar_t)(ch & 0x7f);
            auto st = buildStack(c, std::string(w.begin(), w.end()), (int)c.draw(2), anySource(c));
            const Bytes& t = st->content();
            std::wstring want;
            for (char ch : t) want += (wchar_t)(unsigned char)ch;
            InputStreamReader r(st->top(), "ISO-8859-1");
            c.label("reader");
            c.note("reader over %s", st->describe().c_str());
            wide(r, want, "reader");
        } else {
            std::wstring w;
            Bytes b = genContent(c, false);
            for (char ch : b) w += (wchar_t)((unsigned char)ch * 300);
            StringReader r(w.data(), (int32_t)w.size(), c.flip());
            c.label("string reader");
            wide(r, w, "string reader");
        }
        return;
    }
    auto st = buildStack(c, genContent(c, true), c.chance(1, 6) ? 0 : 1 + (int)c.draw(2), anySource(c));
    std::string d = st->describe();
    c.note("%s, %zu bytes", d.c_str(), st->content().size());
    c.label(st->levels.back().what.empty() ? "source" : st->levels.back().what);
    narrow(*st->top(), st->content(), d.c_str());
}
static void c02(Choices& c) {
    withStream(c, [&](InputStream& s, const Bytes& e, const char* w) { rewinds(c, s, e, w); },
        [&](StreamBase<wchar_t>& s, const std::wstring& e, const char* w) { rewinds(c, s, e, w); });
}
static void c03(Choices& c) {
    withStream(c, [&](InputStream& s, const Bytes& e, const char* w) { ends(c, s, e, w); },
        [&](StreamBase<wchar_t>& s, const std::wstring& e, const char* w) { ends(c, s, e, w); });
}
static Register r02({ "C02", c02,
    "every kind of stream (sources, files, windows, terminated parts, decoders, converters, event streams, compressors, entries of seven archive formats, readers of wide "
    "characters), alone or over another; random reads, after each up to six rewinds into it, with result, position, status and the data pointed to compared, and the data "
    "read from there. Non-trivial: a rewind went backwards", 30000, 2000000, 25, 20, 0 });
static Register r03({ "C03", c03,
    "every kind of stream as for C02; random reads and skips up to the end, several reads and skips there, rewinds from there and again; status, size and position are "
    "checked after each. Non-trivial: the stream has two items or more", 25000, 2000000, 25, 20, 0 });

// ---- C32 -----------------------------------------------------------------------------
static void c32(Choices& c) {
    auto st = buildStack(c, genContent(c, true), 2 + (int)c.draw(4), anySource(c));
    std::string d = st->describe();
    c.note("%s, %zu bytes", d.c_str(), st->content().size());
    c.label("depth " + std::to_string(st->levels.size() - 1));
    ContractOptions o;
    o.full = false;
    o.maxOps = 25;
    o.finish = c.flip();
    // another stack, used in turns
    std::unique_ptr<Stack> other;
    int64_t opos = 0;
    if (c.flip()) {
        other = buildStack(c, genContent(c, false), 1 + (int)c.draw(3), anySource(c));
        c.note("and %s, %zu bytes", other->describe().c_str(), other->content().size());
        int budget = 60;
        o.after = [&c, &other, &opos, budget](int64_t) mutable {
            if (--budget < 0 || !c.chance(1, 2)) return;
            const Bytes& e = other->content();
            const char* p = nullptr;
            int32_t n = other->top()->read(p, 1, 1 + (int32_t)c.size(300));
            if (opos == (int64_t)e.size()) REQUIRE(n <= 0 && n >= -1, "the other stack gives %d at its end", n);
            else {
                REQUIRE(n > 0 && n <= (int64_t)e.size() - opos && !memcmp(p, e.data() + opos, n), "the other stack (%s) gives other data at %lld, read returned %d", other->describe().c_str(), (long long)opos, n);
                opos += n;
            }
        };
        c.label("two stacks in turns");
    }
    exercise(c, *st->top(), st->content(), o, d.c_str());
    if (other) {
        Bytes rest = drainAll(*other->top());
        requireSame(rest, other->content().substr((size_t)opos), "the rest of the other stack");
    }
    // one by one: what is below goes on from where it is
    while (st->levels.size() > 1) {
        std::string gone = st->levels.back().what;
        st->pop();
        InputStream* s = st->top();
        const Bytes& e = st->content();
        int64_t p = s->position();
        REQUIRE(s->status() != Error, "after the end of the %s, the stream below is in error: %s", gone.c_str(), s->error());
        REQUIRE(p >= 0 && p <= (int64_t)e.size(), "after the end of the %s, the stream below is at %lld of %zu", gone.c_str(), (long long)p, e.size());
        c.note("below the %s at %lld of %zu", gone.c_str(), (long long)p, e.size());
        if (c.flip()) {
            StreamStatus status;
            Bytes rest = drain(*s, genPlan(c), &status);
            requireSame(rest, e.substr((size_t)p), ("what is left below the " + gone).c_str());
            REQUIRE(status == Eof, "what is left below the %s ends in status %s", gone.c_str(), statusName(status));
        } else {
            int64_t k = c.size((int64_t)e.size() - p);
            if (k && c.flip()) {
                int64_t r = s->skip(k);
                REQUIRE(r == k, "skip(%lld) below the %s returned %lld", (long long)k, gone.c_str(), (long long)r);
                p += k;
            }
            const char* q = nullptr;
            int32_t n = s->read(q, 1, 0);
            if (p < (int64_t)e.size()) REQUIRE(n > 0 && n <= (int64_t)e.size() - p && !memcmp(q, e.data() + p, n), "what is left below the %s is wrong at %lld: read returned %d", gone.c_str(), (long long)p, n);
            else REQUIRE(n <= 0, "read at the end below the %s returned %d", gone.c_str(), n);
        }
        c.evaluations++;
    }
}
static Register r32({ "C32", c32,
    "stacks of two to five random layers (decoders, windows, terminated parts, event streams, converters, compressors, archive entries) over a random source, driven by "
    "random reads, skips and rewinds against the composition, half of them in turns with a second stack; then the layers are destroyed from the top and each stream below "
    "must deliver its rest. Non-trivial: an operation ended inside the data and a rewind went backwards", 20000, 1500000, 25, 20, 0 });

// ---- C28 -----------------------------------------------------------------------------
struct FailInfo { ChunkStream* chunk = nullptr; };
static MakeSource failingSource(Choices& c, std::string* desc, bool ownText = false) {
    return [&c, desc, ownText](const Bytes& b) {
        // either a stream that fails, or a decompressor of damaged data
        std::unique_ptr<Source> r(new Source);
        Delivery d = genDelivery(c);
        int64_t n = (int64_t)b.size();
        if (c.chance(1, 5) && n > 2) {
            Bytes z = gzipOf(b, (int)c.draw(10));
            if (c.flip()) z.resize(z.size() - 1 - c.draw(std::min<size_t>(z.size() - 3, 400)));
            else z[z.size() - 1 - c.draw(8)] ^= (char)(1 << c.draw(8));
            r->chunk = new ChunkStream(z, d);
            r->owned.push_back(std::unique_ptr<InputStream>(r->chunk));
            r->owned.push_back(std::unique_ptr<InputStream>(makeDecoder(CGzip, r->top())));
            *desc = "a decompressor of damaged data";
        } else {
            if (ownText) d.failText = "fault " + std::to_string(c.draw(100000));
            d.failAt = n == 0 ? 0 : c.flip() ? (int64_t)c.draw((uint64_t)n) : n - 1 - c.size(n - 1);
            r->chunk = new ChunkStream(b, d);
            r->owned.push_back(std::unique_ptr<InputStream>(r->chunk));
            *desc = "a source failing at " + std::to_string(d.failAt) + " of " + std::to_string(n);
        }
        r->desc = *desc;
        return r;
    };
}
template <class T>
static void readsUntilError(Choices& c, StreamBase<T>& s, const std::basic_string<T>& e, const char* what) {
    int64_t pos = 0;
    ReadPlan plan = genPlan(c);
    const int64_t size = (int64_t)e.size();
    bool delivered = false;
    for (int i = 0; i < 2000000; i++) {
        auto q = plan.reqs[(size_t)i % plan.reqs.size()];
        if (i < 200 && c.chance(1, 8)) {
            int64_t k = 1 + c.size(size), r = s.skip(k);
            c.note("  skip(%lld) = %lld [%s]", (long long)k, (long long)r, statusName(s.status()));
            REQUIRE(r <= k && r <= size - pos, "%s: skip(%lld) at %lld of %lld returned %lld", what, (long long)k, (long long)pos, (long long)size, (long long)r);
            if (r > 0) pos += r;
            if (s.status() == Ok) REQUIRE(r == k, "%s: skip(%lld) returned %lld and status Ok", what, (long long)k, (long long)r);
        } else {
            const T* d = nullptr;
            int32_t n = s.read(d, q.first, q.second);
            if (i < 100) c.note("  read(%d,%d) = %d [%s]", q.first, q.second, n, statusName(s.status()));
            if (n > 0) {
                REQUIRE(n <= size - pos && !memcmp(d, e.data() + pos, n * sizeof(T)), "%s: wrong data at %lld before the failure", what, (long long)pos);
                pos += n;
                delivered = true;
                if (s.status() != Error && i < 200 && c.chance(1, 6)) {
                    int64_t t = pos - c.range(0, n);
                    if (s.reset(t) == t) pos = t;
                }
            }
        }
        if (s.status() == Error) break;
        if (s.status() == Eof && pos == size) break;
        REQUIRE(s.status() != Eof, "%s: a clean end at %lld of %lld although the source failed", what, (long long)pos, (long long)size);
    }
    if (s.status() == Error) {
        const T* d = nullptr;
        int32_t n = s.read(d, 1, 0);
        REQUIRE(n <= -1 && s.status() == Error, "%s: a read after the failure returned %d, status %s", what, n, statusName(s.status()));
        if (delivered) c.nontrivial();
        c.label("failed");
    } else REQUIRE(pos == size, "%s: neither an end nor an error", what);
}
static void c28(Choices& c) {
    std::cerr.rdbuf(nullptr); // the compressor complains there
    std::string desc = "?";
    MakeSource make = failingSource(c, &desc);
    switch (c.draw(4)) {
    case 0: case 1: { // an archive
        int kind = (int)c.draw(KindCount);
        c.label(kindName(kind));
        GenOpts o;
        Archive a = genArchive(c, kind, o);
        noteArchive(c, a);
        auto src = make(a.bytes);
        c.note("%s", desc.c_str());
        std::unique_ptr<SubStreamProvider> sp(makeProvider(kind, src->top()));
        size_t i = 0;
        bool bad = false;
        while (InputStream* s = sp->nextEntry()) {
            REQUIRE(i < a.entries.size(), "%s: an entry %s too much", kindName(kind), show(sp->entryInfo().filename).c_str());
            checkEntryInfo(sp->entryInfo(), a.entries[i], i, kindName(kind));
            if (!c.chance(1, 3)) {
                readsUntilError(c, *s, a.entries[i].content, kindName(kind));
                if (s->status() == Error) bad = true;
            }
            i++;
        }
        REQUIRE(sp->status() != Ok, "%s: no entry, but status Ok", kindName(kind));
        if (sp->status() == Eof) REQUIRE(i == a.entries.size(), "%s: a clean end after %zu of %zu entries (%s)", kindName(kind), i, a.entries.size(), desc.c_str());
        if (bad && kind != Ole && !a.singleMail) REQUIRE(sp->status() == Error, "%s: an entry failed, and the iteration ends cleanly", kindName(kind));
        if (sp->status() == Error && i) c.nontrivial();
        break; }
    case 2: { // wide characters, and the compressing stream
        Bytes b = genContent(c, false);
        if (c.flip()) {
            for (char& ch : b) ch &= 0x7f;
            auto src = make(b);
            c.note("reader over %s", desc.c_str());
            std::wstring w(b.begin(), b.end());
            InputStreamReader r(src->top(), "UTF-8");
            readsUntilError(c, r, w, "reader");
            c.label("reader");
        } else {
            auto src = make(b);
            c.note("compressing %s", desc.c_str());
            GZipCompressInputStream z(src->top(), (int)c.draw(10));
            StreamStatus st;
            Bytes out = drain(z, genPlan(c), &st);
            // the input is incomplete unless all of it was there
            if (st == Eof) {
                StringInputStream in(out.data(), (int32_t)out.size(), true);
                std::unique_ptr<InputStream> g(makeDecoder(CZlib, &in));
                StreamStatus st2;
                Bytes back = drainAll(*g, &st2);
                requireSame(back, b, "what was compressed to a clean end of a failing source");
            } else { c.nontrivial(); c.label("failed"); }
            c.label("compressor");
        }
        break; }
    default: { // any stack
        auto st = buildStack(c, genContent(c, true), 1 + (int)c.draw(3), make, true);
        if (!st) { c.label("failed while opening"); return; }
        std::string d = st->describe();
        c.note("%s, %zu bytes", d.c_str(), st->content().size());
        c.label(st->levels.back().what);
        readsUntilError(c, *st->top(), st->content(), d.c_str());
        // closing in any order from the top is safe
    }
    }
}
static Register r28({ "C28", c28,
    "archives of all formats, stacks of up to three layers, readers of wide characters and compressors over a source that fails at a random place, or over a decompressor "
    "of damaged data; what is delivered must be right, a clean end must be complete, and an error stays. Non-trivial: something was delivered before the failure", 50000, 2000000, 25, 20, 0 });
// ---- C37 -----------------------------------------------------------------------------
template <class S>
static void told(S& s, const char* what, const char* op, InputStream* below) {
    const char* e = s.error();
    REQUIRE(e, "%s: no text at all", what);
    if (s.status() != Error) {
        REQUIRE(!*e, "%s: after %s the status is %s and the error text '%s'", what, op, statusName(s.status()), show(e).c_str());
        return;
    }
    REQUIRE(*e, "%s: an error without a text in %s", what, op);
    if (below && below->status() == Error)
        REQUIRE(strstr(e, below->error()), "%s: the error in %s is told as '%s', but the stream below says '%s'", what, op, show(e).c_str(), show(below->error()).c_str());
}
template <class T>
static void toldReads(Choices& c, StreamBase<T>& s, const char* what, InputStream* below) {
    told(s, what, "the beginning", below);
    ReadPlan plan = genPlan(c);
    int64_t lastPos = 0, lastEnd = -1;
    for (int i = 0; i < 500000 && s.status() == Ok; i++) {
        auto q = plan.reqs[(size_t)i % plan.reqs.size()];
        if (i < 200 && c.chance(1, 8)) {
            int64_t k = 1 + c.size(50000), p = s.position(), r = s.skip(k);
            c.note("  skip(%lld) = %lld [%s] %s", (long long)k, (long long)r, statusName(s.status()), s.error());
            told(s, what, "a skip", below);
            if (s.status() != Error) REQUIRE(r == k || s.status() == Eof, "%s: skip(%lld) at %lld gave %lld, status %s", what, (long long)k, (long long)p, (long long)r, statusName(s.status()));
            else REQUIRE(r < k, "%s: skip(%lld) gave %lld in an error", what, (long long)k, (long long)r);
            lastEnd = -1;
        } else if (i < 200 && lastEnd >= 0 && c.chance(1, 8)) {
            s.reset(c.range(lastPos, lastEnd));
            told(s, what, "a rewind", below);
            lastEnd = -1;
        } else {
            const T* d = nullptr;
            lastPos = s.position();
            int32_t n = s.read(d, q.first, q.second);
            if (i < 100) c.note("  read(%d,%d) = %d [%s] %s", q.first, q.second, n, statusName(s.status()), s.error());
            told(s, what, "a read", below);
            REQUIRE((n <= -2) == (s.status() == Error), "%s: read(%d,%d) gave %d and status %s", what, q.first, q.second, n, statusName(s.status()));
            REQUIRE(n != -1 || s.status() == Eof, "%s: read(%d,%d) gave %d and status %s", what, q.first, q.second, n, statusName(s.status()));
            lastEnd = n > 0 ? s.position() : -1;
        }
    }
    if (s.status() == Ok) return;
    if (s.status() == Error) c.nontrivial();
    c.label(s.status() == Error ? "an error" : "a clean end");
    Bytes text = s.error();
    StreamStatus st = s.status();
    for (int i = (int)c.draw(3); i > 0; i--) {
        const T* d = nullptr;
        int32_t n = s.read(d, 1, 0);
        REQUIRE(s.status() == st, "%s: the status %s becomes %s with a further read", what, statusName(st), statusName(s.status()));
        REQUIRE(st == Error ? n == -2 : n == -1 || n == 0, "%s: a read in status %s gave %d", what, statusName(st), n);
        REQUIRE(text == s.error(), "%s: the error '%s' becomes '%s' with a further read", what, show(text).c_str(), show(s.error()).c_str());
    }
}
static void damage(Choices& c, Bytes& b) {
    if (b.empty()) return;
    switch (c.draw(3)) {
    case 0: b.resize(c.draw(b.size())); break;
    case 1: b.resize(b.size() - 1 - c.draw(std::min<size_t>(b.size(), 64))); break;
    default:
        for (int i = 1 + (int)c.draw(4); i > 0; i--) {
            size_t at = c.flip() ? c.draw(std::min<size_t>(b.size(), 600)) : c.draw(b.size());
            b[at] = c.flip() ? (char)c.draw(256) : (char)(b[at] ^ (1 << c.draw(8)));
        }
    }
}
static void c37(Choices& c) {
    std::cerr.rdbuf(nullptr);
    std::string desc = "an intact source";
    bool spoil = false;
    MakeSource make;
    switch (c.draw(4)) {
    case 0: case 1: make = failingSource(c, &desc, true); break;
    case 2: spoil = true; desc = "damaged data"; /* fall through */
    default: make = [&c](const Bytes& b) {
            std::unique_ptr<Source> r(new Source);
            r->chunk = new ChunkStream(b, genDelivery(c));
            r->owned.push_back(std::unique_ptr<InputStream>(r->chunk));
            return r;
        };
    }
    switch (c.weighted({ 8, 7, 2, 8, 1 })) {
    case 0: {
        int kind = (int)c.draw(KindCount);
        const char* name = kindName(kind);
        c.label(name);
        GenOpts o;
        Archive a = genArchive(c, kind, o);
        noteArchive(c, a);
        if (c.chance(1, 10)) { // the parser of another format
            kind = (int)c.draw(KindCount);
            name = kindName(kind);
            c.note("as %s", name);
        }
        if (spoil) damage(c, a.bytes);
        auto src = make(a.bytes);
        c.note("%s", desc.c_str());
        InputStream* below = src->top();
        std::unique_ptr<SubStreamProvider> sp(makeProvider(kind, below));
        told(*sp, name, "the beginning", below);
        for (int i = 0; i < 3000; i++) {
            InputStream* s = sp->nextEntry();
            c.note(" entry %d: %s [%s] %s", i, s ? "there" : "none", statusName(sp->status()), sp->error());
            told(*sp, name, "nextEntry()", below);
            REQUIRE(s ? sp->status() != Error : sp->status() != Ok, "%s: nextEntry() gave %s and status %s", name, s ? "an entry" : "none", statusName(sp->status()));
            if (!s) break;
            if (!c.chance(1, 3)) toldReads(c, *s, name, below);
        }
        Bytes text = sp->error();
        StreamStatus st = sp->status();
        if (st == Ok) break;
        if (st == Error) c.nontrivial();
        REQUIRE(!sp->nextEntry() && sp->status() == st && text == sp->error(), "%s: the end [%s, '%s'] becomes [%s, '%s'] when asked again", name, statusName(st), show(text).c_str(), statusName(sp->status()), show(sp->error()).c_str());
        break; }
    case 1: {
        int codec = (int)c.draw(CodecCount);
        Bytes b = encode(c, codec, genContent(c, true)).bytes;
        if (spoil) damage(c, b);
        auto src = make(b);
        c.note("%s over %s, %zu bytes", codecName(codec), desc.c_str(), b.size());
        std::unique_ptr<InputStream> d(makeDecoder(codec, src->top()));
        toldReads(c, *d, codecName(codec), src->top());
        break; }
    case 2: {
        Bytes b = genContent(c, false);
        for (char& ch : b) ch &= 0x7f;
        if (spoil) { if (b.empty()) b = "x"; b[c.draw(b.size())] = (char)0x80 | (char)c.draw(128); }
        auto src = make(b);
        c.note("characters or compression over %s, %zu bytes", desc.c_str(), b.size());
        switch (c.draw(4)) {
        case 0: { InputStreamReader r(src->top(), "UTF-8"); toldReads(c, r, "reader", src->top()); break; }
        case 1: { EncodingInputStream e(src->top(), "UTF-8", c.flip() ? "UTF-16" : "UTF-8"); toldReads(c, e, "converter", src->top()); break; }
        case 2: { GZipCompressInputStream z(src->top(), (int)c.draw(10)); toldReads(c, z, "compressor", src->top()); break; }
        default: {
            std::string no = "no-such-set-" + std::to_string(c.draw(1000));
            c.label("unknown character set");
            if (c.flip()) { InputStreamReader r(src->top(), no.c_str()); told(r, "reader", "the beginning", nullptr); REQUIRE(r.status() == Error && strstr(r.error(), no.c_str()), "the error '%s' does not name %s", r.error(), no.c_str()); }
            else { EncodingInputStream e(src->top(), no.c_str(), "UTF-8"); told(e, "converter", "the beginning", nullptr); REQUIRE(e.status() == Error && strstr(e.error(), no.c_str()), "the error '%s' does not name %s", e.error(), no.c_str()); }
            }
        }
        break; }
    case 4: {
        if (c.flip()) {
            // a command does not see what its input fails with
            Bytes b = genContent(c, false);
            auto src = make(b);
            c.note("/bin/cat over %s, %zu bytes", desc.c_str(), b.size());
            c.label("process");
            std::vector<std::string> args = { "/bin/cat" };
            ProcessInputStream p(args, src->top());
            toldReads(c, p, "process", src->top());
            if (p.status() == Eof) REQUIRE(src->top()->status() != Error, "the process stream ends cleanly although its input failed with '%s'", src->top()->error());
            break;
        }
        std::string dir = scratchDir(), path = dir + "/" + genName(c);
        if (c.flip()) path = dir;
        const bool nameless = c.chance(1, 6);
        const char* name = nameless ? nullptr : path.c_str();
        c.label(nameless ? "file without a name" : "no readable file");
        std::unique_ptr<InputStream> f;
        switch (c.draw(4)) {
        case 0: f.reset(new FileInputStream(name)); break;
        case 1: f.reset(new MMapFileInputStream(name)); break;
        case 2: f.reset(new SkippingFileInputStream2(name, 1 + (int)c.size(5000))); break;
        default: f.reset(new SkippingFileInputStream(name));
        }
        c.note("%s [%s] %s", nameless ? "no name" : path.c_str(), statusName(f->status()), f->error());
        toldReads(c, *f, "file stream", nullptr);
        REQUIRE(f->status() == Error && (nameless || strstr(f->error(), path.c_str())), "the error of the unreadable file %s is [%s] '%s'", path.c_str(), statusName(f->status()), f->error());
        break; }
    default: {
        auto st = buildStack(c, genContent(c, true), 1 + (int)c.draw(3), make, true);
        if (!st) { c.label("failed while opening"); return; }
        std::string d = st->describe();
        c.note("%s over %s, %zu bytes", d.c_str(), desc.c_str(), st->content().size());
        c.label(st->levels.back().what);
        toldReads(c, *st->top(), d.c_str(), st->src->top());
    }
    }
}
static Register r37({ "C37", c37,
    "archives of all formats, decoders, converters, readers, compressors and stacks of up to three layers over failing sources, decompressors of damaged data, damaged data and intact "
    "sources, with random reads, skips and rewinds. Non-trivial: an error was reported", 50000, 2000000, 25, 20, 0 });

